"""C33: composite schemas mean the composition of their parts.  Every tree of combinators (nullable, chain,
lax-or-strict, json-or-python, custom-error, default with each on_error, before/after/wrap functions,
left-to-right union, tagged union with a function, definition reference, list) up to depth two (part of depth
three) over a set of leaves, in Python, JSON and string mode, with every strictness, is executed and compared
with a reference interpreter that knows only the documented meaning of each combinator and asks the
stand-alone validator of the leaf.  The leaves that are decided by Python itself (is-instance, is-subclass,
callable) are compared with isinstance, issubclass and callable over every class x object of an alphabet."""
import abc, functools, itertools, json, sys, types, typing
from mc.lib import *
from pydantic_core import PydanticOmit, PydanticUseDefault, PydanticCustomError, PydanticUndefined

LEVEL = 'exploration'
RULE = 'every (tree, configuration, mode, strictness, input); non-trivial when the result is not the one of the first leaf of the tree on the same input'
BOUNDS = {'quick': 'all trees of depth 1 over 13 leaves, of depth 2 over reduced alphabets, chains of up to three steps; 3 modes x 3 strictness settings x 2 configurations; 16 classes x 33 objects',
          'thorough': 'all unary combinators over all trees of depth 2, all binary ones over a larger set of trees of depth 1'}
ASSUME = ['the leaf validators are the oracle for the leaves (they are judged by C01 to C03 and C09 to C12)',
          'a function (before, wrap, after) and the later steps of a chain receive Python objects, which are then validated with the leniency of Python input; json-or-python keeps following the mode of the call',
          'labels of union members without an explicit label are the titles of their stand-alone validators']


class Omit(Exception): pass
class UseDefault(Exception): pass
class Errors(Exception):
    def __init__(self, lines): self.lines = lines
class Exc(Exception):
    def __init__(self, e): self.e = e


# ---- leaves ---------------------------------------------------------------------------------
class K: pass
class KS(K): pass

LEAVES = {
    'int': lambda: cs.int_schema(), 'sint': lambda: cs.int_schema(strict=True), 'pos': lambda: cs.int_schema(gt=1), 'str': lambda: cs.str_schema(),
    'float': lambda: cs.float_schema(), 'bool': lambda: cs.bool_schema(), 'none': lambda: cs.none_schema(), 'any': lambda: cs.any_schema(),
    'lit': lambda: cs.literal_schema([1, 'a']), 'inst': lambda: cs.is_instance_schema(K), 'call': lambda: cs.callable_schema(), 'date': lambda: cs.date_schema(),
    'bytes': lambda: cs.bytes_schema(),
}


def f_omit(v): raise PydanticOmit
def f_use(v): raise PydanticUseDefault
def f_val(v): raise ValueError('bad')
def f_key(v): raise KeyError('k')
def f_custom(v): raise PydanticCustomError('cust', 'msg {a}', {'a': 1})
def f_id(v): return v
def f_box(v): return [v]
def f_str(v): return str(v)
def w_id(v, h): return h(v)
def w_swallow(v, h):
    try: return h(v)
    except ValidationError as e: return ('swallowed', e.error_count())
def w_twice(v, h): return h(h(v))
def w_never(v, h): return 'never'
FUN = {f.__name__: f for f in (f_omit, f_use, f_val, f_key, f_custom, f_id, f_box, f_str)}
WRAP = {f.__name__: f for f in (w_id, w_swallow, w_twice, w_never)}
def tagger(v): return 'i' if type(v) is int else 's' if type(v) is str else None
def tagger2(v): return 7 if type(v) is int else K if type(v) is float else True
TAGS = {'t1': (tagger, ('i', 's')), 't2': (tagger2, (7, True))}
DN = [0]


def schema(n):
    k = n[0]
    if k == 'leaf': return LEAVES[n[1]]()
    if k == 'plain': return cs.no_info_plain_validator_function(FUN[n[1]])
    if k == 'nullable': return cs.nullable_schema(schema(n[1]))
    if k == 'list': return cs.list_schema(schema(n[1]))
    if k == 'chain': return cs.chain_schema([schema(x) for x in n[1:]])
    if k == 'los': return cs.lax_or_strict_schema(schema(n[1]), schema(n[2]), strict=n[3])
    if k == 'jop': return cs.json_or_python_schema(schema(n[1]), schema(n[2]))
    if k == 'cust':
        if n[2] == 'custom': return cs.custom_error_schema(schema(n[1]), 'my_error', custom_error_message='mine {x}', custom_error_context={'x': 3})
        return cs.custom_error_schema(schema(n[1]), 'greater_than', custom_error_context={'gt': 5})
    if k == 'def':
        _, inner, dft, on, vd = n
        kw = {}
        if dft is not None: kw = {'default_factory' if callable(dft[0]) else 'default': dft[0]}
        return cs.with_default_schema(schema(inner), on_error=on, validate_default=vd, **kw)
    if k == 'before': return cs.no_info_before_validator_function(FUN[n[2]], schema(n[1]))
    if k == 'after': return cs.no_info_after_validator_function(FUN[n[2]], schema(n[1]))
    if k == 'wrap': return cs.no_info_wrap_validator_function(WRAP[n[2]], schema(n[1]))
    if k == 'lr':
        return cs.union_schema([(schema(x), f'L{i}') if n[1] == 'label' else schema(x) for i, x in enumerate(n[2:])], mode='left_to_right', **({'custom_error_type': 'my_error', 'custom_error_message': 'all bad'} if n[1] == 'cust' else {}))
    if k == 'tag':
        f, tags = TAGS[n[1]]
        return cs.tagged_union_schema({t: schema(x) for t, x in zip(tags, n[2:])}, f)
    if k == 'ref':
        DN[0] += 1
        r = f'd{DN[0]}'
        return cs.definitions_schema(cs.definition_reference_schema(r), [{**schema(n[1]), 'ref': r}])
    raise KeyError(k)


# ---- reference interpreter ------------------------------------------------------------------------
class Ref:
    def __init__(self, config, mode, strict):
        self.config, self.mode, self.strict = config, mode, strict

    def effective(self, own): return self.strict if self.strict is not None else own if own is not None else bool(self.config and self.config.get('strict'))

    def run(self, n, v, dom):
        """dom: how the value is represented now ('python' | 'json' | 'strings')"""
        k = n[0]
        if k == 'leaf': return leaf(n[1], self.config, v, dom, self.strict)
        if k == 'plain': return self.call(FUN[n[1]], v, v)
        if k == 'nullable': return None if v is None else self.run(n[1], v, dom)
        if k == 'list':
            items = leaf('LIST', self.config, v, dom, self.strict)
            out, lines = [], []
            for i, x in enumerate(items):
                try: out.append(self.run(n[1], x, dom))
                except Omit: pass
                except Errors as e: lines += [(t, (i, *l), c, x, m) for t, l, c, x, m in e.lines]
            if lines: raise Errors(lines)
            return out
        if k == 'chain':
            v = self.run(n[1], v, dom)
            for x in n[2:]: v = self.run(x, v, 'python')
            return v
        if k == 'los': return self.run(n[2] if self.effective(n[3]) else n[1], v, dom)
        if k == 'jop': return self.run(n[2] if self.mode == 'python' else n[1], v, dom)
        if k == 'cust':
            try: return self.run(n[1], v, dom)
            except Errors: raise Errors([('my_error', (), {'x': 3}, v, 'mine 3') if n[2] == 'custom' else ('greater_than', (), {'gt': 5}, v, 'Input should be greater than 5')])
        if k == 'def':
            _, inner, dft, on, vd = n
            if dft is not None and v is PydanticUndefined and dom == 'python': return self.default(n)
            try: return self.run(inner, v, dom)
            except UseDefault:
                if dft is None: raise
                return self.default(n)
            except (Errors, Omit):
                if on == 'raise': raise
                if on == 'omit': raise Omit
                return self.default(n)
        if k == 'before': return self.run(n[1], self.call(FUN[n[2]], v, v), 'python')
        if k == 'after': return self.call(FUN[n[2]], self.run(n[1], v, dom), v)
        if k == 'wrap':
            f = n[2]
            if f == 'w_never': return 'never'
            try:
                r = self.run(n[1], v, 'python')
                if f == 'w_twice': r = self.run(n[1], r, 'python')
                return r
            except Errors as e:
                if f == 'w_swallow': return ('swallowed', len(e.lines))
                raise
        if k == 'lr':
            lines = []
            for i, x in enumerate(n[2:]):
                try: return self.run(x, v, dom)
                except Errors as e: lines += [(t, (f'L{i}' if n[1] == 'label' else title(x), *l), c, inp, m) for t, l, c, inp, m in e.lines]
            if n[1] == 'cust': raise Errors([('my_error', (), None, v, 'all bad')])
            raise Errors(lines)
        if k == 'tag':
            f, tags = TAGS[n[1]]
            t = f(v)
            d = f.__name__ + '()'
            if t is None: raise Errors([('union_tag_not_found', (), {'discriminator': d}, v, None)])
            for tag, x in zip(tags, n[2:]):
                if type(tag) is type(t) and tag == t:
                    try: return self.run(x, v, dom)
                    except Errors as e: raise Errors([(ty, (tag, *l), c, inp, m) for ty, l, c, inp, m in e.lines])
            raise Errors([('union_tag_invalid', (), {'discriminator': d, 'tag': str(t), 'expected_tags': ', '.join(map(repr, tags))}, v, None)])
        if k == 'ref': return self.run(n[1], v, dom)
        raise KeyError(k)

    def default(self, n):
        _, inner, dft, on, vd = n
        d = dft[0]() if callable(dft[0]) else dft[0]
        if not vd: return d
        try: return self.run(inner, d, 'python')
        except Errors:
            if on == 'omit': raise Omit
            raise

    def call(self, f, v, inp):
        try: return f(v)
        except PydanticOmit: raise Omit
        except PydanticUseDefault: raise UseDefault
        except ValueError as e:
            if isinstance(e, PydanticCustomError): raise Errors([(e.type, (), e.context, inp, 'msg 1')])
            raise Errors([('value_error', (), None, inp, f'Value error, {e}')])
        except Exception as e: raise Exc(e)


LV = {}
def leaf(name, config, v, dom, strict):
    ck = (name, bool(config))
    if ck not in LV: LV[ck] = SchemaValidator(cs.list_schema() if name == 'LIST' else LEAVES[name](), config)
    s = LV[ck]
    try:
        if dom == 'python': return s.validate_python(v, strict=strict)
        if dom == 'json': return s.validate_json(json.dumps(v), strict=strict)
        return s.validate_strings(v, strict=strict)
    except ValidationError as e: raise Errors([line(x) for x in e.errors(include_url=False)])


TI = {}
def title(n):
    if n not in TI: TI[n] = SchemaValidator(schema(n)).title
    return TI[n]


def line(x):
    c = x.get('ctx')
    if c: c = {k: (str(v) if k == 'error' else v) for k, v in c.items()}
    return (x['type'], x['loc'], c, x['input'], x['msg'])


def key(x): return f'{type(x).__name__}:{canon(x)!r}'


def show(lines):
    # the text of value errors and of the errors of combinators is compared; the text of the others comes from the leaf, and depends on the mode (dict/object)
    return tuple((t, l, key({k: v for k, v in (c or {}).items() if k != 'error'}), key(i), m if t in ('my_error', 'greater_than', 'value_error', 'cust') and m else None) for t, l, c, i, m in lines)


def expected(n, config, mode, strict, v):
    try: return ('ok', key(Ref(config, mode, strict).run(n, v, mode)))
    except Errors as e: return ('err', show(e.lines))
    except Omit: return ('exc', 'SchemaError', 'Uncaught Omit error, please check your usage of `default` validators.')
    except UseDefault: return ('exc', 'SchemaError', 'Uncaught UseDefault error, please check your usage of `default` validators.')
    except Exc as e: return ('exc', type(e.e).__name__, str(e.e))


def actual(s, mode, strict, v, text):
    try:
        if mode == 'python': r = s.validate_python(v, strict=strict)
        elif mode == 'json': r = s.validate_json(text, strict=strict)
        else: r = s.validate_strings(v, strict=strict)
    except ValidationError as e: return ('err', show([line(x) for x in e.errors(include_url=False)])) 
    except BaseException as e:
        guard(e, (mode, strict, v))
        return ('exc', type(e).__name__, str(e))
    return ('ok', key(r))


KI = KS()
PY = [None, 0, 2, '2', 'a', 1.5, True, [], [2, 'x', None], (2,), KI, PydanticUndefined, b'1', '2020-01-01']
JS = [None, 0, 2, '2', 'a', 1.5, 3.0, True, [], [2, 'x', None], '2020-01-01']
ST = ['2', 'a', '', 'true', '1.5', '2020-01-01']
PYQ = [None, 2, '2', 'a', 1.5, [2, 'x', None], (2,), KI, PydanticUndefined]
JSQ = [None, 2, '2', 'a', [2, 'x', None]]
STQ = ['2', 'a']


def judge(ctx, n, full, configs=(None, {'strict': True})):
    ins = [('python', v, None) for v in (PY if full else PYQ)] + [('json', v, json.dumps(v)) for v in (JS if full else JSQ)] + [('strings', v, None) for v in (ST if full else STQ)]
    for config in configs:
        try: s = SchemaValidator(schema(n), config)
        except Exception as e:
            ctx.fail(f'composition: {n} does not build', error=repr(e))
            return
        first = n
        while first[0] != 'leaf' and first[0] != 'plain': first = next(x for x in first[1:] if isinstance(x, tuple))
        for mode, v, text in ins:
            for strict in (None, True, False):
                want = expected(n, config, mode, strict, v)
                got = actual(s, mode, strict, v, text)
                ctx.ev(f'{mode} {want[0]}', (n, bool(config), mode, strict, rep(v)) if want[0] != 'ok' or n[0] != 'leaf' and want[1] != key(v) else None)
                if got != want: ctx.fail(f'composition: {n} config {config} {mode} strict {strict} {rep(v)}', got=got, want=want)


L = lambda x: ('leaf', x)
DEFAULTS = [None, (3,), ('x',), (list,), (f3 := functools.partial(int, 3),)]


def unary(n, full):
    yield ('nullable', n)
    yield ('list', n)
    yield ('ref', n)
    for c in ('custom', 'known'): yield ('cust', n, c)
    for d in ([(3,), ('x',)] if not full else [(3,), ('x',), (list,), (f3,)]):
        for on in ('raise', 'omit', 'default'):
            for vd in (False, True):
                yield ('def', n, d, on, vd)
    yield ('def', n, None, 'omit', False)
    yield ('def', n, None, 'raise', False)
    for f in FUN if full else ('f_omit', 'f_use', 'f_val', 'f_box'):
        yield ('before', n, f)
        yield ('after', n, f)
    for w in WRAP: yield ('wrap', n, w)


def binary(a, b, full):
    yield ('chain', a, b)
    for s in (None, True, False) if full else (None, True): yield ('los', a, b, s)
    yield ('jop', a, b)
    for lab in ('none', 'label', 'cust') if full else ('none', 'label'): yield ('lr', lab, a, b)
    yield ('tag', 't1', a, b)
    if full: yield ('tag', 't2', a, b)


ATOMS = [L(x) for x in LEAVES] + [('plain', x) for x in ('f_omit', 'f_use', 'f_val', 'f_key', 'f_custom')]
SMALL = [L('int'), L('str'), L('none'), ('plain', 'f_omit'), ('plain', 'f_use')]


def depth1(full):
    for a in ATOMS: yield from unary(a, True)
    for a, b in itertools.product(ATOMS, ATOMS): yield from binary(a, b, True)


def core():
    """one tree for every combinator and the main leaves"""
    yield from SMALL
    for a in (L('int'), L('str')):
        yield ('nullable', a)
        yield ('list', a)
        yield ('cust', a, 'custom')
        yield ('ref', a)
        for on in ('raise', 'omit', 'default'): yield ('def', a, (3,), on, False)
        yield ('def', a, None, 'omit', False)
        yield ('before', a, 'f_use')
        yield ('after', a, 'f_box')
        yield ('wrap', a, 'w_swallow')
    for a, b in ((L('int'), L('str')), (L('sint'), L('int')), (L('str'), L('pos'))):
        yield ('chain', a, b)
        yield ('los', a, b, None)
        yield ('jop', a, b)
        yield ('lr', 'none', a, b)
        yield ('tag', 't1', a, b)


def trees(ctx):
    for n in ATOMS: yield n, True
    for n in depth1(True): yield n, True
    cr = list(core())
    # depth two
    for n in cr:
        for m in unary(n, True): yield m, False
    for a, b in itertools.product(cr, cr):
        for m in binary(a, b, True): yield m, False
    # three steps or members
    for t in itertools.product((L('int'), L('str'), L('pos'), ('plain', 'f_omit'), ('chain', L('str'), L('int')), ('nullable', L('int')), ('jop', L('str'), L('int')), ('after', L('any'), 'f_box')), repeat=3):
        yield ('chain', *t), False
        yield ('lr', 'none', *t), False
    # depth three: unary combinators over unary combinators over each combinator
    for n in cr if not ctx.quick else (x for x in cr if x[0] != 'leaf' and x[1] in (L('int'), L('sint'))):
        for m in unary(n, not ctx.quick):
            for o in unary(m, not ctx.quick): yield o, False
    if not ctx.quick:
        deep = [m for n in (L('int'), ('plain', 'f_omit'), ('plain', 'f_use')) for m in unary(n, False)]
        for a, b in itertools.product(deep, deep):
            for m in binary(a, b, True): yield m, False


# ---- classes ----------------------------------------------------------------------------------
class Abc(abc.ABC): pass
class Registered: pass
Abc.register(Registered)
class Hook(abc.ABC):
    @classmethod
    def __subclasshook__(cls, c): return hasattr(c, 'quack') or NotImplemented
class Quack:
    def quack(self): pass
class MetaTrue(type):
    def __instancecheck__(cls, o): return True
    def __subclasscheck__(cls, c): return True
class AllTrue(metaclass=MetaTrue): pass
class MetaRaise(type):
    def __instancecheck__(cls, o):
        if isinstance(o, str) and o == '__cls__': return False
        if o == 'cls': return False
        raise KeyError('instance')
    def __subclasscheck__(cls, c): raise KeyError('subclass')
class Raises(metaclass=MetaRaise): pass
class MetaValue(type):
    def __instancecheck__(cls, o):
        if o == 'cls': return False
        raise ValueError('instance')
    def __subclasscheck__(cls, c): raise ValueError('subclass')
class RaisesValue(metaclass=MetaValue): pass
class MetaOdd(type):
    def __instancecheck__(cls, o): return [o] if o is not None else []
    def __subclasscheck__(cls, c): return '' if c is int else 'yes'
class Odd(metaclass=MetaOdd): pass
@typing.runtime_checkable
class Proto(typing.Protocol):
    def quack(self): ...
class Liar:
    @property
    def __class__(self): return int
class Caller:
    def __call__(self): pass
class NotCaller:
    pass
class InstCaller:
    def __init__(self): self.__call__ = lambda: 1
class Outer:
    class Inner: pass
class BoolInt(int): pass
class BadBases(type):
    pass
class Getter:
    def __getattr__(self, k):
        if k == '__class__': raise RuntimeError
        raise AttributeError(k)

CLASSES = [int, bool, str, object, type, K, KS, Abc, Hook, AllTrue, Raises, RaisesValue, Odd, Proto, Outer.Inner, BoolInt, type(None), Caller, MetaTrue, Liar, Exception]
GROUPS = [(int, str), ((int,), (str, (K,))), int | str, typing.Union[int, str], (), (Raises, int), (int, Raises), (K, Abc), typing.Optional[K]]
BADCLS = [1, 'int', None, list[int], (int, 'x'), typing.List[int], lambda: 1, (1,)]


def objects():
    return [None, 1, True, 'a', 1.5, b'', [], (), KI, K(), Registered(), Quack(), AllTrue(), Liar(), Caller(), NotCaller(), InstCaller(), Outer.Inner(), BoolInt(3), Getter(), lambda: 1, len, [].append, property(len), staticmethod(len),
            int, bool, str, object, type, K, KS, Abc, Registered, Quack, AllTrue, Raises, Odd, Proto, Liar, MetaTrue, type(None), Exception, ValueError('x'), list[int], typing.List[int], typing.Any, int | str, functools.partial(int), functools.partial, types, print]


def pyval(f, *a):
    try: return ('ok', bool(f(*a)))
    except Exception as e: return ('exc', e)


def crepr(c): return c.__qualname__ if isinstance(c, type) else repr(c)


def classes(ctx):
    for kind in ctx.split(['inst', 'sub', 'call', 'bad']):
        if kind == 'bad':
            for c in BADCLS:
                for k in ('is_instance_schema', 'is_subclass_schema'):
                    ok = True
                    try:
                        if k == 'is_instance_schema': isinstance('cls', c)
                        else: ok = isinstance(c, type)
                    except TypeError: ok = False
                    try: SchemaValidator(getattr(cs, k)(c)); built = True
                    except SchemaError: built = False
                    ctx.ev('schema', (k, rep(c)))
                    if built != ok: ctx.fail(f'classes: {k}({rep(c)}) built: {built}, valid class argument: {ok}')
            continue
        for c in (CLASSES + GROUPS if kind == 'inst' else CLASSES if kind == 'sub' else [None]):
            for named in (False, True) if kind != 'call' else (False,):
                sch = cs.callable_schema() if kind == 'call' else (cs.is_instance_schema if kind == 'inst' else cs.is_subclass_schema)(c, **({'cls_repr': 'My<Cls>'} if named else {}))
                nm = 'My<Cls>' if named else crepr(c)
                try: s = SchemaValidator(sch)
                except SchemaError as e:
                    ctx.fail(f'classes: {kind} of {rep(c)} does not build', e=e)
                    continue
                for o in objects():
                    if kind == 'inst': w = pyval(isinstance, o, c)
                    elif kind == 'sub': w = pyval(issubclass, o, c) if isinstance(o, type) and type(o) is not types.GenericAlias else ('ok', False)
                    else: w = pyval(callable, o)
                    for strict in (None, True):
                        id_ = f'classes: {kind} {rep(c)} {rep(o)} strict {strict}'
                        try: got = ('ok', s.validate_python(o, strict=strict))
                        except ValidationError as e: got = ('err', e.errors(include_url=False))
                        except Exception as e: got = ('exc', e)
                        ctx.ev(f'{kind} {w}' if w[0] == 'ok' else f'{kind} raises', (kind, rep(c), rep(o), strict, named))
                        if w[0] == 'exc':
                            if isinstance(w[1], ValueError):
                                # a ValueError is not one of a validation function
                                ok = got[0] == 'exc' and type(got[1]) is type(w[1])
                            else: ok = got[0] == 'exc' and type(got[1]) is type(w[1]) and got[1].args == w[1].args
                            if not ok: ctx.fail(id_, got=got, want=w)
                        elif w[1]:
                            if got[0] != 'ok' or got[1] is not o: ctx.fail(id_, got=got, want='the object itself')
                            if kind != 'call' and not named and not s.isinstance_python(o): ctx.fail(id_ + ' isinstance_python')
                        else:
                            t, cx = {'inst': ('is_instance_of', {'class': nm}), 'sub': ('is_subclass_of', {'class': nm}), 'call': ('callable_type', None)}[kind]
                            if got[0] != 'err' or len(got[1]) != 1 or got[1][0]['type'] != t or got[1][0].get('ctx') != cx or got[1][0]['input'] is not o or got[1][0]['loc'] != (): ctx.fail(id_, got=got, want=(t, cx))
                            else:
                                m = {'inst': f'Input should be an instance of {nm}', 'sub': f'Input should be a subclass of {nm}', 'call': 'Input should be callable'}[kind]
                                if got[1][0]['msg'] != m: ctx.fail(id_ + ' message', got=got[1][0]['msg'], want=m)
                for text in ('1', '"a"', 'null', '[]', '{}', 'true', '1.5'):
                    want = {'inst': ('needs_python_object', {'method_name': 'isinstance'}), 'sub': ('needs_python_object', {'method_name': 'issubclass'}), 'call': ('callable_type', None)}[kind]
                    for m in ('json', 'strings'):
                        try:
                            if m == 'json': s.validate_json(text)
                            else: s.validate_strings(text)
                            got = 'accepted'
                        except ValidationError as e:
                            x = e.errors(include_url=False)
                            got = (x[0]['type'], x[0].get('ctx')) if len(x) == 1 and x[0]['loc'] == () else x
                        ctx.ev(f'{kind} from {m}', (kind, rep(c), text, m, named))
                        if got != want: ctx.fail(f'classes: {kind} {rep(c)} from {m} {text}', got=got, want=want)


def explore(ctx):
    set_ctx(ctx)
    classes(ctx)
    groups = itertools.batched(trees(ctx), 40)
    for g in ctx.split(groups):
        for n, full in g: judge(ctx, n, full)
