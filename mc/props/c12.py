"""C12: defaults.  A small interpreter of default / default_factory / validate_default / on_error nodes, nested and wrapped,
put into every position that can hold them, run on absent, undefined, valid, failing, omitting and use-default values; every
case is a history of three validations with the results mutated in between, and no two results may share an unhashable default."""
import copy, itertools, json
from pydantic_core import PydanticOmit, PydanticUseDefault
from mc.lib import *
from mc.zoo import mk

LEVEL = 'model_checking'
RULE = ('default node (16 kinds of default x on_error x validate_default) alone, nested in another one or wrapped, in 13 positions x 7 inputs; each case is a history of '
        'three identical validations with every mutable result changed in between; non-trivial: a default is used')
ASSUME = ['a default is mutable when it is not hashable', 'what on_error=default does with an item the inner schema asks to omit is not judged']
BOUNDS = {'quick': 'one default node in all positions; pairs of nested nodes at the top, in a list and in a model field', 'thorough': 'pairs of nested nodes with all wrappers in all positions'}


class Boom(Exception):
    pass


class FErr(ValueError):
    pass


LOG = []
REFS = itertools.count()


def leaf_fn(v):
    LOG.append(('leaf', canon(v)))
    if isinstance(v, str):
        if v == 'bad':
            raise ValueError('bad')
        if v == 'use':
            raise PydanticUseDefault()
        if v == 'omit':
            raise PydanticOmit()
        if v == 'boom':
            raise Boom()
    if isinstance(v, list):
        return v
    return v


class R:
    def __init__(self, kind, val=None):
        self.kind, self.val = kind, val

    def __repr__(self):
        return f'{self.kind}:{self.val!r}'


class Leaf:
    name = 'leaf'

    def schema(self):
        return cs.no_info_plain_validator_function(leaf_fn)

    def ev(self, x, env):
        env.log.append(('leaf', canon(x)))
        if isinstance(x, str):
            if x == 'bad':
                return R('err', [('value_error', ())])
            if x in ('use', 'omit', 'boom'):
                return R(x)
        return R('ok', x)

    def dv(self, env, loc):
        return None


class Env:
    def __init__(self, data):
        self.log, self.data, self.used = [], data, 0


class CallDefault:
    def __init__(self, w):
        self.w = w


class Uh:
    """mutable: not hashable because it defines __eq__ only"""

    def __init__(self):
        self.items = ['u']

    def __eq__(self, o):
        return self is o

    def __repr__(self):
        return f'Uh({self.items})'


class SubList(list):
    pass


class W:
    """with-default"""

    def __init__(self, inner, dk, on_error, vd):
        self.inner, self.dk, self.oe, self.vd = inner, dk, on_error, vd
        self.name = f'D({dk},{on_error},{vd})[{inner.name}]'
        self.stored = {'val': 'dflt', 'bad': 'bad', 'use': 'use', 'omit': 'omit', 'list': ['l'], 'nest': {'a': ['n']}, 'tup': (['t'], 1), 'ba': bytearray(b'x'), 'obj': Uh(), 'sub': SubList(['s']), 'boomv': 'boom'}.get(dk)

    def schema(self):
        kw = {}
        if self.oe:
            kw['on_error'] = self.oe
        if self.vd:
            kw['validate_default'] = True
        dk = self.dk
        if dk == 'none':
            pass
        elif dk == 'fac':
            def f():
                LOG.append(('factory',))
                return ['f']
            kw['default_factory'] = f
        elif dk == 'facd':
            def f(d):
                LOG.append(('factoryd', canon(dict(d))))
                return ['f']
            kw['default_factory'] = f
            kw['default_factory_takes_data'] = True
        elif dk == 'facerr':
            def f():
                LOG.append(('factory',))
                raise FErr('f')
            kw['default_factory'] = f
        elif dk == 'facbad':
            def f():
                LOG.append(('factory',))
                return 'bad'
            kw['default_factory'] = f
        else:
            self.obj = kw['default'] = copy.deepcopy(self.stored)
        return cs.with_default_schema(self.inner.schema(), **kw)

    def default(self, env, loc):
        dk = self.dk
        env.used += 1
        if dk.startswith('fac'):
            env.log.append(('factoryd', canon(env.data)) if dk == 'facd' else ('factory',))
            if dk == 'facerr':
                return R('ferr')
            d = 'bad' if dk == 'facbad' else ['f']
        else:
            d = self.stored
        if self.vd:
            r = self.inner.ev(d, env)
            if r.kind == 'err':
                if self.oe == 'omit':
                    return R('omit')
                return R('err', [(t, loc + l) for t, l in r.val])
            return r
        return R('ok', d)

    def dv(self, env, loc):
        return None if self.dk == 'none' else self.default(env, loc)

    def ev(self, x, env):
        if self.dk != 'none' and x is UNDEF:
            return self.default(env, ())
        r = self.inner.ev(x, env)
        if r.kind == 'use':
            return self.default(env, ()) if self.dk != 'none' else r
        if r.kind in ('err', 'omit'):
            if self.oe == 'default':
                return R('unjudged') if r.kind == 'omit' else self.default(env, ())
            if self.oe == 'omit':
                return R('omit')
        return r


class Wr:
    def __init__(self, kind, inner):
        self.kind, self.inner = kind, inner
        self.name = f'{kind}[{inner.name}]'

    def schema(self):
        s = self.inner.schema()
        k = self.kind
        if k == 'nullable':
            return cs.nullable_schema(s)
        if k == 'wrap':
            return cs.no_info_wrap_validator_function(lambda v, h: h(v), s)
        if k == 'after':
            return cs.no_info_after_validator_function(lambda v: v, s)
        if k == 'ref':
            s['ref'] = f'R{next(REFS)}'
            return cs.definitions_schema(cs.definition_reference_schema(s['ref']), [s])
        if k == 'chain':
            return cs.chain_schema([s])
        if k == 'reftwice':
            s['ref'] = f'R{next(REFS)}'
            return cs.definitions_schema(cs.definition_reference_schema(s['ref']), [s, cs.list_schema(cs.definition_reference_schema(s['ref']), ref=f'L{next(REFS)}')])

    def ev(self, x, env):
        if self.kind == 'nullable' and x is None:
            return R('ok', None)
        r = self.inner.ev(x, env)
        if self.kind == 'wrap' and r.kind == 'ferr':
            return R('err', [('value_error', ())])  # a ValueError of the factory passes through the function
        return r

    def dv(self, env, loc):
        if self.kind in ('ref', 'reftwice', 'chain'):
            return self.inner.dv(env, loc)
        return None


class Cls(Model):
    pass


# positions: (name, schema builder, put(x or MISS) -> input, takes absent, get result value, reference)
MISS = object()


def pos(name, node):
    """schema, list of (input maker, function from node result to expected)"""
    s = node.schema()
    f1 = lambda: cs.with_default_schema(cs.any_schema(), default=0)
    if name == 'top':
        return s
    if name == 'list':
        return cs.list_schema(s)
    if name == 'list2':
        return cs.list_schema(s)
    if name == 'set':
        return cs.set_schema(cs.no_info_after_validator_function(lambda v: str(v), s))
    if name == 'dictval':
        return cs.dict_schema(cs.str_schema(), s)
    if name == 'tuple':
        return cs.tuple_schema([cs.any_schema(), s])
    if name == 'tuple2':
        return cs.tuple_schema([cs.any_schema(), s, cs.any_schema(), node.schema()], variadic_item_index=2)
    if name == 'td':
        return cs.typed_dict_schema({'a': cs.typed_dict_field(cs.any_schema()), 'f': cs.typed_dict_field(s, required=False if node_default(node) else True)})
    if name == 'tdopt':
        return cs.typed_dict_schema({'a': cs.typed_dict_field(cs.any_schema()), 'f': cs.typed_dict_field(s, required=False)})
    if name == 'mf':
        return cs.model_fields_schema({'a': cs.model_field(cs.any_schema()), 'f': cs.model_field(s, validation_alias='F')})
    if name == 'model':
        return cs.model_schema(Cls, cs.model_fields_schema({'a': cs.model_field(cs.any_schema()), 'f': cs.model_field(s)}))
    if name == 'da':
        return cs.dataclass_args_schema('D', [cs.dataclass_field('a', cs.any_schema()), cs.dataclass_field('f', s)])
    if name == 'args_pos':
        return cs.arguments_schema([cs.arguments_parameter('a', cs.any_schema()), cs.arguments_parameter('f', s)])
    if name == 'args_kw':
        return cs.arguments_schema([cs.arguments_parameter('a', cs.any_schema()), cs.arguments_parameter('f', s, mode='keyword_only')])
    if name == 'args3':
        return cs.arguments_v3_schema([cs.arguments_v3_parameter('a', cs.any_schema()), cs.arguments_v3_parameter('f', s)])


POS = ['top', 'list', 'list2', 'dictval', 'tuple', 'tuple2', 'td', 'tdopt', 'mf', 'model', 'da', 'args_pos', 'args_kw', 'args3']
ABSENT = {'tuple', 'tuple2', 'td', 'tdopt', 'mf', 'model', 'da', 'args_pos', 'args_kw', 'args3'}


def node_default(node):
    if isinstance(node, W):
        return True
    return isinstance(node, Wr) and node.kind in ('ref', 'reftwice') and node_default(node.inner)


def uncaught(e):
    """nothing caught the request to omit / use the default: reported with a SchemaError"""
    for what, kind in (('Uncaught UseDefault', 'use'), ('Uncaught Omit', 'omit')):
        if str(e).startswith(what):
            return (kind,)
    return ('exc', 'SchemaError', str(e))


def run(v, name, x):
    """one validation: ('ok', [values of the position], whole) etc."""
    M = x is MISS
    try:
        if name == 'top':
            return ('ok', [v.validate_python(x)], None)
        if name == 'list':
            r = v.validate_python([x])
            return ('ok', r, canon(r))
        if name == 'list2':
            r = v.validate_python(['A', x, x])
            return ('ok', r[1:], len(r)) if r[:1] == ['A'] else ('ok', r, len(r))
        if name == 'dictval':
            r = v.validate_python({'k': x})
            return ('ok', list(r.values()), None)
        if name == 'tuple':
            r = v.validate_python((1,) if M else (1, x))
            return ('ok', list(r[1:]), None)
        if name == 'tuple2':
            r = v.validate_python((1,) if M else (1, x, x))
            return ('ok', list(r[1:]), None)
        if name in ('td', 'tdopt'):
            r = v.validate_python({'a': 1} if M else {'a': 1, 'f': x})
            return ('ok', [r['f']] if 'f' in r else [], None)
        if name == 'mf':
            r, ex, fs = v.validate_python({'a': 1} if M else {'a': 1, 'F': x})
            return ('ok', [r['f']] if 'f' in r else [], tuple(sorted(fs)))
        if name == 'model':
            r = v.validate_python({'a': 1} if M else {'a': 1, 'f': x})
            return ('ok', [r.f] if hasattr(r, 'f') else [], tuple(sorted(r.__pydantic_fields_set__)))
        if name == 'da':
            r, _ = v.validate_python({'a': 1} if M else {'a': 1, 'f': x})
            return ('ok', [r['f']] if 'f' in r else [], None)
        if name == 'args_pos':
            a, k = v.validate_python(ArgsKwargs((1,) if M else (1, x)))
            return ('ok', list(a[1:]) + ([k['f']] if 'f' in k else []), None)
        if name == 'args_kw':
            a, k = v.validate_python(ArgsKwargs((1,), {} if M else {'f': x}))
            return ('ok', [k['f']] if 'f' in k else [], None)
        if name == 'args3':
            a, k = v.validate_python({'a': 1} if M else {'a': 1, 'f': x})
            return ('ok', list(a[1:]) + ([k['f']] if 'f' in k else []), None)
    except ValidationError as e:
        return ('err', errs(e))
    except FErr:
        return ('ferr',)
    except Boom:
        return ('boom',)
    except (PydanticUseDefault, PydanticOmit) as e:
        return ('use' if isinstance(e, PydanticUseDefault) else 'omit',)
    except SchemaError as e:
        return uncaught(e)
    except Exception as e:
        guard(e, (name, x))
        return ('exc', type(e).__name__, str(e))


LOCS = {'top': (), 'list': (0,), 'dictval': ('k',), 'tuple': (1,), 'td': ('f',), 'tdopt': ('f',), 'mf': ('F',), 'model': ('f',), 'da': ('f',), 'args_pos': (1,), 'args_kw': ('f',), 'args3': ('f',)}


def reference(node, name, x):
    """expected ('ok', [values]) ... and the log"""
    data = {'a': 1} if name in ('td', 'tdopt', 'mf', 'model', 'da') else {}
    env = Env(data)
    if name == 'list2':
        out, er = [], []
        env.log.append(('leaf', canon('A')))
        for i in (1, 2):
            r = node.ev(x, env)
            if r.kind == 'ok':
                out.append(r.val)
            elif r.kind == 'err':
                er += [(t, (i,) + l) for t, l in r.val]
            elif r.kind == 'omit':
                pass
            else:
                return (r.kind,), env
        return (('err', tuple(er)) if er else ('ok', out)), env
    if name == 'tuple2':
        out, er = [], []
        for i in (1, 2):
            r = node.dv(env, (i,)) if x is MISS else node.ev(x, env)
            if r is None:
                er.append(('missing', (i,)))
            elif r.kind == 'ok':
                out.append(r.val)
            elif r.kind == 'err':
                er += r.val if x is MISS else [(t, (i,) + l) for t, l in r.val]
            elif r.kind != 'omit':
                return (r.kind,), env
        return (('err', tuple(er)) if er else ('ok', out)), env
    loc = LOCS[name]
    if x is MISS:
        nm = 'f' if name != 'tuple' else 1
        r = node.dv(env, (nm,))
        if r is None:
            if name == 'tdopt' or name == 'td' and node_default(node):
                return ('ok', []), env
            et = {'args_pos': 'missing_argument', 'args_kw': 'missing_keyword_only_argument', 'args3': 'missing_argument'}.get(name, 'missing')
            return ('err', ((et, ('f',) if name == 'args_pos' else loc),)), env
        if r.kind == 'err':
            return ('err', tuple((t, (('f',) if name == 'args_pos' else l)) for t, l in r.val)), env
    else:
        r = node.ev(x, env)
        if r.kind == 'err':
            return ('err', tuple((t, loc + l) for t, l in r.val)), env
    if r.kind == 'ok':
        return ('ok', [r.val]), env
    if r.kind == 'omit':
        if name in ('list', 'dictval', 'td', 'tdopt', 'mf', 'model', 'tuple') or name == 'da' and x is MISS:
            return ('ok', []), env
        return ('unjudged',), env
    return (r.kind,), env


def mutate(x):
    if isinstance(x, list):
        x.append('mutated')
        for i in x:
            mutate(i)
    elif isinstance(x, dict):
        for i in list(x.values()):
            mutate(i)
        x['mutated'] = 1
    elif isinstance(x, tuple):
        for i in x:
            mutate(i)
    elif isinstance(x, bytearray):
        x += b'mutated'
    elif isinstance(x, Uh):
        mutate(x.items)


def mutables(x):
    if isinstance(x, tuple):
        for i in x:
            yield from mutables(i)
    if isinstance(x, bytearray):
        yield id(x)
    if isinstance(x, Uh):
        yield id(x)
        yield from mutables(x.items)
    if isinstance(x, (list, dict)):
        yield id(x)
        for i in (x.values() if isinstance(x, dict) else x):
            yield from mutables(i)


INPUTS = [MISS, UNDEF, 'good', 'bad', 'use', 'omit', 'boom', None]


def case(ctx, node, name):
    try:
        v = SchemaValidator(pos(name, node))
    except SchemaError as e:
        if 'omit_on_error cannot be used' in str(e) and name in ('da', 'args_pos', 'args_kw', 'args3'):
            return
        if name == 'td' and ('required field' in str(e)):
            return
        ctx.fail(f'build {node.name} {name}', err=str(e))
        return
    keep = []
    seen = set()
    for x in INPUTS:
        if x is MISS and name not in ABSENT:
            continue
        if x is UNDEF and name in ('args_pos', 'args_kw', 'args3') and False:
            continue
        key = f'{node.name} in {name} <- {"MISS" if x is MISS else x!r}'
        want, env = reference(node, name, x)
        if want[0] in ('unjudged',):
            continue
        for rnd in range(3):
            LOG.clear()
            got = run(v, name, x)
            log = list(LOG)
            ctx.step()
            if name == 'list2' or name in ('td', 'tdopt', 'mf', 'model', 'da', 'tuple', 'args_pos', 'args_kw', 'args3', 'top', 'list', 'dictval'):
                pass
            if want[0] == 'ok':
                ok = got[0] == 'ok' and canon(got[1]) == canon(want[1])
                if ok and name in ('mf', 'model'):
                    fset = ('a',) if x is MISS or not want[1] else ('a', 'f')
                    ok = got[2] == fset
            else:
                ok = got[:2] == want[:2]
            if not ok:
                ctx.fail(key + f' round {rnd}', got=got, want=want)
                break
            if log != env.log:
                ctx.fail(key + f' round {rnd} calls', got=log, want=env.log)
                break
            if got[0] == 'ok':
                ids = [i for r in got[1] for i in mutables(r)]
                ctx.check(len(set(ids)) == len(ids) and not (set(ids) & seen), key + ' shared mutable default')
                seen.update(ids)
                keep.append(got)
                for r in got[1]:
                    mutate(r)
            ctx.state((node.name, name, repr(x) if x is not MISS else 'M', want[0], env.used))
        ctx.ev(f'{want[0]}-{"default" if env.used else "plain"}', key if env.used else None, 3)
        ctx.trace_done()
    if name == 'top':
        # get_default_value
        from pydantic_core import Some
        for rnd in range(3):
            env = Env({})
            r = node.dv(env, ())
            if r is not None and r.kind == 'unjudged':
                break
            LOG.clear()
            try:
                g = v.get_default_value()
                got = ('ok', g.value) if g is not None else ('none',)
            except ValidationError as e:
                got = ('err', list(errs(e)))
            except FErr:
                got = ('ferr',)
            except Boom:
                got = ('boom',)
            except (PydanticUseDefault, PydanticOmit) as e:
                got = ('use' if isinstance(e, PydanticUseDefault) else 'omit',)
            except SchemaError as e:
                got = uncaught(e)
            except Exception as e:
                guard(e, node.name)
                got = ('exc', repr(e))
            if r is None:
                ok = got == ('none',)
            elif r.kind == 'ok':
                ok = got[0] == 'ok' and canon(got[1]) == canon(r.val)
            elif r.kind == 'err':
                ok = got == ('err', r.val)
            elif r.kind in ('omit', 'use'):
                ok = got[0] not in ('ok', 'none')
            else:
                ok = got[0] == r.kind
            ctx.check(ok and LOG == env.log, f'get_default_value {node.name}', got=got, want=r, log=LOG)
            if got[0] == 'ok':
                mutate(got[1])
            ctx.ev('gdv', f'gdv {node.name}')


DK = ['none', 'val', 'bad', 'use', 'omit', 'list', 'nest', 'tup', 'ba', 'obj', 'sub', 'fac', 'facd', 'facerr', 'facbad', 'boomv']


def nodes(inner, dks=DK):
    for dk, oe, vd in itertools.product(dks, (None, 'raise', 'omit', 'default'), (False, True)):
        if dk == 'none' and (oe == 'default' or vd):
            continue
        if vd is False and dk in ('use', 'omit', 'boomv'):
            continue
        yield W(inner, dk, oe, vd)


def explore(ctx):
    q = ctx.quick
    wraps = [None, 'nullable', 'wrap', 'after', 'ref', 'reftwice', 'chain']
    for w1, w2 in ctx.split(itertools.product(wraps, wraps)):
        inner = Leaf() if w1 is None else Wr(w1, Leaf())
        for n in nodes(inner):
            node = n if w2 is None else Wr(w2, n)
            for name in POS:
                case(ctx, node, name)
        ctx.sample(w1, w2, 'default node x positions')
    dk2 = DK if not q else ['none', 'val', 'bad', 'list', 'facd', 'facerr', 'use']
    for n1, w in ctx.split(list(itertools.product(nodes(Leaf(), dk2), wraps if not q else (None, 'nullable', 'ref', 'wrap')))):
        mid = n1 if w is None else Wr(w, n1)
        for n2 in nodes(mid, dk2):
            for name in (POS if not q else ('top', 'list2', 'model', 'td', 'tuple')):
                case(ctx, n2, name)
