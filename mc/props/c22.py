"""C22: function serializers.  Exhaustive product of serializer kind x when_used x info x return schema x inner schema x what the function does x value x
surrounding schema x route, against direct calls of the same function in Python with serializers of the parts as handler and return serializer; plus trees of
models whose field serializers record what they were given, and all combinations of flags as seen by info."""
import functools, itertools, json
from pydantic_core import PydanticOmit, PydanticSerializationUnexpectedValue
from mc.lib import *

LEVEL = 'exploration'
RULE = ('serializer kind (plain, wrap, format, to-string) x when_used x info x field serializer x return schema x inner schema x behaviour of the function x value x context '
        '(root, list, tuple, set, dict value, dict key, nullable, default, definition, model/dataclass/typed-dict field, field of list, extras, computed field, root model, whole model) x route; every call is recorded '
        '(how many, arguments, info) and compared with the reference; non-trivial: the function is called')
ASSUME = ['serializers inside unions may be called for branches which are then rejected (see C21)', 'BaseExceptions other than Exceptions are not judged']
BOUNDS = {'quick': '5 when_used x 17 contexts x 20 behaviours x 7 values x 4 routes; 3 x 2^5 flag sets; all model trees of up to 4 nodes', 'thorough': 'pairs of nested serializers, model trees of up to 6 nodes'}

WHEN = [None, 'always', 'unless-none', 'json', 'json-unless-none']
ROUTES = ['python', 'json', 'to_json', 'custom']
ANY = cs.any_schema()


class Obj:
    def __repr__(self):
        return 'Obj()'


class BadText(Exception):
    def __str__(self):
        raise RuntimeError('no')


def used(when, v, js):
    return {None: True, 'always': True, 'unless-none': v is not None, 'json': js, 'json-unless-none': js and v is not None}[when]


def boom(e):
    raise e


# what the function does with (value, handler); plain functions have no handler
PLAIN = {
    'same': lambda v, h: v,
    'const': lambda v, h: 'const',
    'none': lambda v, h: None,
    'list': lambda v, h: [v, 'x'],
    'wrapped': lambda v, h: {'a': v},
    'int': lambda v, h: 7,
    'object': lambda v, h: Obj(),
    'bytes': lambda v, h: b'by',
    'ValueError': lambda v, h: boom(ValueError('boom')),
    'KeyError': lambda v, h: boom(KeyError('k')),
    'Omit': lambda v, h: boom(PydanticOmit()),
    'SerError': lambda v, h: boom(PydanticSerializationError('ser error')),
    'Unexpected': lambda v, h: boom(PydanticSerializationUnexpectedValue('unexpected!')),
    'Recursion': lambda v, h: boom(RecursionError('deep')),
    'BadText': lambda v, h: boom(BadText()),
}


def items(v, h):
    out = []
    for i, x in enumerate(v if isinstance(v, list) else [v]):
        try:
            out.append(h(x, i))
        except PydanticOmit:
            out.append('omitted')
    return out


def h_err(v, h):
    try:
        return h(v)
    except PydanticSerializationError:
        return 'handled'


WRAP = {
    'h': lambda v, h: h(v),
    'hlist': lambda v, h: [h(v)],
    'h2': lambda v, h: [h(v), h(v)],
    'hother': lambda v, h: h('other'),
    'hnone': lambda v, h: h(None),
    'hobj': lambda v, h: h(Obj()),
    'hcatch': lambda v, h: h_err(Obj(), h),
    'items': items,
}
WRAP.update(PLAIN)

INNER = {
    'any': lambda: cs.any_schema(),
    'int': lambda: cs.int_schema(),
    'list-int': lambda: cs.list_schema(cs.int_schema()),
    'nullable-str': lambda: cs.nullable_schema(cs.str_schema()),
}
RETS = {'none': None, 'str': cs.str_schema, 'any': cs.any_schema, 'list-bytes': lambda: cs.list_schema(cs.bytes_schema())}
VALUES = [None, 1, 'x', [1, 2], b'b', {'k': 1}, True]


class M(Model):
    pass


class RM(Model):
    pass


@dataclasses.dataclass
class D:
    f: object
    g: object = 0


def mkm(cls, d, extra=None):
    m = cls()
    m.__dict__.update(d)
    object.__setattr__(m, '__pydantic_fields_set__', set(d))
    object.__setattr__(m, '__pydantic_extra__', extra)
    object.__setattr__(m, '__pydantic_private__', None)
    return m


HASHABLE = lambda v: not isinstance(v, (list, dict))
# name -> (schema of leaf, value of v, python form of r, field name or None, condition on v, calls expected)
CTX = {
    'root': (lambda s: s, lambda v: v, lambda r: r, None, None),
    'list': (lambda s: cs.list_schema(s), lambda v: [v], lambda r: [r], None, None),
    'tuple': (lambda s: cs.tuple_schema([cs.any_schema(), s]), lambda v: (0, v), lambda r: (0, r), None, None),
    'tuple*': (lambda s: cs.tuple_schema([s], variadic_item_index=0), lambda v: (v,), lambda r: (r,), None, None),
    'dict': (lambda s: cs.dict_schema(cs.str_schema(), s), lambda v: {'k': v}, lambda r: {'k': r}, None, None),
    'default': (lambda s: cs.with_default_schema(s, default=1), lambda v: v, lambda r: r, None, None),
    'def': (lambda s: cs.definitions_schema(cs.list_schema(cs.definition_reference_schema('s')), [dict(s, ref='s')]), lambda v: [v], lambda r: [r], None, None),
    'before': (lambda s: cs.no_info_before_validator_function(lambda v: v, s), lambda v: v, lambda r: r, None, None),
    'generator': (lambda s: cs.list_schema(cs.generator_schema(s)), lambda v: [iter([v])], lambda r: [[r]], None, None),
    'model': (lambda s: cs.model_schema(M, cs.model_fields_schema({'f': cs.model_field(s), 'g': cs.model_field(cs.any_schema())})),
              lambda v: mkm(M, {'f': v, 'g': 0}), lambda r: {'f': r, 'g': 0}, 'f', None),
    'model-alias': (lambda s: cs.model_schema(M, cs.model_fields_schema({'f': cs.model_field(s, serialization_alias='al')}), config={'serialize_by_alias': True}),
                    lambda v: mkm(M, {'f': v}), lambda r: {'al': r}, 'f', None),
    'model-list': (lambda s: cs.model_schema(M, cs.model_fields_schema({'f': cs.model_field(cs.list_schema(s))})),
                   lambda v: mkm(M, {'f': [v]}), lambda r: {'f': [r]}, 'f', None),
    'dc': (lambda s: cs.dataclass_schema(D, cs.dataclass_args_schema('D', [cs.dataclass_field('f', s), cs.dataclass_field('g', cs.any_schema())]), ['f', 'g']),
           lambda v: D(v), lambda r: {'f': r, 'g': 0}, 'f', None),
    'td': (lambda s: cs.typed_dict_schema({'f': cs.typed_dict_field(s), 'g': cs.typed_dict_field(cs.any_schema())}), lambda v: {'f': v, 'g': 0}, lambda r: {'f': r, 'g': 0}, 'f', None),
    'rootmodel': (lambda s: cs.model_schema(RM, s, root_model=True), lambda v: mkm(RM, {'root': v}), lambda r: r, 'root', None),
    'extras': (lambda s: cs.model_schema(M, cs.model_fields_schema({'g': cs.model_field(cs.any_schema())}, extras_schema=s, extra_behavior='allow'), extra_behavior='allow'),
               lambda v: mkm(M, {'g': 0}, {'e': v}), lambda r: {'g': 0, 'e': r}, None, None),
    'key': (lambda s: cs.dict_schema(s, cs.any_schema()), lambda v: {v: 1}, lambda r: {r: 1}, None, HASHABLE),
    'set': (lambda s: cs.set_schema(s), lambda v: {v}, None, None, HASHABLE),
    'nested-list': (lambda s: cs.model_schema(M, cs.model_fields_schema({'f': cs.model_field(cs.dict_schema(cs.str_schema(), cs.list_schema(s)))})),
                    lambda v: mkm(M, {'f': {'k': [v]}}), lambda r: {'f': {'k': [r]}}, 'f', None),
}


@functools.lru_cache(maxsize=None)
def part(kind, name):
    mk = INNER[name] if kind == 'i' else RETS[name]
    return SchemaSerializer(mk() if mk else ANY)


@functools.lru_cache(maxsize=None)
def keypart(kind, name):
    mk = INNER[name] if kind == 'i' else RETS[name]
    return SchemaSerializer(cs.dict_schema(mk() if mk else ANY, ANY))


def mkfn(kind, behave, info, field, log):
    def f(*a):
        a = list(a)
        m = a.pop(0) if field else None
        v = a.pop(0)
        h = a.pop(0) if kind == 'wrap' else None
        i = a.pop(0) if info else None
        if a:
            raise TypeError('too many arguments')
        log.append((m, v, i and snap(i)))
        return behave(v, h)
    f.__name__ = 'fn'
    return f


def snap(i):
    try:
        fname = i.field_name
    except AttributeError:
        fname = None
    d, flags = i.__dict__, ('by_alias', 'exclude_unset', 'exclude_defaults', 'exclude_none', 'round_trip', 'serialize_as_any')
    want = {k: getattr(i, k) for k in ('include', 'exclude', 'context') if getattr(i, k) is not None} | {'mode': str(i.mode)} | {k: getattr(i, k) for k in flags}
    text = f'SerializationInfo(include={i.include!r}, exclude={i.exclude!r}, context={i.context!r}, mode=\'{i.mode}\', ' + ', '.join(f'{k}={bool(getattr(i, k))}' for k in flags) + ')'
    if list(d) != list(want) or any(d[k] != want[k] for k in d) or repr(i) != text or str(i) != text:
        return ('__dict__ or representation', d, repr(i), text)
    return dict(include=i.include, exclude=i.exclude, context=i.context, mode=str(i.mode), by_alias=i.by_alias, exclude_unset=i.exclude_unset, exclude_defaults=i.exclude_defaults,
                exclude_none=i.exclude_none, round_trip=i.round_trip, serialize_as_any=i.serialize_as_any, field_name=fname, mj=i.mode_is_json())


class Handler:
    """The reference handler: serializes as the inner schema would, reporting its warnings at once."""

    def __init__(self, inner, mode, kw=None):
        self.s, self.mode, self.kw = part('i', inner), mode, kw or {}

    def __call__(self, v, key=None):
        return self.s.to_python(v, mode=self.mode, **self.kw)


def on_error(e):
    if isinstance(e, PydanticSerializationError):
        return str(e)
    if isinstance(e, RecursionError):
        return 'Error calling function `fn`: RecursionError'
    try:
        return f'Error calling function `fn`: {type(e).__name__}: {e}'
    except Exception:
        return f'Error calling function `fn`: {type(e).__name__}: <exception str() failed>'


def ref_leaf(kind, when, behave, ret, inner, v, js, mode, key, route):
    """('ok', python value or JSON text) / ('err', text), called"""
    if not used(when, v, js):
        p = ('i', inner)
        x, called = v, False
    else:
        called = True
        try:
            x = behave(v, Handler(inner, mode) if kind == 'wrap' else None)
            p = ('r', ret)
        except PydanticSerializationUnexpectedValue as e:
            warnings.warn(f'Pydantic serializer warnings:\n  PydanticSerializationUnexpectedValue({e})')
            x, p = v, ('r', 'any')
        except Exception as e:
            return ('err', on_error(e)), called
    try:
        if key:
            s = keypart(*p)
            if route == 'to_json':
                return ('ok', json.loads(s.to_json({x: 1}))), called
            return ('ok', s.to_python({x: 1}, mode=mode)), called
        s = part(*p)
        if route == 'to_json':
            return ('ok', json.loads(s.to_json(x))), called
        return ('ok', s.to_python(x, mode=mode)), called
    except PydanticSerializationError as e:
        return ('err', str(e)), called
    except TypeError as e:
        return ('err', f'{type(e).__name__}: {e}'), called


def norm_err(s):
    s = s.replace('PydanticSerializationError: ', '').replace('TypeError: ', '')
    return s.removeprefix('Error serializing to JSON: ')


def norm_warn(ws):
    out = []
    for w in ws:
        out += [x.strip() for x in str(w.message).split('\n')[1:]]
    return out


def leaf(kind, when, behave, ret, inner, info, field, log):
    fn = mkfn(kind, behave, info, field, log)
    kw = {}
    if when:
        kw['when_used'] = when
    if RETS[ret]:
        kw['return_schema'] = RETS[ret]()
    mk = cs.plain_serializer_function_ser_schema if kind == 'plain' else cs.wrap_serializer_function_ser_schema
    return dict(INNER[inner](), serialization=mk(fn, is_field_serializer=field, info_arg=info, **kw))


def run(s, val, route, **kw):
    """('ok', value) | ('err', text)"""
    try:
        if route == 'to_json':
            t = s.to_json(val, **kw)
            return ('ok', json.loads(t))
        return ('ok', s.to_python(val, mode=route, **kw))
    except PydanticSerializationError as e:
        return ('err', str(e))
    except TypeError as e:
        return ('err', f'TypeError: {e}')
    except BaseException as e:
        guard(e, (val, route))
        return ('exc', type(e).__name__, str(e))


def main(ctx):
    behs = {'plain': PLAIN, 'wrap': WRAP}
    for kind, cname, when in ctx.split(itertools.product(behs, CTX, WHEN)):
        mks, mkv, comp, fname, cond = CTX[cname]
        ctx.sample(kind, cname, when)
        for bname, behave in behs[kind].items():
            for inner, ret in itertools.product(INNER, RETS):
                if ctx.quick and inner != 'any' and ret != 'none' and bname not in ('same', 'h', 'list', 'none', 'items', 'hother'):
                    continue
                for info in (False, True):
                    for field in ((False, True) if fname else (False,)):
                        log = []
                        s = SchemaSerializer(mks(leaf(kind, when, behave, ret, inner, info, field, log)))
                        for v in VALUES:
                            if cond and not cond(v):
                                continue
                            whole = mkv(v)
                            for route in ROUTES:
                                if cname == 'generator':  # lazily serialized in python mode, see C15
                                    if route in ('python', 'custom'):
                                        continue
                                    whole = mkv(v)
                                one(ctx, s, log, kind, cname, when, bname, behave, ret, inner, info, field, v, whole, route, comp, fname)


def one(ctx, s, log, kind, cname, when, bname, behave, ret, inner, info, field, v, whole, route, comp, fname):
    js = route in ('json', 'to_json')
    mode = 'json' if js else route
    key = cname == 'key'
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        want, called = ref_leaf(kind, when, behave, ret, inner, v, js, mode, key, route)
    want_w = norm_warn(w)
    if want[0] == 'ok':
        r = want[1]
        if cname == 'set' and not js:
            try:
                want = ('ok', {r})
            except TypeError:
                want = ('err', None)
        elif cname == 'set':
            want = ('ok', [r])
        elif cname == 'key':
            pass
        else:
            want = ('ok', comp(r))
        if js and want[0] == 'ok':
            want = ('ok', jsonify(want[1]))
    del log[:]
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        got = run(s, whole, route)
    got_w = norm_warn(w)
    ctx.step()
    desc = dict(kind=kind, context=cname, when=when, behaviour=bname, ret=ret, inner=inner, info=info, field=field, value=v, route=route)
    ctx.ev(got[0], (kind, cname, when, bname, ret, inner, route, rep(v)) if called else None)
    ctx.check(len(log) == called, f'calls: {kind} {cname} {when} {bname} {route}', calls=len(log), **desc)
    if want[0] == 'ok':
        ok = got[0] == 'ok' and canon(unobj(got[1])) == canon(unobj(want[1]))
    elif want[1] is None or key and 'unhashable' in want[1]:
        ok = got[0] == 'err'
    else:
        ok = got[0] == 'err' and norm_err(got[1]) == norm_err(want[1])
    ctx.check(ok, f'result: {kind} {cname} {when} {bname} {ret} {inner} {route}', want=want, got=got, **desc)
    if got[0] == 'ok':
        ctx.check(got_w == want_w, f'warnings: {kind} {cname} {when} {bname} {ret} {inner} {route}', want=want_w, got=got_w, **desc)
    for m, x, i in log:
        ctx.check(x is v or (x == v and type(x) is type(v) and not isinstance(v, (list, dict))), f'argument: {kind} {cname}', got=x, **desc)
        if field:
            ctx.check(m is whole, f'model argument: {kind} {cname}', got=m, **desc)
        if info:
            ctx.check(i['mode'] == mode and i['mj'] == js and i['field_name'] == (fname if field else None), f'info: {kind} {cname} {route}', got=i, **desc)


def unobj(x):
    return x


def jsonify(x):
    """tuples are lists in JSON"""
    if isinstance(x, (list, tuple)):
        return [jsonify(i) for i in x]
    if isinstance(x, dict):
        return {k: jsonify(i) for k, i in x.items()}
    return x


# ---- serializers within serializers ------------------------------------------------------------
def pairs(ctx):
    """a wrap serializer around another function serializer (and a third), or returning what another one serializes"""
    B1 = ['h', 'same', 'hlist', 'h2', 'const', 'none', 'hother', 'hnone', 'ValueError', 'SerError', 'Unexpected', 'hcatch']
    B2 = {'wrap': ['h', 'same', 'list', 'none', 'ValueError', 'Unexpected', 'object'], 'plain': ['same', 'list', 'none', 'ValueError', 'Unexpected', 'object']}
    LEAF3 = ['any', 'plain-int']

    for w1, w2, k2, cname in ctx.split(itertools.product(WHEN[1:], WHEN[1:], B2, ['root', 'model', 'list'] if ctx.quick else ['root', 'model', 'list', 'dict', 'dc', 'td', 'tuple', 'default', 'extras'])):
        mks, mkv, comp, fname, cond = CTX[cname]
        for b1, b2, l3, pos in itertools.product(B1, B2[k2], LEAF3, ('schema', 'return')):
            log1, log2, log3 = [], [], []

            def third():
                return cs.any_schema() if l3 == 'any' else leaf('plain', 'json-unless-none', PLAIN['int'], 'none', 'any', False, False, log3)
            second = leaf(k2, w2, WRAP[b2], 'none', 'any', False, False, log2)
            if k2 == 'wrap':
                second['serialization']['schema'] = third()
            first = leaf('wrap', w1, WRAP[b1], 'none', 'any', False, False, log1)
            first['serialization']['schema' if pos == 'schema' else 'return_schema'] = second
            s = SchemaSerializer(mks(first))

            def r3(v, route, n):
                js = route in ('json', 'to_json')
                if l3 == 'plain-int' and js and v is not None:
                    n[2] += 1
                    v = 7
                return fin('r', 'none', v, route)

            def r2(v, route, n):
                js = route in ('json', 'to_json')
                m = 'json' if js else route
                if not used(w2, v, js):
                    return r3(v, route, n) if k2 == 'wrap' else fin('i', 'any', v, route)
                n[1] += 1
                return ret(lambda: WRAP[b2](v, lambda x, i=None: r3(x, m, n)), v, route)

            def r1(v, route, n):
                js = route in ('json', 'to_json')
                m = 'json' if js else route
                h = (lambda x, i=None: r2(x, m, n)) if pos == 'schema' else (lambda x, i=None: fin('i', 'any', x, m))
                if not used(w1, v, js):
                    return r2(v, route, n) if pos == 'schema' else fin('i', 'any', v, route)
                n[0] += 1
                return ret(lambda: WRAP[b1](v, h), v, route, (lambda x: r2(x, route, n)) if pos == 'return' else None)

            for v in (None, 1, 'x', [1, None]):
                whole = mkv(v)
                for route in ROUTES:
                    n = [0, 0, 0]
                    try:
                        want = ('ok', comp(r1(v, route, n)))
                        if route in ('json', 'to_json'):
                            want = ('ok', jsonify(want[1]))
                    except PydanticSerializationError as e:
                        want = ('err', str(e))
                    del log1[:], log2[:], log3[:]
                    with warnings.catch_warnings():
                        warnings.simplefilter('ignore')
                        got = run(s, whole, route)
                    ctx.step()
                    ctx.ev(got[0], (w1, w2, k2, cname, b1, b2, l3, pos, rep(v), route) if n[0] and n[1] else None)
                    desc = dict(when=(w1, w2), behaviours=(b1, b2), third=l3, pos=pos, value=v, route=route, context=cname)
                    ok = canon(got) == canon(want) if want[0] == 'ok' else got[0] == 'err' and norm_err(got[1]) == norm_err(want[1])
                    ctx.check(ok, f'nested serializers: {k2} {b1} {b2} {pos} {route}', got=got, want=want, **desc)
                    c = [len(log1), len(log2), len(log3)]
                    ctx.check(c == n, f'nested serializers calls: {k2} {b1} {b2} {pos} {route}', got=c, want=n, **desc)


def fin(kind, name, v, route):
    if route == 'to_json':
        return json.loads(part(kind, name).to_json(v))
    return part(kind, name).to_python(v, mode=route)


def ret(call, v, route, then=None):
    try:
        x = call()
    except PydanticSerializationUnexpectedValue:
        return fin('r', 'any', v, route)
    except Exception as e:
        raise PydanticSerializationError(on_error(e))
    return then(x) if then else fin('r', 'none', x, route)


# ---- info -----------------------------------------------------------------------------------
FLAGS = ['exclude_unset', 'exclude_defaults', 'exclude_none', 'round_trip', 'serialize_as_any']


def flags(ctx):
    """every combination of flags x context, as info shows them, at the root, in a list, in a field and in handlers' nested calls"""
    CONTEXTS = [None, {'c': 1}, 'text']
    for kind, cname in ctx.split(itertools.product(['plain', 'wrap'], CTX)):
        mks, mkv, comp, fname, cond = CTX[cname]
        log = []
        behave = (lambda v, h: h(v)) if kind == 'wrap' else (lambda v, h: v)
        inner_log = []
        fields = (False, True) if fname else (False,)
        for field, inner_field in itertools.product(fields, fields if kind == 'wrap' else (False,)):
            lf = leaf(kind, None, behave, 'none', 'any', True, field, log)
            if kind == 'wrap':
                # the handler's serializer is a function serializer as well: it must see the same settings
                lf['serialization']['schema'] = leaf('plain', None, lambda v, h: v, 'none', 'any', True, inner_field, inner_log)
            forget()
            s = SchemaSerializer(mks(lf))
            # with serialize_as_any a model is serialized as its own class says
            M.__pydantic_serializer__ = D.__pydantic_serializer__ = RM.__pydantic_serializer__ = s
            M.__pydantic_complete__ = D.__pydantic_complete__ = RM.__pydantic_complete__ = True
            v = 1
            for bits in itertools.product([False, True], repeat=5):
                fl = dict(zip(FLAGS, bits))
                if cname == 'td' and fl['serialize_as_any']:  # then inferred, see C19
                    continue
                for by_alias in (None, False, True):
                    for c in CONTEXTS:
                        for route in ROUTES:
                            if cname == 'generator' and route in ('python', 'custom'):
                                continue
                            whole = mkv(v)
                            del log[:], inner_log[:]
                            kw = dict(fl)
                            if by_alias is not None:
                                kw['by_alias'] = by_alias
                            if c is not None:
                                kw['context'] = c
                            got = run(s, whole, route, **kw)
                            ctx.step()
                            ctx.ev(got[0], (kind, cname, bits, by_alias, rep(c), route))
                            want = dict(fl, by_alias=by_alias, context=c, mode='json' if route == 'to_json' else route, mj=route in ('json', 'to_json'), include=None, exclude=None, field_name=fname if field else None)
                            ctx.check(len(log) == 1 and log[0][2] == want, f'flags: {kind} {cname} {route}', flags=kw, got=log and log[0][2], want=want, n=len(log))
                            if c is not None and log:
                                ctx.check(log[0][2]['context'] is c, f'context identity: {kind} {cname}', got=log[0][2])
                            if kind == 'wrap' and cname != 'key':
                                want = dict(want, field_name=fname if inner_field else None)
                                ctx.check(len(inner_log) == 1 and inner_log[0][2] == want, f'flags inside the handler: {cname} {route}', flags=kw, got=inner_log and inner_log[0][2], want=want)
                                if inner_field and inner_log:
                                    ctx.check(inner_log[0][0] is whole, f'model argument inside the handler: {cname} {route}', got=inner_log[0][0])
        forget()


def forget():
    for c in (M, D, RM):
        for a in ('__pydantic_serializer__', '__pydantic_complete__'):
            if a in c.__dict__:
                delattr(c, a)


def filters(ctx):
    """info.include / info.exclude are the part of the filter below this value; the handler applies them; so does the serializer when the function is not used"""
    nested = {'a': 1, 'b': [1, 2], 'c': {'d': 4}}
    SUBS = [None, {'a'}, {'b': {0}}, {'a', 'c'}, {'c': {'d'}}, {'b': True}, {'zz'}, {'b': {'__all__'}}]
    plain = SchemaSerializer(cs.any_schema())
    for kind, cname in ctx.split(itertools.product(['plain', 'wrap'], ['root', 'list', 'dict', 'tuple', 'model', 'dc', 'td', 'default', 'model-list', 'def', 'model-alias'])):
        mks, mkv, comp, fname, cond = CTX[cname]
        up = {'root': lambda f: f, 'default': lambda f: f, 'list': lambda f: {0: f}, 'def': lambda f: {'__all__': f}, 'dict': lambda f: {'k': f}, 'tuple': lambda f: {1: f}, 'model-list': lambda f: {'f': {0: f}}}.get(cname, lambda f: {'f': f})
        for when in WHEN:
            for iskind in ('any', 'td', 'dictany'):
                log = []
                behave = (lambda v, h: h(v)) if kind == 'wrap' else (lambda v, h: 'plain')
                lf = leaf(kind, when, behave, 'any', 'any', True, False, log)
                if iskind == 'td':
                    ser = lf['serialization']
                    lf = dict(cs.typed_dict_schema({k: cs.typed_dict_field(cs.any_schema()) for k in 'abc'}), serialization=ser)
                elif iskind == 'dictany':
                    lf = dict(cs.dict_schema(), serialization=lf['serialization'])
                s = SchemaSerializer(mks(lf))
                ref = SchemaSerializer(mks({k: v for k, v in lf.items() if k != 'serialization'}))
                whole = mkv(nested)
                for inc, exc in itertools.product(SUBS, SUBS):
                    kw = {}
                    if inc is not None:
                        kw['include'] = up(inc)
                    if exc is not None:
                        kw['exclude'] = up(exc)
                    for route in ROUTES:
                        js = route in ('json', 'to_json')
                        del log[:]
                        got = run(s, whole, route, **kw)
                        ctx.step()
                        u = used(when, nested, js)
                        ctx.ev(got[0], (kind, cname, when, iskind, rep(inc), rep(exc), route))
                        desc = dict(context=cname, when=when, inner=iskind, kw=kw, route=route)
                        if u:
                            # True means all of it: no further filter
                            ctx.check(len(log) == 1, f'filter calls: {kind} {cname}', n=len(log), got=got, **desc)
                            if log:
                                i = log[0][2]
                                ctx.check(canon(i['include']) == canon(inc) and canon(i['exclude']) == canon(exc), f'info filter: {kind} {cname} {route}', got=(i['include'], i['exclude']), want=(inc, exc), **desc)
                        else:
                            ctx.check(not log, f'filter calls: {kind} {cname}', n=len(log), **desc)
                        if kind == 'wrap' or not u:
                            want = run(ref, whole, route, **kw)
                            ctx.check(canon(got) == canon(want), f'filter applied: {kind} {cname} {when} used={u} {route}', got=got, want=want, **desc)


def index_key(ctx):
    """handler(value, key) applies the part of the filter below that index or key, and raises PydanticOmit when it filters the part out"""
    FILT = [None, set(), {0}, {1}, {0, 1}, {0: {'a'}}, {1: {'a'}, 0: True}, {'__all__': {'a'}}, {'k'}, {'k': {'a'}}, {'k': True, 0: {'b'}}, {'__all__': True}, {-1}, {'l'}]
    part_v = {'a': 1, 'b': 2}
    for k in ctx.split([0, 1, 'k', 'l', 2]):
        def f(v, h):
            try:
                return ('ok', h(v, k))
            except PydanticOmit:
                return 'omit'
        s = SchemaSerializer(cs.any_schema(serialization=cs.wrap_serializer_function_ser_schema(f, return_schema=cs.any_schema())))
        isint = isinstance(k, int)
        ref = SchemaSerializer(cs.list_schema(cs.any_schema()) if isint else cs.dict_schema(cs.any_schema(), cs.any_schema()))
        for inc, exc in itertools.product(FILT, FILT):
            kw = {}
            if inc is not None:
                kw['include'] = inc
            if exc is not None:
                kw['exclude'] = exc
            # negative indexes count from the end of the collection, whose length the handler cannot know
            if -1 in (inc or ()) or -1 in (exc or ()):
                continue
            for route in ROUTES:
                got = run(s, part_v, route, **kw)
                if isint:
                    # the same position in a list whose other items are None
                    lst = ['other'] * 3
                    lst[k] = part_v
                    want = run(ref, lst, route, **kw)
                    if want[0] == 'ok':
                        kept = [x for x in want[1] if x != 'other']
                        want = ('ok', ('ok', kept[0]) if kept else 'omit')
                else:
                    want = run(ref, {k: part_v}, route, **kw)
                    if want[0] == 'ok':
                        want = ('ok', ('ok', want[1][k]) if k in want[1] else 'omit')
                if route in ('json', 'to_json') and want[0] == 'ok':
                    want = ('ok', jsonify(want[1]))
                ctx.step()
                ctx.ev(got[0], (rep(k), rep(inc), rep(exc), route))
                if isint and any(isinstance(x, str) and x != '__all__' for x in itertools.chain(inc or (), exc or ())):
                    continue
                ctx.check(canon(got) == canon(want), f'handler with key {k!r}', include=inc, exclude=exc, route=route, got=got, want=want)


# ---- not called when the field is left out ---------------------------------------------------
def skipped(ctx):
    def mk(kind, log, field):
        return leaf(kind, None, (lambda v, h: v), 'none', 'any', False, field, log)
    for kind, field, holder in ctx.split(itertools.product(['plain', 'wrap'], [False, True], ['model', 'dc', 'td', 'computed', 'extras'])):
        log = []
        lf = mk(kind, log, field if holder != 'extras' else False)
        dflt = cs.with_default_schema(lf, default=5)
        for v in (None, 5, 6):
            for is_set in (True, False):
                if holder == 'model':
                    s = SchemaSerializer(cs.model_schema(M, cs.model_fields_schema({'f': cs.model_field(dflt), 'g': cs.model_field(ANY)})))
                    val = mkm(M, {'f': v, 'g': 1})
                    if not is_set:
                        val.__pydantic_fields_set__.discard('f')
                elif holder == 'dc':
                    s = SchemaSerializer(cs.dataclass_schema(D, cs.dataclass_args_schema('D', [cs.dataclass_field('f', dflt), cs.dataclass_field('g', ANY)]), ['f', 'g']))
                    val = D(v, 1)
                elif holder == 'td':
                    s = SchemaSerializer(cs.typed_dict_schema({'f': cs.typed_dict_field(dflt), 'g': cs.typed_dict_field(ANY)}))
                    val = {'f': v, 'g': 1}
                elif holder == 'extras':
                    s = SchemaSerializer(cs.model_schema(M, cs.model_fields_schema({'g': cs.model_field(ANY)}, extras_schema=lf, extra_behavior='allow'), extra_behavior='allow'))
                    val = mkm(M, {'g': 1}, {'f': v})
                else:
                    class CM(Model):
                        @property
                        def f(self):
                            return self.g
                    s = SchemaSerializer(cs.model_schema(CM, cs.model_fields_schema({'g': cs.model_field(ANY)}, computed_fields=[cs.computed_field('f', lf)])))
                    val = mkm(CM, {'g': v})
                for bits in itertools.product([False, True], repeat=4):
                    fl = dict(zip(FLAGS, bits))
                    for filt in ({}, {'exclude': {'f'}}, {'include': {'g'}}, {'include': {'f'}}, {'exclude': {'g'}}, {'exclude': {'f': True}}, {'exclude': {'f': {'x'}}}):
                        for route in ROUTES:
                            del log[:]
                            got = run(s, val, route, **fl, **filt)
                            out = filt in ({'exclude': {'f'}}, {'include': {'g'}}, {'exclude': {'f': True}})
                            out |= fl['exclude_none'] and v is None
                            out |= fl['exclude_defaults'] and v == 5 and holder not in ('computed', 'extras')
                            out |= fl['exclude_unset'] and not is_set and holder == 'model'
                            out |= fl['round_trip'] and holder == 'computed'
                            ctx.step()
                            ctx.ev(got[0], (kind, field, holder, rep(v), is_set, bits, rep(filt), route))
                            ctx.check(len(log) == (not out), f'called for a field left out: {kind} {holder} {route}' if out else f'not called once: {kind} {holder} {route}', v=v, is_set=is_set, flags=fl, filt=filt, got=got, n=len(log))
                            if got[0] == 'ok':
                                ctx.check(('f' in got[1]) == (not out), f'field presence: {kind} {holder} {route}', v=v, flags=fl, filt=filt, got=got)


# ---- trees of models: every field serializer gets its own model and name -----------------------
def tree_shapes(n):
    """all trees of n nodes with up to 2 children each (fields p, q)"""
    if n == 0:
        return [None]
    out = []
    for a in range(n):
        for x in tree_shapes(a):
            for y in tree_shapes(n - 1 - a):
                out.append((x, y))
    return out


def trees(ctx):
    top = 4 if ctx.quick else 6
    log = []

    def mkf(kind, fname):
        def plain(m, v, info):
            log.append((id(m), fname, info.field_name, v))
            return v

        def wrap(m, v, h, info):
            log.append((id(m), fname, info.field_name, v))
            r = h(v)
            log.append((id(m), fname, 'after', v))
            return r
        return plain if kind == 'plain' else wrap

    class T(Model):
        @property
        def c(self):
            return ('computed', id(self))

    def schema(kp, kq, holder):
        ref = cs.nullable_schema(cs.definition_reference_schema('T'))

        def f(k, n):
            mk = cs.plain_serializer_function_ser_schema if k == 'plain' else cs.wrap_serializer_function_ser_schema
            kw = {'return_schema': ref} if k == 'plain' else {}
            return dict(ref, serialization=mk(mkf(k, n), is_field_serializer=True, info_arg=True, **kw))

        def last():
            return cs.any_schema(serialization=cs.plain_serializer_function_ser_schema(mkf('plain', 'z'), is_field_serializer=True, info_arg=True))
        F = cs.model_field if holder == 'model' else cs.typed_dict_field
        fields = {'p': F(f(kp, 'p')), 'q': F(f(kq, 'q')), 'z': F(last())}
        if holder == 'model':
            comp = [cs.computed_field('c', cs.any_schema(serialization=cs.plain_serializer_function_ser_schema(mkf('plain', 'c'), is_field_serializer=True, info_arg=True)))]
            inner = cs.model_schema(T, cs.model_fields_schema(fields, computed_fields=comp), ref='T')
        elif holder == 'td':
            inner = cs.typed_dict_schema(fields, ref='T')
        else:
            inner = cs.dataclass_schema(DT3, cs.dataclass_args_schema('DT3', [cs.dataclass_field(n, x['schema']) for n, x in fields.items()]), list(fields), ref='T')
        return cs.definitions_schema(cs.list_schema(cs.definition_reference_schema('T')), [inner])

    @dataclasses.dataclass
    class DT3:
        p: object
        q: object
        z: object

    def build(shape, holder, objs):
        if shape is None:
            return None
        d = {'p': build(shape[0], holder, objs), 'q': build(shape[1], holder, objs), 'z': len(objs)}
        o = mkm(T, d) if holder == 'model' else d if holder == 'td' else DT3(**d)
        objs.append(o)
        return o

    # field serializers of a typed dict below a model or another typed dict are given the outermost one
    root = [None]

    def mid(o):
        return id(root[0]) if root[0] is not None else id(o)

    def expect(o, kinds, holder):
        if o is None:
            return [], None
        g = o.__getitem__ if holder == 'td' else lambda n: getattr(o, n)
        ev, out = [], {}
        for n in ('p', 'q'):
            v = g(n)
            ev.append((mid(o), n, n, v))
            e, r = expect(v, kinds, holder)
            ev += e
            out[n] = r
            if kinds[n] == 'wrap':
                ev.append((mid(o), n, 'after', v))
        ev.append((mid(o), 'z', 'z', g('z')))
        out['z'] = g('z')
        if holder == 'model':
            ev.append((id(o), 'c', 'c', ('computed', id(o))))
            out['c'] = ('computed', id(o))
        return ev, out

    for holder, kp, kq, n in ctx.split(itertools.product(['model', 'td', 'dc'], ['plain', 'wrap'], ['plain', 'wrap'], range(1, top + 1))):
        s = SchemaSerializer(schema(kp, kq, holder))
        for shape in tree_shapes(n):
            objs = []
            o = build(shape, holder, objs)
            for route in ROUTES:
                del log[:]
                got = run(s, [o, o], route)
                root[0] = o if holder == 'td' else None
                ev, out = expect(o, {'p': kp, 'q': kq}, holder)
                want = [out, out]
                if route in ('json', 'to_json'):
                    want = jsonify(want)
                ctx.step()
                ctx.ev(got[0], (holder, kp, kq, rep(shape), route))
                # a wrap serializer's handler is at work when plain return schemas serialize: same order in every case but plain, whose result is serialized after the call: also the same
                ctx.check(got[0] == 'ok' and canon(got[1]) == canon(want), f'tree result: {holder} {kp} {kq} {route}', shape=shape, got=got, want=want)
                ctx.check(len(log) == 2 * len(ev) and all(a[:3] == b[:3] and a[3] is b[3] or a[:3] == b[:3] and a[3] == b[3] for a, b in zip(log, ev + ev)), f'tree calls: {holder} {kp} {kq} {route}', shape=shape, n=len(log), want=len(ev))
        ctx.trace_done()


# ---- whole models -----------------------------------------------------------------------------
def models(ctx):
    """a serializer of the whole model, wrapping its fields' serializers; handlers kept beyond the call; nesting"""
    kept = []
    for kind, when, info in ctx.split(itertools.product(['plain', 'wrap'], WHEN, [False, True])):
        for nest in ('root', 'list', 'field', 'key', 'dc'):
            for behave_name in ('same', 'h', 'dict', 'extra', 'keep'):
                if kind == 'plain' and behave_name in ('h', 'extra', 'keep'):
                    continue
                log = []

                def behave(v, h):
                    if behave_name == 'same':
                        return v.__dict__
                    if behave_name == 'h':
                        return h(v)
                    if behave_name == 'dict':
                        return {'z': v.x}
                    if behave_name == 'extra':
                        return {**h(v), 'extra': 1}
                    kept.append(h)
                    return h(v)
                fn = mkfn(kind, behave, info, False, log)
                mk = cs.plain_serializer_function_ser_schema if kind == 'plain' else cs.wrap_serializer_function_ser_schema

                class MM(Model):
                    __hash__ = lambda self: 1
                inner_log = []
                fl = leaf('plain', 'json', lambda v, h: f'<{v}>', 'none', 'any', True, True, inner_log)
                base = cs.model_schema(MM, cs.model_fields_schema({'x': cs.model_field(fl), 'y': cs.model_field(cs.int_schema())}))
                sch = dict(base, serialization=mk(fn, info_arg=info, **({'when_used': when} if when else {})))
                m = mkm(MM, {'x': 'X', 'y': 2})
                val = {'root': m, 'list': [m, m], 'field': mkm(M, {'a': m, 'b': m}), 'key': {m: 1}, 'dc': D(m, m)}[nest]
                sch = {'root': lambda: sch, 'list': lambda: cs.list_schema(sch), 'field': lambda: cs.model_schema(M, cs.model_fields_schema({'a': cs.model_field(sch), 'b': cs.model_field(sch)})),
                       'key': lambda: cs.dict_schema(sch, ANY), 'dc': lambda: cs.dataclass_schema(D, cs.dataclass_args_schema('D', [cs.dataclass_field('f', sch), cs.dataclass_field('g', sch)]), ['f', 'g'])}[nest]()
                if nest == 'key':
                    continue
                s = SchemaSerializer(sch)
                for route in ROUTES:
                    js = route in ('json', 'to_json')
                    u = used(when, m, js)
                    fields = {'x': '<X>' if js else 'X', 'y': 2}
                    one_ = fields if not u else {'same': {'x': 'X', 'y': 2}, 'h': fields, 'dict': {'z': 'X'}, 'extra': {**fields, 'extra': 1}, 'keep': fields}[behave_name]
                    want = {'root': one_, 'list': [one_, one_], 'field': {'a': one_, 'b': one_}, 'dc': {'f': one_, 'g': one_}}[nest]
                    del log[:], inner_log[:], kept[:]
                    got = run(s, val, route)
                    k = 1 if nest == 'root' else 2
                    ctx.step()
                    ctx.ev(got[0], (kind, when, info, nest, behave_name, route))
                    ctx.check(canon(got) == canon(('ok', want)), f'model serializer: {kind} {when} {nest} {behave_name} {route}', got=got, want=want)
                    ctx.check(len(log) == (k if u else 0), f'model serializer calls: {kind} {when} {nest} {route}', n=len(log))
                    for a, v, i in log:
                        ctx.check(v is m, f'model serializer value: {kind} {nest}', got=v)
                    for a, v, i in inner_log:
                        ctx.check(a is m and i['field_name'] == 'x', f'field serializer below a model serializer: {kind} {nest}', got=(a, i))
                    for h in kept:
                        again = outcome(h, m)
                        ctx.check(again == ('ok', canon(fields)), f'kept handler: {nest} {route}', got=again, want=fields)


# ---- format ------------------------------------------------------------------------------------
def formats(ctx):
    VALS = [None, 0, 1, -5, 3.14159, 'abc', True, b'x', [1], date(2020, 1, 2), Obj()]
    FS = ['', '0.1f', '>6', 'd', '%Y-%m', 'x', 's']
    for fs, when in ctx.split(itertools.product(FS, WHEN)):
        for is_ts in ((True, False) if fs == '' else (False,)):
            ser = cs.to_string_ser_schema(**({'when_used': when} if when else {})) if is_ts else cs.format_ser_schema(fs, **({'when_used': when} if when else {}))
            for cname, (mks, mkv, comp, fname, cond) in CTX.items():
                s = SchemaSerializer(mks(cs.any_schema(serialization=ser)))
                for v in VALS:
                    if cond and not cond(v):
                        continue
                    for route in ROUTES:
                        js = route in ('json', 'to_json')
                        if cname == 'generator' and not js:
                            continue
                        u = used(when or 'json-unless-none', v, js)
                        try:
                            r = (str(v) if fs == '' else format(v, fs)) if u else v
                            if js and cname == 'key' and r is None:
                                r = 'None'
                            want = ('ok', r)
                        except Exception as e:
                            want = ('err', f'Error calling `format(value, {fs!r})`: {type(e).__name__}: {e}')
                        if want[0] == 'ok':
                            try:
                                want = ('ok', ([want[1]] if js else {want[1]}) if cname == 'set' else comp(want[1]))
                            except TypeError:
                                want = ('err', None)
                            if js and want[0] == 'ok':
                                want = ('ok', jsonify(want[1]))
                        got = run(s, mkv(v), route)
                        ctx.step()
                        ctx.ev(got[0], (fs, is_ts, when, cname, rep(v), route) if u else None)
                        if want[0] == 'ok':
                            ok = canon(got) == canon(want)
                        else:
                            ok = got[0] == 'err' and (want[1] is None or norm_err(got[1]) == norm_err(want[1]))
                        ctx.check(ok, f'format {fs!r} {when} {cname} {route}', value=v, got=got, want=want, tostring=is_ts)


date = datetime.date


def names(ctx):
    """the name in the error message"""
    class C:
        def __call__(self, v):
            raise ValueError('x')

        def m(self, v):
            raise ValueError('x')

        @staticmethod
        def st(v):
            raise ValueError('x')

        @classmethod
        def cl(cls, v):
            raise ValueError('x')

        def __repr__(self):
            return 'C()'

    def f(v):
        raise ValueError('x')
    fns = {'f': (f, 'f'), 'lambda': (lambda v: f(v), '<lambda>'), 'partial': (functools.partial(f), None), 'callable': (C(), 'C()'), 'method': (C().m, 'm'), 'static': (C.st, 'st'), 'cls': (C.cl, 'cl'), 'builtin': (int, 'int'), 'type': (C, 'C')}
    for n in ctx.split(fns):
        fn, name = fns[n]
        name = name or repr(fn)
        s = SchemaSerializer(cs.any_schema(serialization=cs.plain_serializer_function_ser_schema(fn)))
        for route in ROUTES:
            got = run(s, 'q', route)
            ctx.ev(got[0], (n, route))
            if n == 'type':
                ctx.check(got[0] == 'err', f'name {n}', got=got)
                continue
            msg = {'builtin': "invalid literal for int() with base 10: 'q'"}.get(n, 'x')
            ctx.check(got[0] == 'err' and norm_err(got[1]) == f'Error calling function `{name}`: ValueError: {msg}', f'name {n}', got=got)
            if route == 'python':
                try:
                    s.to_python('q')
                except PydanticSerializationError as e:
                    ctx.check(isinstance(e.__cause__, ValueError), f'cause {n}', got=e.__cause__)
    # without a model a field serializer cannot be called
    for kind in ctx.split(['plain', 'wrap']):
        for info in (False, True):
            s = SchemaSerializer(leaf(kind, None, lambda v, h: v, 'none', 'any', info, True, []))
            for route in ROUTES:
                got = run(s, 1, route)
                ctx.ev(got[0], (kind, info, route))
                ctx.check(got[0] == 'err' and f'Function {kind} serializer expected to be run inside the context of a model field but no model was found' in got[1], f'field serializer outside a model {kind}', got=got)


def explore(ctx):
    main(ctx)
    pairs(ctx)
    flags(ctx)
    filters(ctx)
    index_key(ctx)
    skipped(ctx)
    trees(ctx)
    models(ctx)
    formats(ctx)
    names(ctx)
