"""C26: no panic, no abort.  Every schema of the catalogue x every input x every entry point and
option; every schema position x malformed value; boundary values for every numeric option."""
import itertools, json
from mc.lib import *
from mc.zoo import *
import pydantic_core as pc

LEVEL = 'exploration'
RULE = ('every (schema, entry point, option set, input) of the product of the catalogue alphabets, every single-position (and pairwise at the top level) '
        'malformation of every catalogue schema; every case is non-trivial: it runs the library on a distinct (schema, input, options) combination')
BOUNDS = {'quick': '75 schemas x 230 Python inputs x 6 option sets, x 130 JSON texts x 8, single-position malformations with 16 values; serializers x inputs x 9 option sets; prefixes of all JSON texts',
          'thorough': 'as quick plus pairs of malformed positions and JSON texts with every byte replaced by 12 bytes'}
ASSUME = ['PanicException and SystemError are the only ways a Rust panic or a broken C-level contract reaches Python; aborts are seen as the death of the worker']

OPTS_V = [{}, {'strict': True}, {'strict': False}, {'from_attributes': True}, {'by_alias': False, 'by_name': True}, {'context': {'x': 1}, 'allow_partial': True}]
OPTS_S = [{}, {'mode': 'json'}, {'exclude_unset': True, 'exclude_defaults': True, 'exclude_none': True}, {'round_trip': True}, {'by_alias': True, 'serialize_as_any': True},
          {'include': {'a', 0, 'root'}}, {'exclude': {'a': True, 0: {'x'}, -1: True, '__all__': {'b'}}}, {'warnings': 'error'}, {'mode': 'json', 'fallback': lambda x: 'FB', 'warnings': False}]


def render(k, v, ctx):
    if k == 'err':
        for f in (lambda: str(v), lambda: repr(v), lambda: v.errors(), lambda: v.json(), lambda: v.errors(include_context=False, include_input=False), lambda: v.json(include_input=False, indent=2), lambda: v.error_count(), lambda: v.title):
            raw(f)


def drain(v):
    if hasattr(v, '__next__'):
        for _ in range(6):
            k, x = raw(next, v)
            if k != 'ok':
                break


BAD = [None, 0, -1, 2 ** 70, 1.5, float('nan'), '', 'x', b'x', [], {}, [1], {'a': 1}, object(), {'type': 'int'}, {'type': 'nope'}, True, ('a',), {'type': 'definition-ref', 'schema_ref': 'missing'}, '(', '\ud800', len, int]


def paths(s, pre=()):
    if isinstance(s, dict):
        for k, v in s.items():
            yield pre + (k,)
            yield from paths(v, pre + (k,))
    elif isinstance(s, (list, tuple)):
        for i, v in enumerate(s):
            yield pre + (i,)
            yield from paths(v, pre + (i,))


def put(s, path, val, delete=False):
    if not path:
        return val
    if isinstance(s, dict):
        d = dict(s)
        if delete and len(path) == 1:
            d.pop(path[0])
        else:
            d[path[0]] = put(s[path[0]], path[1:], val, delete)
        return d
    t = type(s)
    l = list(s)
    if delete and len(path) == 1:
        l.pop(path[0])
    else:
        l[path[0]] = put(l[path[0]], path[1:], val, delete)
    return t(l) if t in (list, tuple) else l


SMALL = lambda: [None, 1, '1', 1.5, [1], {'a': 1}, (1, 'x'), 2 ** 70, b'x', '\ud800', mk(M1, a=1, b='x')]

# optional keys that every schema of a type may carry, with valid and extreme values
EXTRA_KEYS = {
    'int': {'multiple_of': [1, -1, 0, 2 ** 63, -2 ** 63, 2 ** 70], 'ge': [2 ** 70, -2 ** 70], 'le': [2 ** 63], 'gt': [-2 ** 63], 'lt': [0]},
    'float': {'multiple_of': [0.0, -1.0, float('inf'), float('nan'), 5e-324, 1e308], 'ge': [float('nan'), float('inf')], 'le': [-0.0], 'gt': [float('-inf')], 'allow_inf_nan': [True, False]},
    'decimal': {'multiple_of': [Decimal('1'), Decimal('0.1')], 'max_digits': [0, 1, 2 ** 31], 'decimal_places': [0, 5, 2 ** 31], 'ge': [Decimal('1e400')], 'le': [Decimal('-1')], 'allow_inf_nan': [True]},
    'str': {'max_length': [0, 1, 2 ** 62], 'min_length': [0, 2 ** 62], 'pattern': ['', '(a|b)*c', '^\\d+$', '[', '(?=x)', 'é'], 'regex_engine': ['python-re', 'rust-regex'], 'to_upper': [True], 'to_lower': [True], 'strip_whitespace': [True], 'coerce_numbers_to_str': [True]},
    'bytes': {'max_length': [0, 2 ** 62], 'min_length': [1]},
    'list': {'max_length': [0, 2 ** 62], 'min_length': [2 ** 62], 'fail_fast': [True]},
    'set': {'max_length': [0, 2 ** 62], 'min_length': [2 ** 62], 'fail_fast': [True]},
    'frozenset': {'max_length': [0, 2 ** 62], 'min_length': [2 ** 62]},
    'tuple': {'max_length': [0, 2 ** 62], 'min_length': [2 ** 62], 'variadic_item_index': [0, 1, 5, 2 ** 62]},
    'dict': {'max_length': [0, 2 ** 62], 'min_length': [2 ** 62]},
    'generator': {'max_length': [0, 2 ** 62], 'min_length': [2 ** 62]},
    'date': {'now_op': ['past', 'future'], 'now_utc_offset': [0, 86399, -86399, 86400, 2 ** 31 - 1], 'ge': [date.max, date.min], 'lt': [date.min]},
    'datetime': {'now_op': ['past', 'future'], 'now_utc_offset': [0, 86399, -86399, 86400, -2 ** 31], 'tz_constraint': ['aware', 'naive', 0, 86399, 86400, 2 ** 31 - 1], 'ge': [DT.max, DT.min, DT.max.replace(tzinfo=TZ)], 'microseconds_precision': ['error', 'truncate']},
    'time': {'tz_constraint': ['aware', 'naive', 0, 86400], 'ge': [time.max], 'lt': [time(0, tzinfo=UTC)], 'microseconds_precision': ['error', 'truncate']},
    'timedelta': {'ge': [timedelta.max], 'le': [timedelta.min], 'gt': [timedelta.max], 'lt': [timedelta.min], 'microseconds_precision': ['error']},
    'url': {'max_length': [0, 2 ** 31], 'allowed_schemes': [[], ['http']], 'host_required': [True], 'default_host': ['', 'x'], 'default_port': [0, 65535, 65536], 'default_path': ['', '/', 'x y']},
    'multi-host-url': {'max_length': [0], 'allowed_schemes': [['http']], 'host_required': [True], 'default_host': ['', 'a,b'], 'default_port': [0, 65535], 'default_path': ['/x']},
    'uuid': {'version': [1, 3, 4, 5, 6, 7, 8, 0, 255, 256]},
    'complex': {'strict': [True]}, 'bool': {'strict': [True]}, 'enum': {'strict': [True]},
}


def use(ctx, label, sch, inputs):
    k, v = raw(SchemaValidator, sch)
    n = 1
    if k == 'ok':
        for i in inputs:
            k2, r = raw(v.validate_python, i)
            render(k2, r, ctx)
            drain(r) if k2 == 'ok' else None
            n += 1
        for t in ('null', '1', '"a"', '[1]', '{"a": 1}', '1e400', '-9223372036854775808'):
            k2, r = raw(v.validate_json, t)
            render(k2, r, ctx)
            n += 1
        raw(repr, v)
    k3, s = raw(SchemaSerializer, sch)
    if k3 == 'ok':
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            for i in inputs:
                raw(s.to_python, i)
                raw(s.to_json, i)
                n += 2
    k4, e = raw(pc.validate_core_schema, sch)
    if k4 != 'ok' and isinstance(e, SchemaError):
        schema_error(ctx, e, label)
    return f'{k}/{k3}/{k4}', n + 1


def schema_error(ctx, e, label):
    """the views of a SchemaError are consistent"""
    es = e.errors()
    ctx.check(e.error_count() == len(es) and str(e).startswith('Invalid Schema:') == bool(es), f'SchemaError: {label}', err=str(e)[:300], count=e.error_count(), errors=es)
    for x in es:
        ctx.check(list(x)[:4] == ['type', 'loc', 'msg', 'input'] and str(x['msg'])[:40] in str(e) and all(str(l) in str(e) for l in x['loc']), f'SchemaError line: {label}', err=str(e)[:300], line=x)
    repr(e)


def explore(ctx):
    warnings.simplefilter('ignore')
    # 1. every schema x every Python input x every option set
    for z, (oi, o) in ctx.split(itertools.product(ZOO, enumerate(OPTS_V))):
        v = SchemaValidator(z.schema())
        for i, x in enumerate(py_inputs()):
            ctx.case(z.name, o, i)
            k, r = raw(v.validate_python, x, **o)
            render(k, r, ctx)
            drain(r) if k == 'ok' else None
            ctx.ev('py ' + k, (z.name, oi, i))
            if oi < 2:
                o2 = {a: b for a, b in o.items()}
                raw(v.isinstance_python, x, **o2)
                raw(v.validate_strings, x, **{a: b for a, b in o.items() if a == 'strict'})
            if oi == 0:
                raw(v.validate_json, x)
                raw(v.validate_assignment, x, 'a', 1)
                raw(v.validate_assignment, mk(M1, a=1, b='x'), 'a', x)
                raw(v.validate_assignment, D1(1), 'a', x)
                raw(v.validate_assignment, {'a': 1}, 'a', x)
                raw(v.validate_python, x, self_instance=mk(M1))
                raw(v.validate_python, {'a': x, 'x': x, 'v': x, 'k': x})
                raw(v.validate_python, [x, x])
                raw(v.validate_python, {'k': 'cat', 'n': x})
                k, r = raw(v.validate_python, [[x], (x,), {1: x}])
                render(k, r, ctx)
        raw(v.get_default_value)
    for z, o in ctx.split(itertools.product(ZOO, [{}, {'strict': True}, {'by_name': True, 'by_alias': False}, {'allow_partial': True}, {'allow_partial': 'trailing-strings'}])):
        v = SchemaValidator(z.schema())
        for i, t in enumerate(JSON_TEXTS):
            ctx.case(z.name, o, t)
            for tt in (t, t.encode()):
                k, r = raw(v.validate_json, tt, **o)
                render(k, r, ctx)
                drain(r) if k == 'ok' else None
                ctx.ev('json ' + k, (z.name, repr(o), t))
    # 2. serializers
    for z, (oi, o) in ctx.split(itertools.product([z for z in ZOO if z.ser], enumerate(OPTS_S))):
        k, s = raw(SchemaSerializer, z.schema())
        if k != 'ok':
            continue
        for i, x in enumerate(py_inputs() + z.good):
            ctx.case(z.name, 'ser', oi, i)
            k, r = raw(s.to_python, x, **o)
            drain(r) if k == 'ok' else None
            ctx.ev('ser ' + k, (z.name, 'ser', oi, i))
            o2 = {a: b for a, b in o.items() if a != 'mode'}
            raw(s.to_json, x, **o2)
            if oi == 0:
                for ind in (0, 1, 2):
                    raw(s.to_json, x, indent=ind)
                raw(s.to_json, x, ensure_ascii=True)
                raw(s.to_python, [x, {1: x}], serialize_as_any=True)
            elif oi == 5:
                for inc in ({'__all__'}, {}, set(), {'x': {'__all__': {'a'}}}, [0], 1, {'a': ...}, {0: {1: True}}):
                    raw(s.to_python, x, include=inc)
                    raw(s.to_json, x, exclude=inc)
    # 3. functions without a schema
    fopts = [{}, {'by_alias': True}, {'exclude_none': True, 'round_trip': True}, {'timedelta_mode': 'float', 'bytes_mode': 'base64', 'inf_nan_mode': 'strings'}, {'bytes_mode': 'hex', 'inf_nan_mode': 'null'},
             {'serialize_unknown': True}, {'fallback': lambda x: [x]}, {'fallback': lambda x: x}, {'include': {0}, 'exclude': {1}}, {'timedelta_mode': 'x'}, {'bytes_mode': 1}, {'inf_nan_mode': None}]
    for oi, o in ctx.split(list(enumerate(fopts))):
        for i, x in enumerate(py_inputs()):
            for w in (x, [x], {'k': x}, (x, [x])):
                ctx.case('to_json', oi, i)
                k, r = raw(pc.to_jsonable_python, w, **o)
                ctx.ev('fn ' + k, ('fn', oi, i, type(w).__name__))
                raw(pc.to_json, w, **o)
                raw(pc.to_json, w, indent=3, **o)
            if isinstance(x, (str, bytes, bytearray, int)) or x is None:
                raw(pc.from_json, x)
    for t in ctx.split(JSON_TEXTS + ['[' * 300, '[' * 150 + ']' * 150, '{"a":' * 200 + '1' + '}' * 200, '"\\u12', '{"\\ud800": 1}', '1' * 5000, '0.' + '1' * 5000, '-' + '9' * 4300, '\ufeff1']):
        bt = t.encode()
        cut = range(len(bt) + 1) if len(bt) < 400 else [1, 200, len(bt)]
        for n in cut:
            for kw in ({}, {'allow_inf_nan': False}, {'cache_strings': 'none'}, {'cache_strings': 'keys'}, {'allow_partial': True}, {'allow_partial': 'trailing-strings'}, {'allow_partial': 'on'}, {'cache_strings': 'zz'}):
                ctx.case('from_json', bt[:n], kw)
                k, r = raw(pc.from_json, bt[:n], **kw)
                ctx.ev('from_json ' + k, ('from_json', t[:50], n, repr(kw)))
        if not ctx.quick and len(bt) < 60:
            for n in range(len(bt)):
                for c in b'\x00"\\{[]},:-0\xff':
                    m = bt[:n] + bytes([c]) + bt[n + 1:]
                    k, r = raw(pc.from_json, m)
                    raw(pc.from_json, m, allow_partial='trailing-strings')
                    ctx.ev('from_json ' + k, ('from_json*', m))
    # 4. extreme values of every option
    base = {'int': cs.int_schema, 'float': cs.float_schema, 'decimal': cs.decimal_schema, 'str': cs.str_schema, 'bytes': cs.bytes_schema, 'list': lambda: cs.list_schema(cs.any_schema()), 'set': lambda: cs.set_schema(cs.any_schema()),
            'frozenset': lambda: cs.frozenset_schema(cs.any_schema()), 'tuple': lambda: cs.tuple_schema([cs.int_schema(), cs.str_schema()]), 'dict': lambda: cs.dict_schema(), 'generator': lambda: cs.generator_schema(cs.int_schema()), 'date': cs.date_schema,
            'datetime': cs.datetime_schema, 'time': cs.time_schema, 'timedelta': cs.timedelta_schema, 'url': cs.url_schema, 'multi-host-url': cs.multi_host_url_schema, 'uuid': cs.uuid_schema, 'complex': cs.complex_schema, 'bool': cs.bool_schema,
            'enum': lambda: cs.enum_schema(Num, list(Num.__members__.values()), sub_type='int')}
    for t, keys in ctx.split(list(EXTRA_KEYS.items())):
        opts = [(k, v) for k, vs in keys.items() for v in vs]
        for combo in [()] + [(a,) for a in opts] + [c for c in itertools.combinations(opts, 2) if c[0][0] != c[1][0]]:
            sch = {**base[t](), **dict(combo)}
            k, v = raw(SchemaValidator, sch)
            ctx.ev('opt ' + k, (t, repr(combo)))
            if k != 'ok':
                continue
            for i, x in enumerate(py_inputs()):
                ctx.case(t, combo, i)
                k, r = raw(v.validate_python, x)
                render(k, r, ctx) if i % 3 == 0 else None
                drain(r) if k == 'ok' else None
                ctx.ev('optv ' + k, (t, repr(combo), i))
            for tx in JSON_TEXTS:
                raw(v.validate_json, tx)
    # 5. malformed schemas
    for z in ctx.split(ZOO):
        base_s = z.schema()
        ps = list(paths(base_s))
        for p in ps:
            for bi, b in enumerate(BAD + ['DEL']):
                try:
                    m = put(base_s, p, b, b == 'DEL')
                except Exception:
                    continue
                ctx.case('malformed', z.name, p, b)
                lab, n = use(ctx, z.name, m, SMALL()[:6])
                ctx.ev('malformed ' + lab, (z.name, p, bi), n)
        if not ctx.quick:
            for p, q in itertools.combinations(ps, 2):
                if p == q[:len(p)]:
                    continue
                for b, c in itertools.product(BAD[:9], BAD[:9]):
                    m = put(put(base_s, p, b), q, c)
                    lab, n = use(ctx, z.name, m, SMALL()[:2])
                    ctx.ev('malformed2 ' + lab, (z.name, p, q, repr(b), repr(c)), n)
    # 6. unknown keys / configuration / nested at top level
    CFG = ['title', 'strict', 'extra_fields_behavior', 'typed_dict_total', 'from_attributes', 'loc_by_alias', 'revalidate_instances', 'validate_default', 'str_max_length', 'str_min_length', 'str_strip_whitespace', 'str_to_lower', 'str_to_upper',
           'allow_inf_nan', 'ser_json_timedelta', 'ser_json_bytes', 'ser_json_inf_nan', 'val_json_bytes', 'hide_input_in_errors', 'validation_error_cause', 'coerce_numbers_to_str', 'regex_engine', 'cache_strings', 'validate_by_alias', 'validate_by_name', 'serialize_by_alias', 'val_temporal_unit']
    for key, z in ctx.split(itertools.product(CFG, ZOO)):
        for b in BAD + ['allow', 'always', 'float', 'base64', 'null', 'utf8', 'hex', 'strings', 'constants', 'keys', 'none', 'all', 'python-re', 'seconds']:
            ctx.case('config', key, z.name, b)
            k, v = raw(SchemaValidator, z.schema(), {key: b})
            n = 1
            if k == 'ok':
                for i in SMALL():
                    render(*raw(v.validate_python, i), ctx)
                    n += 1
            k2, s = raw(SchemaSerializer, z.schema(), {key: b}) if z.ser else ('-', None)
            if k2 == 'ok':
                for i in SMALL() + z.good:
                    raw(s.to_json, i)
                    n += 1
            ctx.ev(f'config {k}/{k2}', (key, z.name, repr(b)[:30]), n)
    # 6b. representations cut at every place of texts with characters of every width, in errors and in serializer warnings
    V, S, U = SchemaValidator(cs.int_schema()), SchemaSerializer(cs.int_schema()), SchemaSerializer(cs.union_schema([cs.int_schema(), cs.bytes_schema()]))
    for n in ctx.split(range(0, 140)):
        for ch in ('\u00e9', '\u20ac', '\U0001f600'):
            for m in ((60, 1, 2) if ctx.quick else (1, 2, 3, 5, 13, 60)):
                for x in ('a' * n + ch * m, ch * m + 'a' * n, 'a' * n + ch * m + 'a' * n):
                    ctx.case('cut', n, ch, m)
                    render(*raw(V.validate_python, x), ctx)
                    render(*raw(V.validate_json, json.dumps(x, ensure_ascii=False)), ctx)
                    for f in (S, U):
                        raw(f.to_python, x)
                        raw(f.to_json, x, warnings='error')
                        raw(f.to_python, [x], warnings='error')
                    ctx.ev('cut', (n, ch, m), 8)
    # 7. module level classes
    for cls in ctx.split([pc.Url, pc.MultiHostUrl, pc.PydanticCustomError, pc.PydanticKnownError, pc.TzInfo, pc.ArgsKwargs, pc.Some, pc.PydanticSerializationError, pc.PydanticSerializationUnexpectedValue, pc.ValidationError.from_exception_data, pc.Url.build, pc.MultiHostUrl.build]):
        vals = [None, 0, -1, 86399, 86400, 2 ** 31, 2 ** 70, 1.5, float('nan'), '', 'x', 'http://x.com', '\ud800', b'x', [], {}, [{'type': 'missing', 'loc': ('a',)}], [{'type': 'x'}], [{}], {'a': 1}, object(), 'int_type', 'greater_than', 'my {x}', ()]
        for a in vals:
            for args in [(a,)] + [(a, b) for b in vals]:
                k, o = raw(cls, *args)
                ctx.ev('cls ' + k, (str(cls), repr(args)[:60]))
                if k == 'ok':
                    for f in (str, repr, hash, bool, lambda q: q == q, lambda q: q.__reduce__(), lambda q: q.message(), lambda q: q.errors(), lambda q: q.utcoffset(None), lambda q: DT(2020, 1, 1, tzinfo=q).isoformat(), lambda q: q.hosts(), lambda q: q.unicode_string(), lambda q: q < q, lambda q: q.context, lambda q: q.message_template):
                        raw(f, o)
            for name in ('scheme', 'host', 'port', 'username', 'password', 'path', 'query', 'fragment', 'hosts'):
                raw(cls, **{'scheme': 'http', 'host': 'x', name: a})
