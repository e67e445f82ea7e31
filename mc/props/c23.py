"""C23: serialized data validates back.  Exhaustive alphabets of values of every faithful type (whole ranges where they are finite) in every container,
under every pair of json settings, through every route out and back in."""
import collections, itertools, json, math, struct
from mc.lib import *
from mc.zoo import *

LEVEL = 'exploration'
RULE = ('schema (every faithful entry of the catalogue; leaf types in every container, containers composed) x value x settings: validate(to_python), validate_json(to_json), '
        'validate_json(json.dumps(to_python(mode=json))) and validate_strings for scalars give the value back, and serializing again gives the same text; non-trivial: the text differs from the text of every other value')
ASSUME = ['bytes in utf8 mode are utf8', 'UTC offsets of whole minutes', 'timedelta in float mode: below 2^33 seconds', 'a number in a string is no duration: float mode keys are not judged', 'literals of enum members have no JSON form', 'the sign of a zero real part of complex numbers is not kept', 'str has no lone surrogates']
BOUNDS = {'quick': 'leaves x 14 containers x settings, containers in containers with small leaves; every code point, every pair of bytes, every microsecond of a second, every offset, every second of a day, m*10^k for m<100 and all k, all powers of two and neighbours, dates of every 8th year',
          'thorough': 'm*10^k for m<2000, every date of 1..9999, three levels of containers'}


def eq(a, b):
    """equal, of the same types, in the same order; complex numbers by =="""
    return ceq(canon(a), canon(b))


def ceq(a, b):
    return a == b


CFG0 = {}
R = dict(round_trip=True)

# ---- settings -------------------------------------------------------------------------------
BYTES = ['utf8', 'base64', 'hex']
SETTINGS = [{}] + [dict(ser_json_bytes=b, val_json_bytes=b, ser_json_timedelta=t, ser_json_inf_nan=n) for b in BYTES for t in ('iso8601', 'float') for n in ('constants', 'strings', 'null')]

AWARE = [timezone(timedelta(minutes=m)) for m in (-1439, -720, -195, -1, 1, 330, 840, 1439)]
DATES = [date(1, 1, 1), date(1, 1, 2), date(4, 2, 29), date(1582, 10, 15), date(1899, 12, 31), date(1900, 3, 1), date(1969, 12, 31), date(1970, 1, 1), date(2000, 2, 29), date(2038, 1, 19), date(9999, 12, 31)]
TIMES = [time(0), time(0, 0, 0, 1), time(1, 2, 3), time(1, 2, 3, 100000), time(1, 2, 3, 120), time(12), time(23, 59, 59, 999999)]
DAYS = [0, 1, -1, 6, 7, 364, 365, 366, 1000, 36524, 99999, 999999999, -999999999]
SECS = [0, 1, 59, 60, 61, 3599, 3600, 3661, 86399]
MICS = [0, 1, 10, 100000, 500000, 999999]


def tds_all():
    out = []
    for d in DAYS:
        for s in SECS:
            for u in MICS:
                for sg in (1, -1):
                    try:
                        t = sg * timedelta(d, s, u)
                    except OverflowError:
                        continue
                    out.append(t)
    return list(dict.fromkeys(out))


def small_td(t):
    return abs(t) < timedelta(days=99000)


STRS = ['', 'a', ' a ', '\n', '\t\r\x00\x1f\x7f', '"', '\\', '/', '\\u0041', 'é', 'e\u0301', '\u2028\u2029', '\ufeff', '\uffff', '\U00010000', '\U0010ffff', '\U0001f600' * 3, 'null', '1', 'true', 'NaN', '{}', 'a' * 200, '\ud7ff\ue000', "'", '<>&']
BYT = [b'', b'a', b'\x00', b'\x7f', b'\xc3\xa9', b'\xe2\x82\xac', b'\xf0\x9f\x98\x80', b'"\\\n', b'0' * 100]
NUTF = [b'\xff', b'\x80\x81', bytes(range(256)), b'\xff' * 2, b'\xfb\xef\xbe', b'\xff\xfe\xfd\xfc']
INTS = [0, 1, -1, 7] + [s * (2 ** k + d) for k in (7, 8, 15, 16, 31, 32, 52, 53, 62, 63, 64, 65, 127, 128, 1000) for d in (-1, 0, 1) for s in (1, -1)] + [10 ** 18, 10 ** 19, 10 ** 100, -10 ** 4299 + 1]
FLOATS = [0.0, -0.0, 1.0, -1.0, 0.1, 1 / 3, 1.5, 2.0 ** 53, 2.0 ** 53 + 2, 2.0 ** 63, 2.0 ** 64, 1e15, 1e16, 1e17, 1e21, 1e22, 1e23, 1e300, 1.7976931348623157e308, 5e-324, 2.2250738585072014e-308, 2.225073858507201e-308, 1e-5, 1e-6, 1e-7, 123456789.123456789, 4.35, 0.3, 9007199254740993.0]
NONFIN = [math.inf, -math.inf, math.nan]
DECS = [Decimal(x) for x in ('0', '-0', '0.0', '0.00', '-0.0', '1', '1.0', '1.10', '-1.5', '1E+5', '1E-5', '1E+100', '1E-100', '1E-6', '1E-7', '0E-7', '0E+3', '123456789012345678901234567890.123456789', '9' * 60, '1E+6144', '1E-6143')]
UUIDS = [UUID(int=0), UUID(int=2 ** 128 - 1), UUID(int=1), UUID('12345678-1234-5678-1234-567812345678'), UUID(bytes=b'0123456789abcdef')]
URLS = ['http://example.com', 'https://u:p@example.com:8080/a/b?q=1&r=%20#frag', 'http://[::1]:80/', 'ftp://x.y/%C3%A9', 'mailto:a@b.c', 'http://xn--9ca.com/', 'file:///tmp/x', 'foo:bar', 'http://1.2.3.4/', 'data:text/plain,hi', 'http://a/?', 'http://a/#', 'redis://localhost:6379/0']
MURLS = ['http://a.com,b.com/x', 'postgres://u:p@a:1,b:2,c/db?x=1#y', 'redis://h1,h2', 'https://example.com/', 'mongodb://u:p@[::1]:1,h2:2/d']
CPX = [0j, 1j, complex(0, -1), complex(1, -0.0), complex(0, -0.0), complex(-2, math.nan), complex(math.inf, math.nan), complex(math.nan, -0.0), complex(math.nan, -math.inf), 1 + 2j, -1.5 + 0j, 1e300 + 1e-300j, 0.1 + 0.2j, complex(math.inf, -math.inf), complex(1, math.nan)]


class ES(enum.Enum):
    a = 'x'
    b = 'y z'
    c = ''


class EI(enum.Enum):
    a = 1
    b = -2
    c = 2 ** 70


class EF(enum.Enum):
    a = 1.5
    b = -0.25


class EX(enum.Enum):
    n = None
    t = (1, 2)
    l = [1]
    i = 3
    s = 's'
    b = True


class II(enum.IntEnum):
    a = 1
    b = 0


class ISS(str, enum.Enum):
    a = 'q'


# name -> (schema, values, hashable, also valid from strings)
LEAVES = {
    'none': (cs.none_schema, [None], True),
    'bool': (cs.bool_schema, [True, False], True),
    'int': (cs.int_schema, INTS, True),
    'float': (cs.float_schema, FLOATS, True),
    'decimal': (cs.decimal_schema, DECS, True),
    'complex': (cs.complex_schema, CPX, True),
    'str': (cs.str_schema, STRS, True),
    'bytes': (cs.bytes_schema, BYT, True),
    'date': (cs.date_schema, DATES, True),
    'time': (cs.time_schema, TIMES + [t.replace(tzinfo=z) for t in TIMES for z in [UTC] + AWARE], True),
    'datetime': (cs.datetime_schema, [DT.combine(d, t) for d in DATES for t in TIMES] + [DT.combine(d, t, z) for d in DATES[1:-1] for t in TIMES for z in [UTC] + AWARE], True),
    'timedelta': (cs.timedelta_schema, tds_all(), True),
    'uuid': (cs.uuid_schema, UUIDS, True),
    'url': (cs.url_schema, [Url(x) for x in URLS], True),
    'murl': (cs.multi_host_url_schema, [MultiHostUrl(x) for x in MURLS], True),
    'enum-str': (lambda: cs.enum_schema(ES, list(ES)), list(ES), True),
    'enum-int': (lambda: cs.enum_schema(EI, list(EI), sub_type='int'), list(EI), True),
    'enum-float': (lambda: cs.enum_schema(EF, list(EF), sub_type='float'), list(EF), True),
    'enum-plain-str': (lambda: cs.enum_schema(ES, list(ES), sub_type='str'), list(ES), True),
    'intenum': (lambda: cs.enum_schema(II, list(II), sub_type='int'), list(II), True),
    'strenum': (lambda: cs.enum_schema(ISS, list(ISS), sub_type='str'), list(ISS), True),
    'literal': (lambda: cs.literal_schema(['a', '', 'é', 1, 0, 2 ** 65, None]), ['a', '', 'é', 1, 0, 2 ** 65, None], True),
    'literal-bool': (lambda: cs.literal_schema([True, False, 'true']), [True, False, 'true'], True),
    'any': (cs.any_schema, [None, True, 1, 'x', [1, {'a': []}], 1.5], False),
    'nullable-int': (lambda: cs.nullable_schema(cs.int_schema()), [None, 5], True),
    'union': (lambda: cs.union_schema([cs.int_schema(), cs.str_schema(), cs.float_schema(), cs.bool_schema(), cs.none_schema(), cs.list_schema(cs.int_schema())]), [1, '1', 1.5, True, False, None, [1], [], '', 'NaN'], False),
    'union-temporal': (lambda: cs.union_schema([cs.date_schema(), cs.datetime_schema(), cs.time_schema(), cs.timedelta_schema()]), [date(2020, 1, 2), DT(2020, 1, 2, 3), DT(2020, 1, 2), time(1, 2), timedelta(1, 2)], True),
}
ENUM_X = {'enum-mixed': (lambda: cs.enum_schema(EX, list(EX)), [EX.n, EX.l, EX.i, EX.s, EX.b], True)}
LEAVES.update(ENUM_X)


class FM(Model):
    pass


class FR(Model):
    pass


class FX(Model):
    pass


@dataclasses.dataclass
class FD:
    f: object
    g: object = None


@dataclasses.dataclass
class FDS:
    __slots__ = ('f',)
    f: object


def nohash(v):
    try:
        hash(v)
        return False
    except TypeError:
        return True


def opt(x):
    return cs.nullable_schema(x)


CONT = {
    'root': (lambda s: s, lambda vs: vs),
    'list': (cs.list_schema, lambda vs: [[], list(vs)]),
    'tuple': (lambda s: cs.tuple_schema([cs.int_schema(), s]), lambda vs: [(1, v) for v in vs]),
    'tuple*': (lambda s: cs.tuple_schema([s], variadic_item_index=0), lambda vs: [(), tuple(vs)]),
    'set': (cs.set_schema, lambda vs: [set(), set(vs)]),
    'frozenset': (cs.frozenset_schema, lambda vs: [frozenset(vs)]),
    'dict': (lambda s: cs.dict_schema(cs.str_schema(), s), lambda vs: [{}, {str(i): v for i, v in enumerate(vs)}]),
    'key': (lambda s: cs.dict_schema(s, cs.int_schema()), lambda vs: [{}, {v: i for i, v in enumerate(vs)}] + [{v: 0} for v in vs[:50]]),
    'default': (lambda s: cs.with_default_schema(s, default=None), lambda vs: vs),
    'model': (lambda s: cs.model_schema(FM, cs.model_fields_schema({'f': cs.model_field(s), 'g': cs.model_field(cs.list_schema(s))})), lambda vs: [mk(FM, f=v, g=[v]) for v in vs]),
    'root-model': (lambda s: cs.model_schema(FR, s, root_model=True), lambda vs: [mk(FR, root=v) for v in vs]),
    'extras': (lambda s: cs.model_schema(FX, cs.model_fields_schema({'f': cs.model_field(cs.int_schema())}, extras_schema=s, extra_behavior='allow'), extra_behavior='allow'),
               lambda vs: [mk(FX, extra={f'k{i}': v for i, v in enumerate(vs)}, fs=['f'] + [f'k{i}' for i in range(len(vs))], f=1), mk(FX, extra={}, f=2)]),
    'dataclass': (lambda s: cs.dataclass_schema(FD, cs.dataclass_args_schema('FD', [cs.dataclass_field('f', s), cs.dataclass_field('g', s)]), ['f', 'g']), lambda vs: [FD(v, v) for v in vs]),
    'slots': (lambda s: cs.dataclass_schema(FDS, cs.dataclass_args_schema('FDS', [cs.dataclass_field('f', s)]), ['f'], slots=True), lambda vs: [FDS(v) for v in vs]),
    'typed-dict': (lambda s: cs.typed_dict_schema({'f': cs.typed_dict_field(s), 'g': cs.typed_dict_field(s, required=False)}), lambda vs: [{'f': v} for v in vs] + [{'f': v, 'g': v} for v in vs]),
    'definition': (lambda s: cs.definitions_schema(cs.list_schema(cs.definition_reference_schema('s')), [dict(s, ref='s')]), lambda vs: [list(vs)]),
    'json_or_python': (lambda s: cs.json_or_python_schema(s, s), lambda vs: vs),
    'lax_or_strict': (lambda s: cs.lax_or_strict_schema(s, s), lambda vs: vs),
    'after': (lambda s: cs.no_info_after_validator_function(lambda v: v, s), lambda vs: vs),
    'json': (lambda s: cs.json_schema(s), lambda vs: vs),
    'nested': (lambda s: cs.list_schema(cs.dict_schema(cs.str_schema(), cs.tuple_schema([s], variadic_item_index=0))), lambda vs: [[{'a': tuple(vs), 'b': ()}], [{}]]),
}
UNHASH = {'set', 'frozenset', 'key'}


def roundtrip(ctx, V, S, v, desc, js=False, tag=None, text_only=False, nokey=False):
    """every route out and in again"""
    def fail(route, got, out):
        ctx.fail(f'{route}: {tag}', value=rep(v, 300), out=rep(out, 300), got=rep(got, 300), **desc)
    want = canon(v)
    seen = None
    if not js:
        try:
            out = S.to_python(v)
        except Exception as e:
            guard(e, desc)
            return fail('to_python', e, None)
        got = outcome(V.validate_python, out)
        ctx.step()
        if got != ('ok', want):
            fail('python', got, out)
    try:
        out = S.to_python(v, round_trip=True)
        text = S.to_json(v, round_trip=True)
        pj = S.to_python(v, mode='json', round_trip=True)
    except Exception as e:
        guard(e, desc)
        return fail('serialize', e, None)
    ctx.step(3)
    got = outcome(V.validate_python, out)
    if got != ('ok', want):
        fail('python round trip', got, out)
    got = raw(V.validate_json, text)
    if got[0] != 'ok' or canon(got[1]) != want:
        fail('to_json', got, text)
    else:
        again = S.to_json(got[1], round_trip=True)
        if again != text and 'set in' not in str(tag) and not str(tag).endswith('set') and "'set'" not in str(tag) and "'frozenset'" not in str(tag):  # the order of sets is arbitrary
            fail('second text', again, text)
    try:
        t2 = json.dumps(pj, ensure_ascii=False)
    except Exception as e:
        return fail('json.dumps', e, pj)
    got = outcome(V.validate_json, t2)
    if got != ('ok', want):
        fail("mode='json'", got, t2)
    # and indented
    got = outcome(V.validate_json, S.to_json(v, round_trip=True, indent=2))
    if got != ('ok', want):
        fail('indented', got, '')
    ctx.ev('ok', (tag, text))


def suitable(lname, vs, cfg):
    if lname == 'bytes':
        return vs if cfg.get('ser_json_bytes', 'utf8') == 'utf8' else vs + NUTF
    if lname in ('timedelta', 'union-temporal') and cfg.get('ser_json_timedelta') == 'float':
        # a number in a union of temporal types may be any of them
        return [v for v in vs if small_td(v)] if lname == 'timedelta' else [date(2020, 1, 2), DT(2020, 1, 2, 3), time(1, 2)]
    if lname == 'float':
        return vs if cfg.get('ser_json_inf_nan', 'null') == 'null' else vs + NONFIN
    if lname == 'complex':
        return vs
    return vs


def leaves(ctx):
    for lname, cname in ctx.split(itertools.product(LEAVES, CONT)):
        mkl, vs0, hashable = LEAVES[lname]
        mkc, mkv = CONT[cname]
        if cname in UNHASH and not hashable:
            continue
        for ci, cfg in enumerate(SETTINGS):
            relevant = {'bytes': 'ser_json_bytes', 'timedelta': 'ser_json_timedelta', 'union-temporal': 'ser_json_timedelta', 'float': 'ser_json_inf_nan', 'complex': 'ser_json_inf_nan'}.get(lname)
            if ci and not relevant:
                continue
            if ci and ctx.quick and any(k != relevant and cfg[k] != d for k, d in (('ser_json_bytes', 'utf8'), ('ser_json_timedelta', 'iso8601'), ('ser_json_inf_nan', 'constants'))):
                continue
            vs = suitable(lname, vs0, cfg)
            if cname in UNHASH:
                vs = [v for v in vs if not nohash(v)]
                if lname in ('float',):
                    vs = [v for v in vs if v == v and not (v == 0 and str(v) == '-0.0')]
                if lname == 'complex':
                    vs = [v for v in vs if v == v]
                if lname == 'literal':
                    vs = [v for v in vs if v not in (0, None)] if cname == 'key' else vs
            if cname == 'key':
                vs = keyable(lname, vs, cfg)
                if not vs:
                    continue
            if lname == 'decimal' and cname in UNHASH:
                vs = list(dict.fromkeys(vs))
            sch = own_config(mkc(mkl()), cfg)
            V, S = SchemaValidator(sch, cfg or None), SchemaSerializer(sch, cfg or None)
            tag = f'{lname} in {cname}'
            ctx.sample(tag, cfg)
            # the values one by one, and for collections all at once
            many = cname in ('list', 'tuple*', 'set', 'frozenset', 'dict', 'key', 'extras', 'definition', 'nested')
            for v in (mkv(vs) if not many else [x for w in ([vs] + [[y] for y in vs]) for x in mkv(w)]):
                roundtrip(ctx, V, S, v, dict(cfg=cfg), js=cname == 'json', tag=tag)


def keyable(lname, vs, cfg):
    """values whose key text means the value again: a JSON key is a string"""
    if lname in ('none', 'nullable-int', 'enum-mixed', 'literal-bool', 'literal', 'literal-enum', 'union', 'enum-float', 'enum-int', 'intenum', 'any', 'union-temporal'):
        # str keys are not converted by literals and enums of other types, and 'None' is no None
        return {'literal': ['a', '', 'é'], 'enum-mixed': [EX.s], 'nullable-int': [5]}.get(lname, [])
    if lname == 'float':
        return [v for v in vs if math.isfinite(v)] if cfg.get('ser_json_inf_nan') != 'strings' else vs
    if lname == 'complex' or lname == 'timedelta' and cfg.get('ser_json_timedelta') == 'float':
        return []
    if lname == 'int':
        return vs
    if lname == 'url':
        return vs
    return vs


def own_config(sch, cfg):
    """records do not inherit the configuration"""
    if sch['type'] in ('model', 'dataclass', 'typed-dict') and cfg:
        sch['config'] = dict(cfg)
    return sch


# ---- containers in containers ------------------------------------------------------------------
def nest(ctx):
    small = {'int': [0, 2 ** 64], 'str': ['', 'é"\\'], 'date': [date(2020, 2, 29)], 'bytes': [b'a', b'\xff\x00'], 'decimal': [Decimal('1.10')], 'float': [1.5, math.inf], 'nullable-int': [None, 1]}
    cfg = dict(ser_json_bytes='base64', val_json_bytes='base64', ser_json_inf_nan='constants')
    names = [c for c in CONT if c != 'json']
    for chain in ctx.split(itertools.chain(itertools.product(names, names), () if ctx.quick else itertools.product(names, names, names))):
        for lname, vs in small.items():
            sch, ok = LEAVES[lname][0](), True
            vals = vs
            for c in reversed(chain):
                if c in UNHASH and (any(nohash(v) for v in vals) or any(not isinstance(v, (int, str, date, bytes, Decimal, float, tuple, frozenset)) for v in vals)):
                    ok = False
                    break
                if c == 'key' and (any(isinstance(v, (tuple, frozenset)) or v is None for v in vals) or lname == 'float' and math.inf in vals):
                    ok = False
                    break
                try:
                    vals = CONT[c][1](vals)[-2:]
                except TypeError:
                    ok = False
                    break
                sch = own_config(CONT[c][0](sch), cfg)
            if not ok:
                continue
            # one class cannot have two shapes
            cl = [c for c in chain if c in ('model', 'root-model', 'extras', 'dataclass', 'slots')]
            if 'definition' in chain[1:] or any(p == ('typed-dict', 'default') for p in zip(chain, chain[1:])):  # (the default of a field which is not required fills in)
                continue
            try:
                V, S = SchemaValidator(sch, cfg), SchemaSerializer(sch, cfg)
            except SchemaError as e:
                ctx.fail('schema', chain=chain, exc=e)
                continue
            for v in vals:
                roundtrip(ctx, V, S, v, dict(chain=chain), tag=f'{lname} in {chain}')


# ---- whole ranges ---------------------------------------------------------------------------------
def bulk(ctx, name, sch, cfg, values, key=True):
    """a list of many values at once, then a search for the one which fails"""
    L = cs.list_schema(sch)
    V, S = SchemaValidator(L, cfg or None), SchemaSerializer(L, cfg or None)
    V1, S1 = SchemaValidator(sch, cfg or None), SchemaSerializer(sch, cfg or None)
    for route in ('python', 'to_json', 'json'):
        bad = None
        try:
            if route == 'python':
                got = V.validate_python(S.to_python(values))
            elif route == 'to_json':
                text = S.to_json(values)
                got = V.validate_json(text)
                if S.to_json(got) != text:
                    bad = 'second text differs'
            else:
                got = V.validate_json(json.dumps(S.to_python(values, mode='json'), ensure_ascii=False))
        except Exception as e:
            guard(e, name)
            bad = e
            got = None
        n = len(values)
        ctx.step(n)
        ctx.ev('ok', (name, route, rep(values[0]), n), n)
        if bad is None and (len(got) != n or any(type(a) is not type(b) or a != b for a, b in zip(got, values)) or (canon(got) != canon(values) if 'aware' in name or 'offset' in name else repr(got) != repr(values))):
            bad = 'differs'
        if bad is not None:
            for v in values:
                r = outcome(lambda: V1.validate_python(S1.to_python(v)) if route == 'python' else V1.validate_json(S1.to_json(v)) if route == 'to_json' else V1.validate_json(json.dumps(S1.to_python(v, mode='json'))))
                if r != ('ok', canon(v)):
                    ctx.fail(f'range {name} {route}', value=rep(v), got=r, text=outcome(S1.to_json, v))
                    break
            else:
                ctx.fail(f'range {name} {route} only together', first=rep(values[0]), bad=rep(bad))
    if key:
        D = cs.dict_schema(sch, cs.int_schema())
        try:
            V, S = SchemaValidator(D, cfg or None), SchemaSerializer(D, cfg or None)
            d = {v: i for i, v in enumerate(values)}
            got = V.validate_json(S.to_json(d))
            ctx.step(len(d))
            ctx.ev('ok', (name, 'key', rep(values[0])), len(d))
            if got != d or [type(k) for k in got] != [type(k) for k in d] or list(got.items()) != list(d.items()):
                bad = next(((k, v) for k, v in d.items() if got.get(k) != v), None)
                ctx.fail(f'range {name} key', bad=rep(bad))
        except Exception as e:
            guard(e, name)
            ctx.fail(f'range {name} key', exc=rep(e))


def chunks(it, n):
    it = iter(it)
    while c := list(itertools.islice(it, n)):
        yield c


def next_floats(x):
    b = struct.unpack('<q', struct.pack('<d', x))[0]
    for d in (-2, -1, 0, 1, 2):
        if 0 <= b + d < 0x7ff0000000000000:
            yield struct.unpack('<d', struct.pack('<q', b + d))[0]


def floats(ctx):
    top = 100 if ctx.quick else 2000
    for k in range(-330, 311):
        for m in range(1, top):
            x = float(f'{m}e{k}')
            if math.isfinite(x) and x:
                yield x
    for k in range(-1074, 1024):
        for m in (1, 3, 5, 7, 0x1fffffffffffff):
            try:
                x = math.ldexp(m, k)
            except OverflowError:
                continue
            if math.isfinite(x):
                for y in next_floats(x):
                    yield y
                    yield -y
    for n in range(20001):
        yield n / 100
        yield n / 8 + 2 ** 50
        yield n + 2.0 ** 53 - 10000


def decimals():
    for digits in ('0', '1', '9', '10', '12', '100', '123', '1234567890123456789012345678901234567890'):
        for e in range(-60, 61):
            for s in ('', '-'):
                yield Decimal(f'{s}{digits}E{e}')
    for i in range(-2000, 2001):
        for e in range(4):
            yield Decimal(i).scaleb(-e)


def ranges(ctx):
    def gen():
        # the whole alphabet of text
        cps = [chr(c) for c in range(0x110000) if not 0xd800 <= c < 0xe000]
        for c in chunks(cps, 20000):
            yield 'code points', cs.str_schema(), {}, c
            yield 'code points in text', cs.str_schema(), {}, [f'a{x}"b' for x in c]
            yield 'code points twice', cs.str_schema(), {}, [x + x for x in c]
        two = [bytes(p) for p in itertools.product(range(256), repeat=2)]
        one = [bytes([i]) for i in range(256)]
        three = [bytes([a, b, a ^ b]) for a in range(0, 256, 5) for b in range(0, 256, 3)]
        for mode in ('base64', 'hex'):
            for c in chunks(one + two + three, 16384):
                yield f'bytes {mode}', cs.bytes_schema(), dict(ser_json_bytes=mode, val_json_bytes=mode), c
        ok = []
        for b in one + two:
            try:
                b.decode()
                ok.append(b)
            except UnicodeDecodeError:
                pass
        yield 'bytes utf8', cs.bytes_schema(), {}, ok
        for c in chunks((timedelta(microseconds=m) for m in range(0, 1000000, 1 if not ctx.quick else 7)), 40000):
            yield 'microseconds', cs.timedelta_schema(), {}, c
            yield 'microseconds negative', cs.timedelta_schema(), {}, [-x for x in c]
            yield 'microseconds float', cs.timedelta_schema(), dict(ser_json_timedelta='float'), [x + timedelta(36524) for x in c]
            yield 'time microseconds', cs.time_schema(), {}, [(DT.min + x).time() for x in c]
            yield 'datetime microseconds', cs.datetime_schema(), {}, [DT(1969, 12, 31, 23, 59, 59) + x for x in c]
        for c in chunks((timedelta(seconds=s) for s in range(86400)), 30000):
            yield 'seconds', cs.timedelta_schema(), {}, c
            yield 'seconds and days', cs.timedelta_schema(), {}, [x - timedelta(2) for x in c]
            yield 'seconds float', cs.timedelta_schema(), dict(ser_json_timedelta='float'), [x - timedelta(2) for x in c]
            yield 'time seconds', cs.time_schema(), {}, [(DT.min + x).time() for x in c]
            yield 'datetime seconds', cs.datetime_schema(), {}, [DT(2020, 2, 28) + x for x in c]
            yield 'datetime seconds aware', cs.datetime_schema(), {}, [DT(2020, 2, 28, tzinfo=TZN) + x for x in c]
        offs = [timezone(timedelta(minutes=m)) for m in range(-1439, 1440)]
        yield 'offsets', cs.datetime_schema(), {}, [DT(2020, 1, 1, 12, tzinfo=z) for z in offs]
        yield 'time offsets', cs.time_schema(), {}, [time(12, 1, tzinfo=z) for z in offs]
        years = [y for y in range(1, 10000) if not ctx.quick or y % 8 == 4 or y in (1, 2, 3, 1599, 1600, 1601, 1699, 1700, 1899, 1900, 1969, 1970, 2000, 9999)]
        for ys in chunks(years, 100):
            days = []
            for y in ys:
                d = date(y, 1, 1).toordinal()
                days += [date.fromordinal(i) for i in range(d, d + (366 if date(y, 12, 31).timetuple().tm_yday == 366 else 365))]
            yield 'dates', cs.date_schema(), {}, days
            yield 'datetimes', cs.datetime_schema(), {}, [DT.combine(d, time(23, 59, 59, 999999)) for d in days[::5]]
        for c in chunks((timedelta(days=d) for d in itertools.chain(range(-3000, 3000), range(-999999999, 1000000000, 99991))), 20000):
            yield 'days', cs.timedelta_schema(), {}, c
        for c in chunks(dict.fromkeys(floats(ctx)), 40000):
            yield 'floats', cs.float_schema(), {}, c
        yield 'ints', cs.int_schema(), {}, list(dict.fromkeys(s * (2 ** k + d) for k in range(0, 400) for d in (-1, 0, 1) for s in (1, -1))) + [10 ** k for k in range(21, 300)]
        yield 'small ints', cs.int_schema(), {}, list(range(-50000, 50000))
        yield 'decimals', cs.decimal_schema(), {}, list(decimals())
    for name, sch, cfg, values in ctx.split(gen()):
        bulk(ctx, name, sch, cfg, values, key=name not in ('decimals', 'code points twice') and cfg.get('ser_json_timedelta') != 'float')


# ---- the catalogue, options and records ------------------------------------------------------------
def catalogue(ctx):
    for z in ctx.split(ZOO):
        if not z.faithful or not z.good:
            continue
        sch = z.schema()
        for cfg in SETTINGS if not ctx.quick else SETTINGS[:4]:
            if any(isinstance(v, timedelta) and not small_td(v) for v in z.good) and cfg.get('ser_json_timedelta') == 'float':
                continue
            V, S = SchemaValidator(sch, cfg or None), SchemaSerializer(sch, cfg or None)
            for v in z.good:
                if z.name == 'complex' or getattr(v, '__pydantic_fields_set__', None) == {'a'} and z.name == 'model':  # see leaves and records
                    continue
                if z.json:
                    roundtrip(ctx, V, S, v, dict(cfg=cfg), tag=f'catalogue {z.name}')
                else:
                    got = outcome(V.validate_python, S.to_python(v))
                    ctx.ev(got[0], (z.name, rep(v)))
                    ctx.check(got == ('ok', canon(v)), f'python: catalogue {z.name}', v=v, got=got)


def records(ctx):
    """fields set, aliases, defaults, computed fields, extras, unions of records"""
    class P(Model):
        @property
        def area(self):
            return self.a * 2

    class Q(Model):
        pass
    KINDS = ['model', 'typed-dict', 'dataclass']
    for al_v, al_s, by_alias, vba, vbn in ctx.split(itertools.product([None, 'A', ['n', 'A']], [None, 'A', 'B'], [None, True, False], [None, True, False], [None, True, False])):
        for extra in ('ignore', 'allow', 'forbid'):
            for computed in (False, True):
                f = dict(validation_alias=[[al_v]] if isinstance(al_v, str) else [al_v] if al_v else None, serialization_alias=al_s)
                fields = {'a': cs.model_field(cs.int_schema(), **f), 'b': cs.model_field(cs.with_default_schema(cs.nullable_schema(cs.str_schema()), default='d')), 'c': cs.model_field(cs.with_default_schema(cs.list_schema(cs.int_schema()), default_factory=list))}
                cfg = {k: v for k, v in (('validate_by_alias', vba), ('validate_by_name', vbn), ('serialize_by_alias', by_alias)) if v is not None}
                if vba is False and not vbn:
                    continue
                sch = cs.model_schema(P, cs.model_fields_schema(fields, extra_behavior=extra, computed_fields=[cs.computed_field('area', cs.int_schema())] if computed else None), extra_behavior=extra, config=cfg)
                V, S = SchemaValidator(sch), SchemaSerializer(sch)
                out_name = al_s if by_alias and al_s else 'a'
                # the names the validator reads
                names = set()
                if (vba is not False) and al_v:
                    if isinstance(al_v, str):
                        names.add(al_v)
                if vbn or not al_v:
                    names.add('a')
                ok = out_name in names and not isinstance(al_v, list) or out_name == 'a' and vbn
                for vals in itertools.product([1, -5], ['d', None, 'x'], [[], [1]]):
                    for fset in ({'a', 'b', 'c'}, {'a'}, {'a', 'b'}, {'a', 'c'}):
                        d = dict(zip('abc', vals))
                        if 'b' not in fset and d['b'] != 'd' or 'c' not in fset and d['c'] != []:
                            continue
                        m = mk(P, fs=fset, extra={} if extra == 'allow' else None, **d)
                        if extra == 'allow':
                            m.__pydantic_extra__['zz'] = [1, None]
                            m.__pydantic_fields_set__.add('zz')
                        for o in ({}, {'exclude_unset': True}, {'exclude_defaults': True}):
                            for route in ('python', 'json', 'to_json'):
                                out = S.to_json(m, round_trip=True, **o) if route == 'to_json' else S.to_python(m, mode=route, round_trip=True, **o)
                                got = raw(V.validate_json if route == 'to_json' else V.validate_python, out)
                                ctx.step()
                                ctx.ev(got[0], (rep((al_v, al_s, by_alias, vba, vbn)), extra, computed, rep(d), rep(sorted(fset)), rep(o), route))
                                if not ok:
                                    continue
                                desc = dict(alias=(al_v, al_s), by_alias=by_alias, vba=vba, vbn=vbn, extra=extra, computed=computed, out=out, opts=o, route=route)
                                if ctx.check(got[0] == 'ok', f'record does not validate: {route}', got=got, **desc):
                                    r = got[1]
                                    ctx.check(canon(r.__dict__) == canon(m.__dict__) and canon(r.__pydantic_extra__) == canon(m.__pydantic_extra__), f'record differs: {route} {rep(o)}', got=r, want=m, **desc)
                                    if o == {'exclude_unset': True}:
                                        ctx.check(r.__pydantic_fields_set__ == m.__pydantic_fields_set__, f'fields set not kept: {route}', got=r, want=m, **desc)
                                    if o == {}:
                                        ctx.check(r.__pydantic_fields_set__ == set('abc') | set(m.__pydantic_extra__ or ()), f'fields set: {route}', got=r, **desc)


def explore(ctx):
    leaves(ctx)
    nest(ctx)
    catalogue(ctx)
    records(ctx)
    ranges(ctx)
