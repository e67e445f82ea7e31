"""C20: serialization by inference.  Exhaustive product of values of every standard type (and subclasses and unknown types) x
nesting contexts x settings, against a reference table, through every route that infers."""
import base64, collections, enum, itertools, json, math, pathlib, re
from pydantic_core import to_json, to_jsonable_python
from mc.lib import *
from mc.zoo import *

LEVEL = 'exploration'
RULE = ('value of every type x nesting context (list, tuple, set, dict value, dict key, tuple key, dataclass, iterator, model field, two levels) x bytes/timedelta/inf_nan mode x '
        'fallback/serialize_unknown: to_jsonable_python, to_json, the any schema, schemas of other types (falling back) and python mode against the reference table; '
        'non-trivial: the value has a JSON form')
ASSUME = ['UTC offsets of whole minutes', 'to_jsonable_python leaves non-finite floats as they are unless the mode is null (as tested)', 'classes with an own metaclass for Enum are not judged']
BOUNDS = {'quick': '95 values x 20 contexts x 18 settings x 8 routes; all pairs of values in list and dict', 'thorough': 'all contexts composed twice'}


class Err(Exception):
    pass


class Unk:
    def __init__(self, n=0):
        self.n = n

    def __str__(self):
        return f'unk{self.n}'


class BadStr:
    def __str__(self):
        raise RuntimeError('no str')

    def __repr__(self):
        return 'BadStr()'


@dataclasses.dataclass(frozen=True)
class DCI:
    x: object
    y: int = 1


@dataclasses.dataclass
class DCV:
    x: object
    c: typing.ClassVar[int] = 3
    i: dataclasses.InitVar[int] = 4


class STuple(tuple):
    pass


class SSet(set):
    pass


class SDT(DT):
    pass


class SDate(date):
    pass


class STD(timedelta):
    pass


class SDec(Decimal):
    pass


class SBA(bytearray):
    pass


class SFS(frozenset):
    pass


class SCx(complex):
    pass


class EN(enum.Enum):
    a = 1
    b = (1, 2)
    c = None
    d = 'x'


class EI(enum.IntEnum):
    a = 5


class EF(enum.IntFlag):
    a = 1
    b = 2


class ESu(enum.Enum):
    a = 'q\ud800'


NT = collections.namedtuple('NT', 'p q')


class PS:
    """has its own serializer"""

    def __init__(self, a):
        self.a = a


PS.__pydantic_serializer__ = SchemaSerializer(cs.model_schema(PS, cs.model_fields_schema({'a': cs.model_field(cs.int_schema(), serialization_alias='A')})))


def scalars():
    return [None, True, False, 0, -1, 2 ** 70, SInt(5), SInt(2 ** 70), 0.0, -0.0, 1.5, 1e22, 5e-324, float('inf'), float('-inf'), float('nan'), SFloat(2.5), SFloat('nan'), '', 'abc', 'é\n"\x00', '\U0001f600', SStr('q'), '\ud800x', SStr('\udfff'), ESu.a, pathlib.Path('/a\udc80'), re.compile('x\udcff'),
            b'', b'abc', b'\xff\xfe?', SBytes(b'z'), bytearray(b'ab'), bytearray(b'\xff'), SBA(b'k'), Decimal('1.10'), Decimal('NaN'), Decimal('1E+5'), SDec('2'),
            date(2020, 2, 29), SDate(2020, 1, 1), DT(2020, 1, 1, 1, 2, 3), DT(2020, 1, 1, 1, 2, 3, 40, tzinfo=UTC), DT(2020, 1, 1, tzinfo=TZ), SDT(2021, 1, 1), time(1, 2), time(1, 2, 3, 4), time(1, tzinfo=UTC),
            timedelta(0), timedelta(1, 2, 3), timedelta(-1, 5), timedelta(days=400, microseconds=100000), timedelta(microseconds=-1), STD(2),
            UUID(int=7), Url('http://x.com/a'), MultiHostUrl('http://a.com,b.com/'), EN.a, EN.b, EN.c, EN.d, EI.a, EF.a | EF.b, Color.red, StrE.a, FlE.x, pathlib.PurePosixPath('a/b') if False else pathlib.Path('a/b'), re.compile('a+'), re.compile(b'a+'), 1 + 2j, -1.5j, 0j, SCx(1, 1),
            Unk(1), Unk(2), BadStr(), int, len, object, range(2), collections.deque([1]), types.MappingProxyType({}), Exception('e'), memoryview(b'a'), ..., typing.List[int]]


def containers():
    return [[], [1], (), (1, 'a'), set(), {1}, frozenset(), frozenset({2}), {}, {'a': 1}, {1: 2, None: 3, True: 4}, SList([1]), STuple((1,)), SSet({3}), SFS({4}), SDict(a=1), collections.OrderedDict(b=1, a=2),
            collections.defaultdict(int, {'z': 1}), collections.Counter('aab'), NT(1, 'x'), DCI(1), DCI((1, 2)), DCV(1, 2), D1(1, 'x'), PS(3), mk(M1, a=1, b='x')]


def iso_td(t):
    us = (t.days * 86400 + t.seconds) * 10 ** 6 + t.microseconds
    return us


TDRE = re.compile(r'^(-?)P(?:(\d+)Y)?(?:(\d+)D)?(?:T(?:(\d+)H)?(?:(\d+)M)?(?:(\d+)(?:\.(\d+))?S)?)?$')


class TD:
    """stands for any ISO 8601 duration text of this many microseconds"""

    def __init__(self, us):
        self.us = us

    def matches(self, s):
        m = TDRE.match(s) if isinstance(s, str) else None
        if not m:
            return False
        sg, y, d, h, mi, sec, fr = m.groups()
        us = ((int(y or 0) * 365 + int(d or 0)) * 86400 + int(h or 0) * 3600 + int(mi or 0) * 60 + int(sec or 0)) * 10 ** 6
        if fr:
            if len(fr) > 6:
                return False
            us += int(fr.ljust(6, '0'))
        return (-us if sg else us) == self.us


class CX:
    def __init__(self, c):
        self.c = c

    def matches(self, s):
        return isinstance(s, str) and complex(s) == self.c


class FB:
    def __init__(self, bytes_mode='utf8', timedelta_mode='iso8601', inf_nan_mode='constants', fallback=None, serialize_unknown=False):
        self.bytes_mode, self.timedelta_mode, self.inf_nan_mode, self.fallback, self.serialize_unknown = bytes_mode, timedelta_mode, inf_nan_mode, fallback, serialize_unknown

    def kw(self):
        d = dict(bytes_mode=self.bytes_mode, timedelta_mode=self.timedelta_mode, inf_nan_mode=self.inf_nan_mode)
        if self.fallback:
            d['fallback'] = self.fallback
        if self.serialize_unknown:
            d['serialize_unknown'] = True
        return d

    def cfg(self):
        return dict(ser_json_bytes=self.bytes_mode, ser_json_timedelta=self.timedelta_mode, ser_json_inf_nan=self.inf_nan_mode)


def by(b, s):
    b = bytes(b)
    if s.bytes_mode == 'utf8':
        try:
            return b.decode()
        except UnicodeDecodeError:
            raise Err('utf8')
    return base64.urlsafe_b64encode(b).decode() if s.bytes_mode == 'base64' else b.hex()


def utf8(s):
    """a text which JSON can hold: lone surrogates have no UTF-8 form and are refused, never replaced"""
    try:
        s.encode()
    except UnicodeEncodeError:
        raise Err('surrogate')
    return ''.join(s)


def iso(v):
    s = v.isoformat()
    return s[:-6] + 'Z' if isinstance(v, (DT, time)) and v.tzinfo is not None and s.endswith('+00:00') else s


def unknown(v, s):
    if s.fallback:
        return None
    if s.serialize_unknown:
        try:
            return str(v)
        except Exception:
            return f'<Unserializable {type(v).__qualname__} object>'
    raise Err('unknown')


KNOWN_ITER = (types.GeneratorType, map, type(iter([])))


def ref(v, s, jsontext):
    """the JSON form; jsontext: as JSON text has it, otherwise as to_jsonable_python gives it"""
    t = type(v)
    if v is None or t is bool:
        return v
    if isinstance(v, enum.Enum):
        return ref(v.value, s, jsontext)
    if isinstance(v, int):
        return int(v)
    if isinstance(v, float):
        if not math.isfinite(v):
            if s.inf_nan_mode == 'null':
                return None
            if jsontext and s.inf_nan_mode == 'strings':
                return 'NaN' if math.isnan(v) else 'Infinity' if v > 0 else '-Infinity'
        return float(v)
    if isinstance(v, str):
        return utf8(v) if jsontext else ''.join(v)
    if isinstance(v, (bytes, bytearray)):
        return by(v, s)
    if isinstance(v, Decimal) or isinstance(v, (UUID, Url, MultiHostUrl)):
        return str(v)
    if isinstance(v, (date, time)):
        return iso(v)
    if isinstance(v, timedelta):
        return TD(iso_td(v)) if s.timedelta_mode == 'iso8601' else v.total_seconds()
    if isinstance(v, complex):
        return CX(complex(v))
    if isinstance(v, (list, tuple, set, frozenset)) or isinstance(v, KNOWN_ITER):
        return [ref(x, s, jsontext) for x in v]
    if isinstance(v, dict):
        return {refkey(k, s): ref(x, s, jsontext) for k, x in v.items()}
    if isinstance(v, PS):
        return {'A': v.a}
    if dataclasses.is_dataclass(v) and not isinstance(v, type):
        return {f.name: ref(getattr(v, f.name), s, jsontext) for f in dataclasses.fields(v)}
    if isinstance(v, pathlib.Path):
        return utf8(str(v)) if jsontext else str(v)
    if isinstance(v, re.Pattern):
        return utf8(str(v.pattern)) if jsontext else str(v.pattern)
    u = unknown(v, s)
    if u is None:
        return ref(s.fallback(v), s, jsontext)
    return u


class Anything:
    def matches(self, x):
        return True


ANYTHING = Anything()


def refkey(k, s):
    t = type(k)
    if k is None:
        return 'None'
    if t is bool:
        return 'true' if k else 'false'
    if isinstance(k, enum.Enum):
        return refkey(k.value, s)
    if isinstance(k, float):
        if not math.isfinite(k) and s.inf_nan_mode == 'null':
            return 'None'
        return str(k)
    if isinstance(k, int):
        return str(int(k))
    if isinstance(k, str):
        return utf8(k)
    if isinstance(k, (bytes, bytearray)):
        return by(k, s)
    if isinstance(k, Decimal) or isinstance(k, (UUID, Url, MultiHostUrl)):
        return str(k)
    if isinstance(k, (date, time)):
        return iso(k)
    if isinstance(k, timedelta):
        if s.timedelta_mode == 'iso8601':
            return TDK(iso_td(k))
        return NumK(k.total_seconds())
    if isinstance(k, complex):
        return CXK(complex(k))
    if isinstance(k, tuple):
        ks = [refkey(x, s) for x in k]
        return ','.join(ks) if all(isinstance(x, str) for x in ks) else AnyKey()
    if isinstance(k, (list, set, frozenset, dict)) or isinstance(k, KNOWN_ITER):
        raise Err('key')
    if isinstance(k, PS) or dataclasses.is_dataclass(k) and not isinstance(k, type):
        try:
            hash(k)
        except TypeError:
            raise Err('unhashable')
        return str(k)
    if isinstance(k, pathlib.Path):
        return utf8(str(k))
    if isinstance(k, re.Pattern):
        return utf8(str(k.pattern))
    u = unknown(k, s)
    if u is None:
        return refkey(s.fallback(k), s)
    return u


class TDK(TD):
    pass


class CXK(CX):
    pass


class NumK:
    def __init__(self, x):
        self.x = x

    def matches(self, s):
        return isinstance(s, str) and re.fullmatch(r'-?[0-9.]+', s) is not None and float(s) == self.x


class AnyKey(Anything):
    pass


def match(got, want):
    if isinstance(want, (TD, CX, Anything)):
        return want.matches(got)
    if isinstance(want, dict):
        if not isinstance(got, dict) or len(got) != len(want):
            return False
        if all(isinstance(k, str) for k in want):
            return list(got) == list(want) and all(match(got[k], want[k]) for k in want)
        return all((k.matches(g) if not isinstance(k, str) else k == g) and match(got[g], want[k]) for k, g in zip(want, got))
    if isinstance(want, list):
        return type(got) is list and len(got) == len(want) and all(map(match, got, want))
    return canon(got) == canon(want)


def contexts():
    yield 'plain', lambda v: v
    yield 'list', lambda v: [v]
    yield 'list2', lambda v: [[], [v, v]]
    yield 'tuple', lambda v: (v, 1)
    yield 'set', lambda v: {v}
    yield 'frozenset', lambda v: frozenset([v])
    yield 'dict value', lambda v: {'k': v}
    yield 'dict key', lambda v: {v: 1, 'z': 2}
    yield 'tuple key', lambda v: {(v, 1): v}
    yield 'tuple key 2', lambda v: {((v,), (1, v)): 0}
    yield 'dataclass', lambda v: DCI(v)
    yield 'dataclass list', lambda v: [DCI([v])]
    yield 'iter', lambda v: iter([v, 1])
    yield 'gen', lambda v: (x for x in [v])
    yield 'map in list', lambda v: [map(lambda x: x, [v])]
    yield 'slist', lambda v: SList([v])
    yield 'namedtuple', lambda v: NT(v, [v])
    yield 'nested', lambda v: {'a': [({'b': v},)], 'c': {1: {2: v}}}
    yield 'ordered', lambda v: collections.OrderedDict([('q', v), (v, 'q')])
    yield 'dc key', lambda v: {DCI(v): 1}


def fb_str(v):
    return f'<{type(v).__name__}>'


def fb_list(v):
    return [type(v).__name__, b'a', {1: 2}]


def fb_raise(v):
    raise Err('fb')


def settings(quick):
    for b, t, i in itertools.product(('utf8', 'base64', 'hex'), ('iso8601', 'float'), ('null', 'constants', 'strings')):
        yield FB(b, t, i)
    for fb in (fb_str, fb_list, fb_raise):
        yield FB(fallback=fb)
    yield FB(serialize_unknown=True)
    yield FB('base64', 'float', 'strings', serialize_unknown=True)
    yield FB(fallback=fb_str, serialize_unknown=True)


MIS = [('int', cs.int_schema), ('list', lambda: cs.list_schema(cs.url_schema())), ('model', lambda: cs.model_fields_schema({})), ('union', lambda: cs.union_schema([cs.uuid_schema(), cs.timedelta_schema()]))]


def run(fn):
    with warnings.catch_warnings(record=True):
        warnings.simplefilter('always')
        try:
            return 'ok', fn()
        except Exception as e:
            guard(e, 'infer')
            return 'exc', type(e).__name__, str(e)[:200]


def is_misfit(name, v):
    """the schema does not match the value or gives the same result anyway"""
    t = type(v)
    if name == 'int':
        return not isinstance(v, int)
    if name == 'list':
        return not isinstance(v, list)
    if name == 'model':
        return not isinstance(v, dict)
    return not isinstance(v, (UUID, timedelta))


def refpy(v, s):
    """what python mode gives"""
    if isinstance(v, enum.Enum):
        return v
    if isinstance(v, tuple):
        return tuple(refpy(x, s) for x in v)
    if isinstance(v, list):
        return [refpy(x, s) for x in v]
    if isinstance(v, frozenset):
        return frozenset(refpy(x, s) for x in v)
    if isinstance(v, set):
        return set(refpy(x, s) for x in v)
    if isinstance(v, dict):
        return {k: refpy(x, s) for k, x in v.items()}
    if isinstance(v, KNOWN_ITER):
        return Lazy([refpy(x, s) for x in v])
    if isinstance(v, PS):
        return {'A': v.a}
    if dataclasses.is_dataclass(v) and not isinstance(v, type):
        return {f.name: refpy(getattr(v, f.name), s) for f in dataclasses.fields(v)}
    if s.fallback and is_unknown(v):
        return refpy(s.fallback(v), s)
    return v


def is_unknown(v):
    try:
        ref(v, FB('hex'), False)
        return False
    except Err as e:
        return str(e) == 'unknown'


def drain(x):
    if type(x) is dict:
        x = x.values()
    if type(x).__name__ == 'SerializationIterator' or isinstance(x, (list, tuple, set, frozenset)) or type(x).__name__ == 'dict_values':
        for y in x:
            drain(y)


class Lazy:
    def __init__(self, xs):
        self.xs = xs


def matchpy(got, want):
    if isinstance(want, Lazy):
        return type(got).__name__ == 'SerializationIterator' and matchpy(list(got), want.xs)
    if type(want) in (list, tuple):
        return type(got) is type(want) and len(got) == len(want) and all(map(matchpy, got, want))
    if type(want) is dict:
        return type(got) is dict and [k for k in got] == [k for k in want] and all(matchpy(got[k], want[k]) for k in want)
    if type(want) in (set, frozenset):
        return type(got) is type(want) and sorted(map(repr, got)) == sorted(map(repr, want))
    if got is want:
        return True
    return type(got) is type(want) and canon(got) == canon(want)


def check(ctx, cname, mkv, s, anyser, mis):
    wants = []
    for text in (False, True):
        try:
            wants.append((ref(mkv(), s, text), None))
        except Err as e:
            wants.append((None, str(e)))
    kw = s.kw()
    skw = {'by_alias': True}
    if s.fallback:
        skw['fallback'] = s.fallback
    routes = [('to_jsonable_python', lambda: to_jsonable_python(mkv(), **kw), 0), ('to_json', lambda: json.loads(to_json(mkv(), **kw)), 1)]
    if not s.serialize_unknown:
        routes += [('any json mode', lambda: anyser.to_python(mkv(), mode='json', **skw), 0), ('any to_json', lambda: json.loads(anyser.to_json(mkv(), **skw)), 1)]
        for n, m in mis:
            if is_misfit(n, mkv()):
                routes += [(f'{n} json mode', lambda m=m: m.to_python(mkv(), mode='json', warnings=False, **skw), 0), (f'{n} to_json', lambda m=m: json.loads(m.to_json(mkv(), warnings=False, **skw)), 1)]
    for rname, fn, text in routes:
        ctx.step()
        r = run(fn)
        want, bad = wants[text]
        if bad is not None:
            ctx.ev('bad', None)
            ctx.check(r[0] == 'exc', f'accepted a value without JSON form: {rname}', value=rep(mkv()), context=cname, got=repr(r), want=bad, settings=repr(kw))
            if r[0] == 'exc':
                ok = 'PydanticSerializationError' in r[1] or 'surrogates' in r[2] if bad in ('unknown', 'utf8') else True
                ctx.check(ok or r[1] in ('TypeError', 'ValueError', 'UnicodeDecodeError', 'Err') or 'surrogates' in r[2], f'wrong exception: {rname}', value=rep(mkv()), context=cname, got=repr(r), want=bad)
            continue
        if r[0] == 'exc':
            if 'surrogates' in r[2]:
                continue     # surrogates as values of to_python(mode='json'): kept or refused
            ctx.ev('exc', None)
            ctx.fail(f'rejected: {rname}: {type(mkv()).__name__}', value=rep(mkv()), context=cname, got=repr(r), want=repr(want), settings=repr(kw))
            continue
        ctx.ev('ok', (cname, type(mkv()).__name__, rname))
        if not match(r[1], want):
            ctx.fail(f'form: {rname}: {cname}', value=rep(mkv()), got=repr(r)[:300], want=repr(want)[:300], settings=repr(kw))
    # python mode
    if not s.serialize_unknown and s.bytes_mode == 'utf8' and s.timedelta_mode == 'iso8601':
        for rname, ser in [('any', anyser)] + [(n, m) for n, m in mis if is_misfit(n, mkv())]:
            r = run(lambda: ser.to_python(mkv(), warnings=False, **skw))
            try:
                want = refpy(mkv(), s)
            except Err:
                if r[0] == 'ok':
                    r = run(lambda: drain(r[1]))
                ctx.check(r[0] == 'exc', 'python mode: failing fallback ignored', value=rep(mkv()), got=repr(r))
                continue
            except TypeError:
                continue  # an unhashable result in a set
            ctx.step()
            ctx.ev('py', None)
            if r[0] == 'exc' or not matchpy(r[1], want):
                ctx.fail(f'python mode: {rname}: {cname}', value=rep(mkv()), got=repr(r)[:300], want=repr(want)[:300], settings=repr(kw))


def by_identity(cname, v):
    """a fresh value each time, hashed by identity (iterators)"""
    return ('key' in cname or 'set' in cname or cname == 'ordered') and has_iter(v)


def has_iter(v):
    if isinstance(v, KNOWN_ITER):
        return True
    if dataclasses.is_dataclass(v) and not isinstance(v, type):
        return has_iter(v.__dict__)
    if isinstance(v, dict):
        return any(map(has_iter, v)) or any(map(has_iter, v.values()))
    return isinstance(v, (list, tuple, set, frozenset)) and any(map(has_iter, v))


def value_factories():
    for k, v in enumerate(scalars() + containers()):
        yield lambda v=v: v
    yield lambda: iter([1, 'a'])
    yield lambda: (x for x in [1, None])
    yield lambda: map(str, [1])


def surrogate_keys(ctx):
    """keys which no JSON text can hold are refused under every key schema, as values are"""
    class Own:
        def __str__(self):
            return 'o\ud800'

        def __repr__(self):
            return 'Own()'
    pf = lambda **kw: cs.plain_serializer_function_ser_schema(lambda v: 'f\udc00', **kw)
    schemas = {
        'str': cs.str_schema(), 'any': cs.any_schema(), 'int (misfit)': cs.int_schema(), 'to-string': cs.any_schema(serialization=cs.to_string_ser_schema()),
        'format': cs.any_schema(serialization=cs.format_ser_schema('')), 'plain': cs.any_schema(serialization=pf()), 'plain str': cs.any_schema(serialization=pf(return_schema=cs.str_schema())),
        'wrap': cs.str_schema(serialization=cs.wrap_serializer_function_ser_schema(lambda v, h: h(v), schema=cs.str_schema(), return_schema=cs.str_schema())),
        'nullable': cs.nullable_schema(cs.str_schema()), 'default': cs.with_default_schema(cs.str_schema(), default='x'), 'union': cs.union_schema([cs.int_schema(), cs.str_schema()]),
        'literal': cs.literal_schema(['a', 1]), 'literal surrogate': cs.literal_schema(['a', None, 1.5]), 'enum': cs.enum_schema(ESu, list(ESu), sub_type='str'), 'json-or-python': cs.json_or_python_schema(cs.str_schema(), cs.str_schema()),
        'after': cs.no_info_after_validator_function(lambda v: v, cs.str_schema()), 'tuple': cs.tuple_schema([cs.str_schema()]), 'tuple any': cs.tuple_schema([cs.any_schema()], variadic_item_index=0),
        'definitions': cs.definitions_schema(cs.definition_reference_schema('sk'), [cs.str_schema(ref='sk')]), 'is-instance': cs.is_instance_schema(pathlib.Path), 'url (misfit)': cs.url_schema(),
    }
    keys = ['\ud800', 'a\udfff', SStr('\udc00b'), ESu.a, pathlib.Path('/\udc81'), re.compile('\udc82'), ('\ud800',), (1, SStr('\ud801')), (pathlib.Path('\udc83'), 'x')]
    for name, k in ctx.split(list(itertools.product(schemas, keys + [Own()]))):
        if isinstance(k, Own) and name not in ('to-string', 'format'):
            continue
        if name in ('to-string', 'format') and not any('\ud800' <= c <= '\udfff' for c in str(k)):
            continue        # the text is a repr, which escapes them
        for outer in (lambda s: s, lambda s: cs.list_schema(s), lambda s: cs.typed_dict_schema({'f': cs.typed_dict_field(s)})):
            w = outer(cs.any_schema())['type']
            ser = SchemaSerializer(outer(cs.dict_schema(schemas[name], cs.int_schema())))
            for val in ({k: 1}, {'ok': 2, k: 1}):
                v = [val] if w == 'list' else {'f': val} if w == 'typed-dict' else val
                for rname, fn in (('to_json', lambda: ser.to_json(v, warnings=False)), ('json mode', lambda: ser.to_python(v, mode='json', warnings=False))):
                    r = run(fn)
                    ctx.step()
                    ctx.ev('surrogate key', ('sk', name, repr(k), rname, w, len(val)))
                    ctx.check(r[0] == 'exc', f'surrogate key: {name}: {rname}', item=ascii(k), got=ascii(r), within=w)


def explore(ctx):
    surrogate_keys(ctx)
    vals = list(value_factories())
    cxs = list(contexts())

    def work():
        for s in settings(ctx.quick):
            for c in cxs:
                yield s, c
    for s, (cname, cf) in ctx.split(work()):
        anyser = SchemaSerializer(cs.any_schema(), s.cfg())
        mis = [(n, SchemaSerializer(m(), s.cfg())) for n, m in MIS]
        ctx.state((cname, repr(s.kw())))
        for f in vals:
            try:
                cf(f())
            except TypeError:
                continue
            if by_identity(cname, f()):
                continue
            check(ctx, cname, lambda: cf(f()), s, anyser, mis)
        if not ctx.quick:
            for c2, cf2 in cxs:
                for f in vals:
                    try:
                        cf(cf2(f()))
                    except TypeError:
                        continue
                    if by_identity(cname, cf2(f())) or by_identity(c2, f()):
                        continue
                    check(ctx, f'{cname} of {c2}', lambda: cf(cf2(f())), s, anyser, [])
        ctx.sample(cname, repr(s.kw()))
        ctx.trace_done()

    # pairs: no state leaks from one value to the next
    s = FB()
    anyser = SchemaSerializer(cs.any_schema(), s.cfg())
    for f in ctx.split(vals):
        for g in vals:
            check(ctx, 'pair', lambda: [f(), g(), f()], s, anyser, [])
            try:
                {f(): 1, g(): 2}
            except TypeError:
                continue
            if by_identity('key', f()) or by_identity('key', g()):
                continue
            if f() is None or g() is None or f() != g():
                check(ctx, 'key pair', lambda: {f(): g(), g(): f()}, s, anyser, [])

    # the fallback is called exactly once per unknown value, in order
    for cname, cf in ctx.split(cxs):
        for route in ('to_jsonable_python', 'to_json', 'any json mode', 'any to_json', 'any python'):
            log = []

            def fb(v):
                log.append(v)
                return 'fb'
            u = Unk(1)
            anyser = SchemaSerializer(cs.any_schema())
            n = {'list2': 2, 'tuple key': 2, 'tuple key 2': 2, 'namedtuple': 2, 'nested': 2, 'ordered': 2, 'dc key': 0}.get(cname, 1)
            if route == 'any python':
                n = {'tuple key': 1, 'tuple key 2': 0, 'ordered': 1, 'dict key': 0, 'iter': 1}.get(cname, n)

            def deep(x):
                if type(x).__name__ == 'SerializationIterator':
                    for y in x:
                        deep(y)
                elif type(x) in (list, tuple):
                    for y in x:
                        deep(y)
            r = run(lambda: {'to_jsonable_python': lambda: to_jsonable_python(cf(u), fallback=fb), 'to_json': lambda: to_json(cf(u), fallback=fb),
                             'any json mode': lambda: anyser.to_python(cf(u), mode='json', fallback=fb), 'any to_json': lambda: anyser.to_json(cf(u), fallback=fb),
                             'any python': lambda: deep(anyser.to_python(cf(u), fallback=fb))}[route]())
            ctx.ev('fallback', (cname, route))
            ctx.check(r[0] == 'ok' and log == [u] * n, f'fallback calls: {route}: {cname}', calls=len(log), want=n, got=repr(r))

    # fallbacks which return unknown values again, cycles
    for route in ctx.split(['to_jsonable_python', 'to_json', 'any json mode', 'any to_json']):
        anyser = SchemaSerializer(cs.any_schema())

        def call(v, **kw):
            if route.startswith('any') and 'serialize_unknown' in kw:
                return 'ok', None
            return run(lambda: {'to_jsonable_python': lambda: to_jsonable_python(v, **kw), 'to_json': lambda: json.loads(to_json(v, **kw)),
                                'any json mode': lambda: anyser.to_python(v, mode='json', **kw), 'any to_json': lambda: json.loads(anyser.to_json(v, **kw))}[route]())
        for name, fb, want in (('same', lambda v: v, 'exc'), ('fresh', lambda v: Unk(v.n + 1), 'exc'), ('five', lambda v: Unk(v.n + 1) if v.n < 5 else 'done', 'ok'), ('pair', lambda v: [v], 'exc')):
            for cname, cf in cxs:
                if cname == 'dc key':
                    continue
                if cname in ('dict key', 'tuple key', 'tuple key 2', 'ordered', 'set', 'frozenset') and name == 'pair':
                    continue
                if 'key' in cname and name in ('same', 'fresh') or cname == 'ordered':
                    continue
                r = call(cf(Unk(0)), fallback=fb)
                ctx.ev('refallback', (name, cname, route))
                ctx.check(r[0] == want, f'fallback giving unknown values: {name}: {route}', context=cname, got=repr(r))
        lst = []
        lst.append(lst)
        d = {}
        d['d'] = [d]
        for cyc in (lst, d, [1, lst], {'a': lst}, (lst,)):
            r = call(cyc)
            ctx.ev('cycle', None)
            ctx.check(r[0] == 'exc' and 'Circular' in r[2], f'cycle: {route}', got=repr(r)[:200])
        shared = [1]
        r = call([shared, shared, {'a': shared}])
        ctx.check(r == ('ok', [[1], [1], {'a': [1]}]), f'shared: {route}', got=repr(r)[:200])
