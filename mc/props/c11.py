"""C11: literal and enum membership: every list of expected values (up to a length) over an alphabet of look-alike
values x every input, in Python, JSON and strict mode; every kind of enum class likewise."""
import enum, itertools, json
from mc.lib import *
from mc.zoo import SStr, SInt, SFloat, SBytes, SList, Num, StrE, Color

LEVEL = 'exploration'
RULE = ('ordered lists of expected values over 19 look-alike values x 48 inputs; enum classes of 14 kinds x sub_type x missing hook x strict x input; '
        'Python, JSON and strict; non-trivial: the input equals (perhaps across types) an expected value')
BOUNDS = {'quick': 'all ordered lists of 1-3 expected values', 'thorough': 'all ordered lists of 1-3 and all sets of 4-5 expected values'}
ASSUME = ['a value of another type that compares and hashes equal is accepted when no expected value has its type (which of several equal ones is returned is not judged)',
          'the sub-type conversions of int, float and str enums are those of the int, float and str schemas (decided by C01)']

class Weird:
    def __eq__(self, o):
        return o == 'a'
    __hash__ = None

    def __repr__(self): return 'Weird()'


class BadEq:
    def __eq__(self, o): raise RuntimeError('eq')
    __hash__ = None
    def __repr__(self): return 'BadEq()'


VALUES = [0, 1, True, False, 'a', '1', '', b'a', None, 1.5, Num.one, StrE.a, Color.red, 2 ** 70, (1,), [1], 'red', Weird(), BadEq()]


class Raises:
    def __eq__(self, o):
        raise RuntimeError('eq')

    def __hash__(self):
        raise RuntimeError('hash')


INPUTS = VALUES[:-1] + [2, -1, 1.0, 0.0, 2.0 ** 70, decimal.Decimal(1), decimal.Decimal('1.5'), 1 + 0j, SInt(1), SInt(0), SStr('a'), SStr('1'), SBytes(b'a'), bytearray(b'a'), SFloat(1.5),
                   Num.two, StrE.b, Color.blue, 'b', 'A', b'1', SList([1]), [1.0], [True], (True,), {}, {1}, object(), Raises(), float('nan'), 10 ** 30]
JSONS = ['0', '1', 'true', 'false', '"a"', '"1"', '""', 'null', '1.5', '1180591620717411303424', '[1]', '"red"', '1.0', '0.0', '-1', '2', '{}', '[1.0]', '"b"', '"A"', '[true]', '1e0', '[]', '1' + '0' * 30, '"\\u0061"', 'NaN']


def lit_ref(expected, inp):
    """('one', member) type-exact, ('any', [members]) equal across types, None"""
    for e in expected:
        if type(e) is type(inp) and type(e) in (int, str, bool, bytes, float, type(None), tuple, list) and e == inp and not isinstance(e, (tuple, list)):
            return [e]
        if e is inp:
            return [e]
    eq = []
    try:
        h = hash(inp)
        hashable = True
    except Exception:
        hashable = False
    for e in expected:
        try:
            he = True
            hash(e)
        except TypeError:
            he = False
        try:
            if he and not hashable:
                continue
            if e == inp and (not he or hash(e) == h):
                eq.append(e)
        except Exception:
            pass
    return eq


def check_ok(ctx, got, cands, key, expected_repr, etype='literal_error', nontriv=None):
    if cands:
        ok = got[0] == 'ok' and any(got[1] is c for c in cands)
        ctx.check(ok, key, got=got, want=cands)
        ctx.ev('ok' if len(cands) == 1 else 'ok-any', nontriv or key)
    else:
        ok = got[0] == 'err'
        if ok:
            er = got[1].errors(include_url=False)
            ok = len(er) == 1 and er[0]['type'] == etype and er[0]['loc'] == () and (expected_repr is None or er[0]['ctx'] == {'expected': expected_repr})
        ctx.check(ok, key, got=got if got[0] != 'err' else got[1].errors(), want=(etype, expected_repr))
        ctx.ev('err', None)


def reprs(vals):
    r = [repr(v) for v in vals]
    return r[0] if len(r) == 1 else ', '.join(r[:-1]) + ' or ' + r[-1]


# ---- enums --------------------------------------------------------------
class EStr(enum.Enum):
    a = 'a'
    one = '1'


class EInt(enum.Enum):
    z = 0
    one = 1
    big = 2 ** 70


class EMix(enum.Enum):
    n = None
    i = 1
    s = 'a'
    b = b'x'
    t = (1, 2)
    f = 1.5


class EBool(enum.Enum):
    t = True
    f = False


class EFloat(float, enum.Enum):
    x = 1.5
    y = 2.0


class EIntE(enum.IntEnum):
    one = 1
    two = 2
    neg = -2 ** 63


class EStrE(str, enum.Enum):
    a = 'a'
    b = '1'


class EList(enum.Enum):
    l = [1]
    m = [2]


class EFlag(enum.Flag):
    r = 1
    w = 2


class EIntFlag(enum.IntFlag):
    r = 1
    w = 2


class EMissing(enum.Enum):
    a = 'a'
    d = 'dflt'

    @classmethod
    def _missing_(cls, v):
        return cls.d if v in ('zz', 7) else None


class EMissNone(enum.Enum):
    a = 'a'
    d = None

    @classmethod
    def _missing_(cls, v):
        return None


class EMissBad(enum.Enum):
    a = 'a'

    @classmethod
    def _missing_(cls, v):
        if v == 'zz':
            return 5
        if v == 'boom':
            raise ValueError('x')
        return None


class EAlias(enum.Enum):
    a = 'a'
    also_a = 'a'
    b = 'b'


class EVal:
    def __init__(self, x):
        self.x = x

    def __eq__(self, o):
        return isinstance(o, EVal) and o.x == self.x

    def __hash__(self):
        return hash(self.x)


class EObj(enum.Enum):
    p = EVal(1)
    q = EVal(2)


ENUMS = [(EStr, (None,)), (EInt, (None,)), (EMix, (None,)), (EBool, (None,)), (EFloat, (None, 'float')), (EIntE, (None, 'int')), (EStrE, (None, 'str')), (EList, (None,)), (EFlag, (None,)), (EIntFlag, (None, 'int')),
         (EMissing, (None,)), (EMissNone, (None,)), (EMissBad, (None,)), (EAlias, (None,)), (EObj, (None,))]
EINPUTS = [None, True, False, 0, 1, 2, 3, -1, 2 ** 70, -2 ** 63, 10 ** 30, 1.0, 1.5, 2.0, 0.5, float('nan'), float('inf'), 'a', '1', '2', ' 1 ', '1.5', '1.0', 'zz', 'boom', 'b', 'dflt', '', 'one', 'true', b'x', b'1', b'a', b'1.5', bytearray(b'a'),
           (1, 2), [1, 2], [1], (1,), SInt(1), SInt(2), SStr('a'), SStr('1'), SFloat(1.5), decimal.Decimal(1), decimal.Decimal('1.5'), 1 + 0j, EVal(1), EVal(3), object(), {}, 7]
EJSON = ['null', 'true', 'false', '0', '1', '2', '3', '-1', '1180591620717411303424', '-9223372036854775808', '1' + '0' * 30, '1.0', '1.5', '2.0', '0.5', '"a"', '"1"', '"2"', '" 1 "', '"1.5"', '"zz"', '"boom"', '"b"', '"dflt"', '""', '"one"', '"x"', '[1, 2]', '[1]', '{}', '7', 'NaN']
SUB = {'int': SchemaValidator(cs.int_schema()), 'str': SchemaValidator(cs.str_schema()), 'float': SchemaValidator(cs.float_schema())}


def sub_lookup(cls, sub, inp, mode, strict):
    r = raw(SUB[sub].validate_python, inp, strict=strict) if mode == 'python' else raw(SUB[sub].validate_json, inp, strict=strict)
    if r[0] != 'ok':
        return None
    want = {'int': int, 'str': str, 'float': float}[sub]
    for m in cls.__members__.values():
        v = m.value
        if sub == 'float':
            if isinstance(v, (int, float)) and v == r[1]:
                return m
        elif type(v) is want and v == r[1]:
            return m
    return None


def enum_ref(cls, sub, missing, strict, inp, mode, text):
    """candidate members, 'isinst' (strict), 'typeerr' or None"""
    if mode == 'python':
        if type(inp) is cls:
            return [inp]
        if strict:
            return 'isinst'
    members = list(cls.__members__.values())
    src = inp if mode == 'python' else text
    if sub:
        m = sub_lookup(cls, sub, src, mode, strict)
        if m is not None:
            return [m]
    else:
        c = lit_ref([m.value for m in members], inp)
        if c:
            return [m for m in members if any(m.value is x for x in c)]
        if not strict and mode == 'python':
            k = 'str' if isinstance(inp, str) else 'int' if isinstance(inp, (int, float)) else None
            if k:
                m = sub_lookup(cls, k, inp, mode, False)
                if m is not None:
                    return [m]
    if mode == 'python':
        try:
            return [cls(inp)]
        except Exception:
            pass
    if missing:
        try:
            r = cls._missing_(inp)
        except Exception:
            return None
        if isinstance(r, cls):
            return [r]
        if r is not None:
            return 'typeerr'
    return None


def explore(ctx):
    q = ctx.quick
    lists = [l for n in (1, 2, 3) for l in itertools.permutations(range(len(VALUES)), n)]
    if not q:
        lists += [l for n in (4, 5) for l in itertools.combinations(range(len(VALUES)), n)]
    for idx in ctx.split(lists):
        exp = [VALUES[i] for i in idx]
        v = SchemaValidator(cs.literal_schema(exp))
        er = reprs(exp)
        tag = f'literal {er}'
        for i, inp in enumerate(INPUTS):
            c = lit_ref(exp, inp)
            for st in (None, True) if len(idx) < 3 else (None,):
                check_ok(ctx, raw(v.validate_python, inp, strict=st), c, f'{tag} python {rep(inp)} {st}', er)
            if len(idx) < 3:
                ctx.check(v.isinstance_python(inp) is bool(c), f'{tag} isinstance {rep(inp)}')
        for t in JSONS:
            inp = json.loads(t)
            c = lit_ref(exp, inp)
            for st in (None, True) if len(idx) < 3 else (None,):
                check_ok(ctx, raw(v.validate_json, t, strict=st), c, f'{tag} json {t} {st}', er)
        ctx.sample(tag)
    for (cls, subs), st_schema in ctx.split(itertools.product(ENUMS, (None, True, False))):
        for sub, miss, part in itertools.product(subs, (False, True), (False, True)):
            kw = {}
            if sub:
                kw['sub_type'] = sub
            if miss:
                kw['missing'] = cls._missing_
            if st_schema is not None:
                kw['strict'] = st_schema
            members = list(cls.__members__.values())
            if part:
                members = members[::-1]
            v = SchemaValidator(cs.enum_schema(cls, members, **kw))
            er = reprs([m.value for m in members])
            for st in (None, True, False):
                strict = st if st is not None else bool(st_schema)
                tag = f'enum {cls.__name__} {sub} missing={miss} rev={part} strict={st_schema}/{st}'
                for mode, ins in (('python', EINPUTS + list(cls.__members__.values()) + [Color.red, StrE.a, Num.one, cls]), ('json', EJSON)):
                    for inp in ins:
                        text = inp
                        if mode == 'json':
                            inp = json.loads(text)
                        want = enum_ref(cls, sub, miss, strict, inp, mode, text)
                        got = raw(v.validate_python if mode == 'python' else v.validate_json, text, strict=st)
                        key = f'{tag} {mode} {rep(text)}'
                        if want == 'isinst':
                            ok = got[0] == 'err' and errs(got[1]) == (('is_instance_of', ()),)
                            ctx.check(ok, key, got=got, want=want)
                            ctx.ev('isinst', key)
                        elif want == 'typeerr':
                            ctx.check(got[0] == 'exc' and isinstance(got[1], TypeError), key, got=got, want=want)
                            ctx.ev('typeerr', key)
                        else:
                            check_ok(ctx, got, want, key, er, 'enum', key)
                        # the same inside containers and unions
                        if st is None and not part:
                            w = SchemaValidator(cs.list_schema(cs.enum_schema(cls, members, **kw)))
                            g2 = raw(w.validate_python, [text]) if mode == 'python' else raw(w.validate_json, f'[{text}]')
                            same = (g2[0] == got[0] == 'ok' and g2[1][0] is got[1]) or (g2[0] == got[0] == 'err' and [(x['type'], x['loc'], x['msg']) for x in g2[1].errors()] == [(x['type'], (0,) + x['loc'], x['msg']) for x in got[1].errors()]) \
                                or (g2[0] == got[0] == 'exc' and type(g2[1]) is type(got[1]))
                            ctx.check(same, key + ' in list', got=g2, want=got)
