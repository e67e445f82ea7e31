"""C01: scalar validation against an independently written conversion table.

The reference (conv_* below) is written over Python's exact integers / Fractions; inputs sit on, one below and one
above every bound, in every notation; short strings are enumerated exhaustively over an alphabet."""
import base64, itertools, re, json, math, string
from fractions import Fraction
from decimal import Decimal
import decimal
from uuid import UUID
from mc.lib import *
from mc.zoo import SStr, SInt, SFloat, SBytes, Num, StrE

LEVEL = 'exploration'
RULE = ('cartesian product of (scalar schema configurations with constraints at machine-word and precision boundaries) x (every notation of values on/around each bound: '
        'int, subclass, bool, float, Decimal, str, bytes, JSON number, JSON string, strings-mode) x (strict, lax), plus all strings up to a length over a grammar alphabet; '
        'a case is non-trivial when the value is within one of a bound, or is accepted in a converted form, or is in the exhaustive string set and starts with a grammar-relevant character')
ASSUME = ['the conversion tables of the pydantic documentation, as restated in conv_* of mc/props/c01.py', "float multiple_of is judged away from its documented 1e-9 tolerance only"]

SKIP = object()
WS = ' \t\n\r\x0b\x0c\x1f'
MAXI = 2 ** 63 - 1
MINI = -2 ** 63


class Err(Exception):
    def __init__(self, *types):
        self.types = types


RWS = ''.join(chr(c) for c in range(0x3001) if chr(c).isspace() and c not in (0x1c, 0x1d, 0x1e, 0x1f))  # White_Space property

INT_RE = re.compile(r'([+-]?)([0-9]+(?:_[0-9]+)*)(?:\.0+)?\Z')


def int_of_str(s):
    s2 = s.strip(RWS)
    m = INT_RE.match(s2)
    if not m:
        raise Err('int_parsing', 'int_parsing_size')
    digits = m.group(2).replace('_', '')
    if len(digits) > 4300 and digits[0] == '0' or len(digits) == 4300 and m.group(1):
        raise SkipCase
    if len(digits) > 4300:
        raise Err('int_parsing_size', 'int_parsing')
    return int(m.group(1) + digits)


def int_of_float(f):
    if math.isnan(f) or math.isinf(f):
        raise Err('finite_number')
    if f != int(f):
        raise Err('int_from_float')
    if not (MINI < f < 2 ** 63):
        raise Err('int_parsing_size')
    return int(f)


def conv_int(x, mode, strict):
    t = type(x)
    if mode == 'str':
        return int_of_str(x)
    if t is int:
        return x
    if t is bool:
        if strict:
            raise Err('int_type')
        return int(x)
    if isinstance(x, int):
        return int(x)
    if strict:
        raise Err('int_type')
    if isinstance(x, str):
        return int_of_str(x)
    if mode == 'py' and isinstance(x, bytes):
        try:
            return int_of_str(bytes(x).decode())
        except UnicodeDecodeError:
            raise Err('int_parsing')
    if isinstance(x, float):
        return int_of_float(float(x))
    if isinstance(x, Decimal):
        if not x.is_finite():
            raise Err('finite_number')
        if x != x.to_integral_value() if abs(x.adjusted()) < 1000 else SKIP:
            raise Err('int_from_float')
        return int(x)
    raise Err('int_type')


FLOAT_RE = re.compile(r'[+-]?(?:(?:[0-9]+\.?[0-9]*|\.[0-9]+)(?:[eE][+-]?[0-9]+)?|inf|infinity|nan)\Z', re.I)
NUMSTR = re.compile(r'[+-]?[0-9]+(?:_[0-9]+)*(?:\.[0-9]+(?:_[0-9]+)*)?(?:[eE][+-]?[0-9]+(?:_[0-9]+)*)?\Z')


def float_of_str(s):
    s2 = s.strip(RWS)
    if FLOAT_RE.match(s2):
        return float(s2)
    if '_' in s2:
        if s2.startswith('_') or s2.endswith('_') or '__' in s2 or s != s2:
            if s != s2 and NUMSTR.match(s2):
                raise SkipCase
            raise Err('float_parsing')
        if NUMSTR.match(s2):
            return float(s2.replace('_', ''))
        raise SkipCase  # an underscore in a position Python would refuse; left unjudged
    raise Err('float_parsing')


class SkipCase(Exception):
    pass


def conv_float(x, mode, strict):
    t = type(x)
    if mode == 'str':
        return float_of_str(x)
    if isinstance(x, bool):
        if strict:
            raise Err('float_type')
        return float(x)
    if isinstance(x, float):
        return x if t is float else float(x)
    if isinstance(x, (int, Decimal)):
        if mode == 'py' and isinstance(x, Decimal) and strict:
            pass
        try:
            return float(x)
        except OverflowError:
            if mode == 'json':
                raise SkipCase
            raise Err('float_type')
        except ValueError:
            raise Err('float_type')
    if strict:
        raise Err('float_type')
    if isinstance(x, str):
        return float_of_str(x)
    if mode == 'py' and isinstance(x, bytes):
        try:
            return float_of_str(bytes(x).decode())
        except UnicodeDecodeError:
            raise Err('float_parsing')
    raise Err('float_type')


TRUE = {'1', 't', 'y', 'on', 'yes', 'true'}
FALSE = {'0', 'f', 'n', 'no', 'off', 'false'}


def bool_of_str(s):
    if not s.isascii():
        raise Err('bool_parsing')
    l = s.lower()
    if l in TRUE:
        return True
    if l in FALSE:
        return False
    raise Err('bool_parsing')


def conv_bool(x, mode, strict):
    if mode == 'str':
        return bool_of_str(x)
    if isinstance(x, bool):
        return x
    if strict:
        raise Err('bool_type')
    if isinstance(x, str):
        return bool_of_str(x)
    if mode == 'py' and isinstance(x, bytes):
        try:
            return bool_of_str(bytes(x).decode())
        except UnicodeDecodeError:
            raise Err('bool_parsing')
    if isinstance(x, (int, float)) or mode == 'py' and isinstance(x, Decimal):
        if isinstance(x, Decimal) and x.is_snan():
            raise Err('bool_type')
        if x == 0 or x == 1:
            return bool(x)
        raise Err('bool_parsing', 'bool_type')
    raise Err('bool_type')


def conv_str(x, mode, strict, coerce=False):
    if isinstance(x, str):
        r = x if mode == 'str' or type(x) is str else str.__str__(x) + ''
        try:
            r.encode()
        except UnicodeEncodeError:
            raise SkipCase
        return ''.join(r) if not isinstance(r, str) or type(r) is not str else r
    if strict:
        raise Err('string_type')
    if isinstance(x, enum.Enum):
        raise SkipCase  # an enum member is taken as str(member.value); see C11
    if mode == 'py' and isinstance(x, (bytes, bytearray)):
        try:
            return bytes(x).decode()
        except UnicodeDecodeError:
            raise Err('string_unicode')
    if coerce and isinstance(x, (int, float, Decimal)) and not isinstance(x, bool):
        if mode == 'json':
            if isinstance(x, float):
                raise SkipCase
            return str(x)
        return str(x)
    raise Err('string_type')


def conv_bytes(x, mode, strict):
    if mode != 'py':
        if isinstance(x, str):
            return x.encode()
        raise Err('bytes_type')
    if isinstance(x, bytes):
        return x
    if strict:
        raise Err('bytes_type')
    if isinstance(x, str):
        try:
            return x.encode()
        except UnicodeEncodeError:
            raise Err('string_unicode')
    if isinstance(x, bytearray):
        return bytes(x)
    raise Err('bytes_type')


def dec_of_str(s):
    try:
        return Decimal(s)
    except decimal.DecimalException:
        raise Err('decimal_parsing')


def dec_of_json_float(x):
    # the shortest digits that round-trip, written without exponent and without a fraction of zero
    if not math.isfinite(x):
        return Decimal(repr(x))
    t = format(Decimal(repr(x)), 'f')
    return Decimal(t[:-2] if t.endswith('.0') else t)


def conv_decimal(x, mode, strict):
    if mode == 'str':
        return dec_of_str(x)
    if mode == 'json':
        if isinstance(x, bool) or not isinstance(x, (int, float, str)):
            raise Err('decimal_type')
        return dec_of_json_float(x) if isinstance(x, float) else dec_of_str(x) if isinstance(x, str) else Decimal(x)
    if isinstance(x, Decimal):
        return x
    if strict:
        raise Err('is_instance_of')
    if isinstance(x, bool):
        raise Err('decimal_type')
    if isinstance(x, int):
        return Decimal(x)
    if isinstance(x, str):
        return dec_of_str(str(x))
    if isinstance(x, float):
        return Decimal(repr(float(x)))
    raise Err('decimal_type')


UUID_RES = [re.compile(p, re.I) for p in (
    r'([0-9a-f]{32})\Z', r'([0-9a-f]{8}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{12})\Z',
    r'urn:uuid:([0-9a-f]{8}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{12})\Z', r'\{([0-9a-f]{8}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{12})\}\Z')]


def uuid_of_str(s):
    for r in UUID_RES:
        m = r.match(s)
        if m:
            if s[:1] in 'uU' and not s.startswith('urn:uuid:'):
                raise SkipCase
            return UUID(m.group(1))
    if s.startswith('urn:uuid:') or s.startswith('{'):
        raise SkipCase if re.search('[0-9a-f]{32}', s) else Err('uuid_parsing')
    raise Err('uuid_parsing')


def conv_uuid(x, mode, strict):
    if mode == 'py':
        if isinstance(x, UUID):
            return x
        if strict:
            raise Err('is_instance_of')
        if isinstance(x, bytes):
            try:
                return uuid_of_str(x.decode())
            except (Err, UnicodeDecodeError):
                if len(x) == 16:
                    return UUID(bytes=bytes(x))
                raise Err('uuid_parsing')
    if isinstance(x, str):
        return uuid_of_str(x)
    raise Err('uuid_type')


def conv_complex(x, mode, strict):
    if mode == 'py' and isinstance(x, complex):
        return complex(x)
    if mode == 'py' and strict:
        raise Err('is_instance_of')
    bad = Err('complex_type', 'complex_str_parsing')
    if isinstance(x, str):
        try:
            return complex(x)
        except ValueError:
            raise bad
    if strict:
        raise bad
    if isinstance(x, (int, float)) and not isinstance(x, bool) and (mode == 'json' or type(x) in (int, float)):
        try:
            return complex(x)
        except OverflowError:
            if mode == 'json':
                raise SkipCase
            raise bad
    raise bad


def conv_none(x, mode, strict):
    if x is None or mode == 'str' and False:
        return None
    raise Err('none_required')


# ---- constraints -------------------------------------------------------------
def frac(x):
    return Fraction(x)


def c_int(v, c):
    if 'multiple_of' in c and v % c['multiple_of'] != 0:
        raise Err('multiple_of')
    cmp_bounds(v, c)
    return v


def cmp_bounds(v, c):
    for k, t, f in (('le', 'less_than_equal', lambda a, b: a <= b), ('lt', 'less_than', lambda a, b: a < b),
                    ('ge', 'greater_than_equal', lambda a, b: a >= b), ('gt', 'greater_than', lambda a, b: a > b)):
        if k in c:
            if isinstance(v, float) and v != v or isinstance(v, Decimal) and v.is_nan() or not f(v, c[k]):
                raise Err(t)


def c_float(v, c):
    if not c.get('allow_inf_nan', True) and (math.isinf(v) or math.isnan(v)):
        raise Err('finite_number')
    if 'multiple_of' in c:
        if math.isinf(v) or math.isnan(v) or abs(v) > 1e300:
            raise SkipCase
        m = Fraction(c['multiple_of'])
        r = Fraction(v) % m
        dist = min(r, abs(m) - r)
        if dist > Fraction(3, 10 ** 9) and abs(v) < 2 ** 52:
            raise Err('multiple_of')
        if dist != 0 and dist >= Fraction(1, 10 ** 10) or abs(v) > 2 ** 52 and dist != 0:
            raise SkipCase
    cmp_bounds(v, c)
    return v


def c_decimal(v, c):
    if not c.get('allow_inf_nan', False) and not v.is_finite():
        raise Err('finite_number')
    if 'max_digits' in c or 'decimal_places' in c:
        if not v.is_finite():
            raise Err('finite_number')
        def dd(digits, e):
            if e >= 0:
                return 0, len(digits) + e
            return -e, max(len(digits), -e)
        _, dg, e = v.as_tuple()
        n = list(dg)
        ne = e
        while len(n) > 1 and n[-1] == 0:
            n.pop(); ne += 1
        if n == [0]:
            ne = 0
        p1, d1 = dd(dg, e)
        p2, d2 = dd(n, ne)
        md, dp = c.get('max_digits'), c.get('decimal_places')
        if md is not None and d1 > md and d2 > md:
            raise Err('decimal_max_digits')
        if dp is not None and p1 > dp and p2 > dp:
            raise Err('decimal_max_places')
        if md is not None and dp is not None:
            w = max(0, md - dp)
            if max(0, d1 - p1) > w and max(0, d2 - p2) > w:
                raise Err('decimal_whole_digits')
    if 'multiple_of' in c:
        if not v.is_finite():
            raise Err('multiple_of')
        if abs(v.adjusted()) > 4000:
            raise SkipCase
        if (Fraction(v) / Fraction(c['multiple_of'])).denominator != 1:
            raise Err('multiple_of')
    cmp_bounds(v, c)
    return v


def re_search(c, v):
    p = c['pattern']
    if isinstance(p, re.Pattern) or c.get('regex_engine') == 'python-re':
        return re.search(p, v)
    return re.search(p.replace('$', '\\Z').replace('\\s', '[' + RWS + ']'), v)  # the dialect of the Rust engine


def c_str(v, c):
    if c.get('strip_whitespace'):
        v = v.strip(RWS)
    if 'min_length' in c and len(v) < c['min_length']:
        raise Err('string_too_short')
    if 'max_length' in c and len(v) > c['max_length']:
        raise Err('string_too_long')
    if 'pattern' in c and not re_search(c, v):
        raise Err('string_pattern_mismatch')
    if c.get('to_lower'):
        v = v.lower()
    elif c.get('to_upper'):
        v = v.upper()
    return v


def c_bytes(v, c):
    if 'min_length' in c and len(v) < c['min_length']:
        raise Err('bytes_too_short')
    if 'max_length' in c and len(v) > c['max_length']:
        raise Err('bytes_too_long')
    return v


def c_uuid(v, c):
    if 'version' in c and v.version != c['version']:
        raise Err('uuid_version')
    return v


def c_id(v, c):
    return v


KINDS = {
    'int': (conv_int, c_int, cs.int_schema), 'float': (conv_float, c_float, cs.float_schema), 'bool': (conv_bool, c_id, cs.bool_schema),
    'str': (conv_str, c_str, cs.str_schema), 'bytes': (conv_bytes, c_bytes, cs.bytes_schema), 'decimal': (conv_decimal, c_decimal, cs.decimal_schema),
    'uuid': (conv_uuid, c_uuid, cs.uuid_schema), 'complex': (conv_complex, c_id, cs.complex_schema), 'none': (conv_none, c_id, cs.none_schema),
}


def reference(kind, c, mode, strict, x):
    conv, con, _ = KINDS[kind]
    try:
        if kind == 'str':
            v = conv(x, mode, strict, c.get('coerce_numbers_to_str', False))
        else:
            v = conv(x, mode, strict)
        return ('ok', canon(con(v, c)))
    except Err as e:
        return ('err', e.types)
    except (SkipCase, decimal.InvalidOperation):
        return ('skip',)


# ---- inputs ------------------------------------------------------------------
def number_inputs(values, fracs=()):
    """Every notation of the given integers / fractions, as (mode, input)"""
    seen = set()
    def out(mode, x):
        k = (mode, canon(x))
        if k not in seen:
            seen.add(k)
            return [(mode, x)]
        return []
    for n in values:
        for f in (n, SInt(n), Decimal(n), Decimal(n) + Decimal(0), Decimal(str(n) + '.0'), Decimal(str(n) + '.5')):
            yield from out('py', f)
        try:
            fl = float(n)
        except OverflowError:
            fl = None
        if fl is not None:
            for g in (fl, math.nextafter(fl, math.inf), math.nextafter(fl, -math.inf), SFloat(fl)):
                yield from out('py', g)
                if type(g) is float and not math.isinf(g):
                    yield from out('json', (repr(g), g))
                    yield from out('str', repr(g))
                    yield from out('py', repr(g))
        s = str(n)
        for t in (s, ' ' + s + '\n', s + '.0', s + '.00', s + '.5', '0' + s if n >= 0 else '-0' + s[1:], '+' + s if n >= 0 else s + '.', s + '_0', s + 'e0', s + '.'):
            yield from out('py', t)
            yield from out('json', (json.dumps(t), t))
            yield from out('str', t)
            yield from out('py', t.encode())
            yield from out('py', bytearray(t.encode()))
        yield from out('json', (s, n))
        yield from out('json', (s + '.0', float(s + '.0')) if abs(n) < 10 ** 300 else (s, n))
    for f in fracs:
        yield from out('py', f)
        yield from out('py', Decimal(repr(f)))
        if not (math.isinf(f) or math.isnan(f)):
            yield from out('json', (repr(f), f))
        else:
            yield from out('json', ({'inf': 'Infinity', '-inf': '-Infinity', 'nan': 'NaN'}[repr(f)], f))
        yield from out('py', repr(f))
        yield from out('str', repr(f))
        yield from out('json', (json.dumps(repr(f)), repr(f)))


def other_inputs():
    for x in (None, True, False, [], {}, (), b'', '', 'abc', b'\xff', bytearray(b'\xff'), SStr('1'), SBytes(b'1'), 1j, object(), Decimal('NaN'), Decimal('sNaN'), Decimal('Infinity'), Decimal('-Infinity'), Num.one, StrE.a,
              float('nan'), float('inf'), float('-inf'), UUID(int=5), [1], {'a': 1}, {1}, memoryview(b'1'), '\x00', '\ud800', '1\ud800', int, 'x' * 4300, '1' * 4300, '1' * 4301, '0' * 4301, '-' + '1' * 4300, '1_' * 2200 + '1'):
        yield ('py', x)
        if type(x) is str and '\ud800' not in x:
            yield ('str', x)
            yield ('json', (json.dumps(x), x))
    for j, x in (('null', None), ('true', True), ('false', False), ('[]', []), ('{}', {}), ('[1]', [1]), ('"\\u0000"', '\x00')):
        yield ('json', (j, x))


INTS = sorted({b + d for b in (0, 1, -1, 5, -5, 10, 2 ** 31, -2 ** 31, 2 ** 32, 2 ** 53, -2 ** 53, MAXI, MINI, 2 ** 64, -2 ** 64, 2 ** 127, 10 ** 20, -10 ** 20, 10 ** 40) for d in (-1, 0, 1)})
INTS_Q = [i for i in INTS if abs(i) < 10 or abs(i) >= 2 ** 53 - 1]
INT_BOUNDS = [-1, 0, 1, 5, MAXI, MINI, 2 ** 63, MINI - 1, 10 ** 20]
FLOATS = [0.0, -0.0, 0.5, 1.0, -1.0, 1.5, -1.5, 2.5, 0.1, 1e-9, 1e16, 2.0 ** 53, 1e22, 1e300, 1.7976931348623157e308, 5e-324, -5e-324, 2.2250738585072014e-308, 0.30000000000000004, 123456.789, float('inf'), float('-inf'), float('nan')]
FLOAT_BOUNDS = [0.0, -1.5, 1.0, 0.1, 1e16, 5e-324, 1e300, float('inf')]


def int_configs(ctx):
    yield {}
    for k in ('gt', 'ge', 'lt', 'le'):
        for b in INT_BOUNDS:
            yield {k: b}
    for m in (1, 2, 3, 5, 10, 2 ** 32, MAXI, 2 ** 63, 10 ** 20, -1, -3):
        yield {'multiple_of': m}
    for lo, hi in itertools.product([0, -5, MINI, MAXI], [1, 5, MAXI, 2 ** 64]):
        yield {'ge': lo, 'lt': hi}
        yield {'gt': lo, 'le': hi}
        yield {'gt': lo, 'le': hi, 'multiple_of': 5}
        if not ctx.quick:
            yield {'ge': hi, 'le': lo}
            yield {'gt': lo, 'ge': lo, 'lt': hi, 'le': hi, 'multiple_of': 3}


def float_configs(ctx):
    yield {}
    yield {'allow_inf_nan': False}
    for k in ('gt', 'ge', 'lt', 'le'):
        for b in FLOAT_BOUNDS:
            yield {k: b}
            yield {k: b, 'allow_inf_nan': False}
    for m in (0.5, 1.0, 3.0, 0.1, 1e10):
        yield {'multiple_of': m}
    for lo, hi in itertools.product([0.0, -1.5], [1.0, 1e16]):
        yield {'ge': lo, 'lt': hi}
        yield {'gt': lo, 'le': hi, 'multiple_of': 0.5}


DECS = ['0', '-0', '0.0', '0E+3', '0E-5', '1', '1.0', '1.00', '1.10', '9.9', '9.99', '99.9', '99.99', '100', '100.0', '100.00', '999', '1E+2', '1E2', '1.5E+3', '1E-3', '0.001', '0.01', '0.010', '0.1', '00.1', '-1.1', '-9.99', '12.345', '123.4', '1234', '1234.5',
        '1' * 28, '1' * 29, '9' * 28, '9' * 29, '0.' + '1' * 28, '0.' + '1' * 29, '1.' + '0' * 40, '1.' + '0' * 40 + '1', '1' + '0' * 40, '9' * 28 + '.5', '1E+30', '1E-30', '123456789012345678901234567890.12', '1E+400', '1E-400', 'NaN', 'sNaN', 'Infinity', '-Infinity', '5', '10', '7', '21', '3.5', '0.7', '2.1', '49E+3', '1_0', ' 1 ', '１', 'abc', '', '1e', '--1', '0x1', '1E+999999', '1E-999999']


def decimal_configs(ctx):
    yield {}
    yield {'allow_inf_nan': True}
    for md in (1, 2, 3, 4, 28, 29, 30, None):
        for dp in (0, 1, 2, 28, 29, None):
            c = {}
            if md is not None:
                c['max_digits'] = md
            if dp is not None:
                c['decimal_places'] = dp
            if c:
                yield c
    for m in ('1', '2', '0.1', '7', '0.7', '1E+3', '1E-3', '1.00', '3', '1E+30', '-2'):
        yield {'multiple_of': Decimal(m)}
        yield {'multiple_of': Decimal(m), 'allow_inf_nan': True}
    for k in ('gt', 'ge', 'lt', 'le'):
        for b in ('0', '1.0', '9.99', '-1.1', '1' * 29, '1E+30', '0.' + '1' * 29):
            yield {k: Decimal(b)}
        yield {k: Decimal(1), 'allow_inf_nan': True}
    yield {'ge': Decimal(0), 'le': Decimal('9.99'), 'max_digits': 3, 'decimal_places': 2, 'multiple_of': Decimal('0.01')}


def decimal_inputs():
    for s in DECS:
        yield ('py', s); yield ('str', s); yield ('json', (json.dumps(s), s)); yield ('py', SStr(s))
        try:
            d = Decimal(s)
        except decimal.DecimalException:
            continue
        yield ('py', d)
        if d.is_finite() and abs(d.adjusted()) < 100:
            if d == int(d):
                yield ('py', int(d)); yield ('json', (str(int(d)), int(d)))
            f = float(d)
            if -5 < d.adjusted() < 15:
                yield ('py', f); yield ('json', (repr(f), f))


STRS = ['', 'a', 'ab', 'abc', 'abcd', ' a', 'a ', ' abc ', '\t\n', '\u00a0a\u00a0', '\u3000', 'é', 'ée', 'e\u0301', '\U0001f600', '\U0001f600\U0001f600', 'ß', 'SS', 'İ', 'ǆ', 'Σ', 'ΑΣ', 'ABC', 'aBc', '123', 'a\nb', '\x00', '\x1c', '\x1ca\x1f', '\x85a', '\u200ba', 'ﬁ', 'a1', '1a', '\u2028', '\ufeffa', 'x' * 33, 'é' * 33, 'x' * 64, 'x' * 65]


def str_configs(ctx):
    base = [{}, {'strip_whitespace': True}, {'to_lower': True}, {'to_upper': True}, {'strip_whitespace': True, 'to_upper': True}, {'strip_whitespace': True, 'to_lower': True}, {'coerce_numbers_to_str': True}]
    for b in base:
        for mn, mx in ((None, None), (0, 0), (1, None), (None, 1), (2, 2), (None, 2), (3, None), (1, 3), (33, 64), (None, 64)):
            c = dict(b)
            if mn is not None:
                c['min_length'] = mn
            if mx is not None:
                c['max_length'] = mx
            yield c
        for p in ('^[a-z]+$', '^a', 'b', r'^\d+$', '^$', 'A|é', '^.$', r'^\s'):
            yield dict(b, pattern=p)
    yield {'pattern': '^a', 'min_length': 2, 'max_length': 3}
    for p in ('^[a-z]+$', r'^(?=a)', r'(?<!a)b', r'^\s', r'^(a)\1?$', '$'):
        yield {'pattern': p, 'regex_engine': 'python-re'}
        yield {'pattern': re.compile(p, re.I)}
        yield {'pattern': re.compile(p, re.X | re.A), 'strip_whitespace': True, 'min_length': 1}


def str_inputs():
    for s in STRS:
        yield ('py', s); yield ('str', s); yield ('json', (json.dumps(s), s)); yield ('json', (json.dumps(s, ensure_ascii=False), s)); yield ('py', s.encode()); yield ('py', bytearray(s.encode())); yield ('py', SStr(s))
    for n in (0, -1, 123, MAXI, 2 ** 63, MINI - 1, 1.5, 1e22, Decimal('1.10'), True, 1j, None, SInt(4)):
        yield ('py', n)
        if type(n) in (int, float, bool, type(None)):
            yield ('json', (json.dumps(n), n))


UU = ['12345678-1234-%s234-%s234-567812345678' % (v, w) for v in '0123456789ab' for w in '078bcef']


def uuid_inputs(ctx):
    for u in UU[:] + ['00000000-0000-0000-0000-000000000000', 'ffffffff-ffff-ffff-ffff-ffffffffffff']:
        h = u.replace('-', '')
        yield ('py', UUID(u)); yield ('py', UUID(u).bytes); yield ('py', SBytes(UUID(u).bytes))
        for s in (u, h, u.upper(), 'urn:uuid:' + u, '{' + u + '}', u[:-1], u + '0', h[:-1], u.replace('-', '_'), 'g' + u[1:], u[:8] + u[9:], ' ' + u, '{' + u, u + '}', 'urn:uuid' + u, u[:9] + '-' + u[9:]):
            yield ('py', s); yield ('str', s); yield ('json', (json.dumps(s), s)); yield ('py', s.encode())
        yield ('py', bytearray(UUID(u).bytes))
    for x in (b'', b'x' * 15, b'x' * 17, b'\xff' * 16, 5, 5.5):
        yield ('py', x)


COMPLEX_STRS = ['1', '1j', 'j', '-j', '1+2j', '1-2j', '(1+2j)', '1 + 2j', ' 1+2j ', '1e3+1e-3j', 'nan+infj', 'inf', '1_0+2_0j', '+1', '1+2i', '', '1+j', '1j+2', '1e400j', '\u0661j', '(1', '1+2j\x00', 'abc', '0j', '-0-0j']


def run_group(ctx, kind, c, inputs):
    _, _, mk = KINDS[kind]
    try:
        vs = {False: SchemaValidator(mk(**c)), True: SchemaValidator(mk(**c, strict=True) if kind != 'none' else mk(**c))}
    except SchemaError as e:
        ctx.fail(f'{kind} {c} schema refused', err=str(e))
        return
    vl = vs[False]
    for mode, x in inputs:
        for strict in (False, True):
            if mode == 'json':
                text, val = x
                ref = reference(kind, c, mode, strict, val)
                runs = [('schema', lambda: vs[strict].validate_json(text)), ('arg', lambda: vl.validate_json(text, strict=strict))]
            elif mode == 'str':
                ref = reference(kind, c, mode, strict, x)
                runs = [('schema', lambda: vs[strict].validate_strings(x)), ('arg', lambda: vl.validate_strings(x, strict=strict))]
            else:
                ref = reference(kind, c, mode, strict, x)
                runs = [('schema', lambda: vs[strict].validate_python(x)), ('arg', lambda: vl.validate_python(x, strict=strict))]
            if kind == 'none':
                runs = runs[1:]
            for how, fn in runs:
                got = outcome(fn, with_input=False)
                judge(ctx, kind, c, mode, strict, how, x, ref, got)


def judge(ctx, kind, c, mode, strict, how, x, ref, got):
    label = f'{kind} {ref[0]}'
    if ref[0] == 'ok':
        ctx.ev(label, (kind, repr(c), mode, strict, how, rep_(x)))
        ctx.check(got == ref, f'{kind} {mode} {"strict" if strict else "lax"} {how} accept', c=c, x=rep_(x), ref=ref, got=got)
    elif ref[0] == 'err':
        ctx.ev(label + ' ' + ref[1][0], (kind, repr(c), mode, strict, how, rep_(x)) if c else None)
        ok = got[0] == 'err' and len(got[1]) == 1 and got[1][0][0] in ref[1] and got[1][0][1] == ()
        if mode == 'py' and got[0] == 'err' and len(got[1]) == 1 and isinstance(x, str) and '\ud800' in x:
            ok = True
        if mode == 'py' and strict and kind in ('decimal', 'uuid', 'complex') and got[0] == 'err' and len(got[1]) == 1:
            ok = True
        ctx.check(ok, f'{kind} {mode} {"strict" if strict else "lax"} {how} reject', c=c, x=rep_(x), ref=ref, got=got)
    else:
        ctx.ev(label)
        ctx.check(got[0] != 'exc', f'{kind} {mode} exception', c=c, x=rep_(x), got=got)


def rep_(x):
    r = repr(x)
    return r if len(r) < 200 else r[:100] + f'..{len(r)}..' + r[-30:]


def b64_ref(s):
    """base64 in the standard or in the URL-safe alphabet, padded as it should be or less, no bits left over"""
    t = s.rstrip('=')
    pad = len(s) - len(t)
    if len(t) % 4 == 1 or pad > -len(t) % 4:
        raise Err('bytes_invalid_encoding')
    import string
    for alph in (string.ascii_letters + string.digits + '-_', string.ascii_letters + string.digits + '+/'):
        if all(ch in alph for ch in t):
            alph = string.ascii_uppercase + string.ascii_lowercase + string.digits + alph[-2:]
            n = 0
            for ch in t:
                n = n * 64 + alph.index(ch)
            extra = len(t) * 6 % 8
            if n & ((1 << extra) - 1):
                raise Err('bytes_invalid_encoding')
            return (n >> extra).to_bytes(len(t) * 6 // 8, 'big')
    raise Err('bytes_invalid_encoding')


def hex_ref(s):
    if len(s) % 2 or any(ch not in '0123456789abcdefABCDEF' for ch in s):
        raise Err('bytes_invalid_encoding')
    return bytes.fromhex(s)


def encodings(ctx):
    """val_json_bytes: every short text over the characters that matter, and encoded bytes damaged in every place, in every mode; constraints see the decoded bytes"""
    alph = {'base64': 'Ag8-_+/= ' + ('' if ctx.quick else '\u00e9\n'), 'hex': '0aFgx \u00e9' + ('' if ctx.quick else '9-')}
    refs = {'base64': b64_ref, 'hex': hex_ref, 'utf8': lambda s: s.encode()}
    cfgs = [{}, {'min_length': 2}, {'max_length': 2}, {'strict': True}]
    for enc, head in ctx.split([(e, h) for e in ('base64', 'hex', 'utf8') for h in [''] + list(alph.get(e, 'A/'))]):
        vs = [(c, SchemaValidator(cs.bytes_schema(**c), {'val_json_bytes': enc})) for c in cfgs]
        a = alph.get(enc, 'A/=\u00e9')
        texts = [head + ''.join(t) for t in seqs(a, 4)] if head else ['']
        for n in range(1, 9):
            raw_ = bytes((i * 37 + ord(head or 'Z') * 11 + 250) % 256 for i in range(n))
            for t in (base64.b64encode(raw_).decode(), base64.urlsafe_b64encode(raw_).decode(), raw_.hex(), raw_.hex().upper()):
                texts.append(t)
                texts.append(t.rstrip('='))
                texts += [t[:i] + ch + t[i + 1:] for i in range(len(t)) for ch in a] + [t[:i] + ch + t[i:] for i in range(len(t) + 1) for ch in a]
        for s in dict.fromkeys(texts):
            try:
                base = ('ok', refs[enc](s))
            except Err as e:
                base = ('err', 'bytes_invalid_encoding')
            for c, v in vs:
                want = base
                if base[0] == 'ok':
                    want = ('err', 'bytes_too_short') if len(base[1]) < c.get('min_length', 0) else ('err', 'bytes_too_long') if len(base[1]) > c.get('max_length', 99) else base
                for mode, fn, x in (('py', v.validate_python, s), ('str', v.validate_strings, s), ('json', v.validate_json, json.dumps(s))):
                    w = ('err', 'bytes_type') if mode == 'py' and c.get('strict') else want
                    g = outcome(fn, x)
                    ok = g[0] == w[0] and (g[1] == canon(w[1]) if g[0] == 'ok' else len(g[1]) == 1 and g[1][0][0] == w[1])
                    ctx.check(ok, f'bytes as {enc} {c} {mode}', text=s, got=g, want=w)
                    ctx.ev(f'{enc} {w[0]}', (enc, s, len(c)))


def explore(ctx):
    q = ctx.quick
    encodings(ctx)
    jobs = []
    for c in int_configs(ctx):
        jobs.append(('int', c, lambda: itertools.chain(number_inputs(INTS_Q if q else INTS, FLOATS), other_inputs())))
    for c in float_configs(ctx):
        jobs.append(('float', c, lambda: itertools.chain(number_inputs(INTS_Q[::3] if q else INTS, FLOATS + [math.nextafter(b, d) for b in FLOAT_BOUNDS for d in (math.inf, -math.inf)]), other_inputs())))
    jobs.append(('bool', {}, lambda: itertools.chain(number_inputs([0, 1, -1, 2, 2 ** 63, MINI, 10 ** 20], FLOATS), other_inputs(), bool_strings(5 if q else 6))))
    for c in decimal_configs(ctx):
        jobs.append(('decimal', c, lambda: itertools.chain(decimal_inputs(), number_inputs([0, 1, -7, MAXI, 10 ** 40], [0.1, 1e22, 1.5, -0.0]) if q else number_inputs(INTS, FLOATS), other_inputs())))
    for c in str_configs(ctx):
        jobs.append(('str', c, lambda: itertools.chain(str_inputs(), other_inputs())))
    for c in [{}] + [dict(min_length=a, max_length=b) for a in (0, 1, 2, 3) for b in (1, 2, 3, 64)] + [{'max_length': 0}, {'min_length': 65}]:
        jobs.append(('bytes', c, lambda: itertools.chain(str_inputs(), other_inputs())))
    for c in [{}] + [{'version': v} for v in (1, 3, 4, 5, 6, 7, 8)]:
        jobs.append(('uuid', c, lambda: itertools.chain(uuid_inputs(ctx), other_inputs())))
    jobs.append(('complex', {}, lambda: itertools.chain(((m, x if m == 'py' else x if m == 'str' else (json.dumps(x), x)) for x in COMPLEX_STRS for m in ('py', 'json', 'str')), number_inputs(INTS, FLOATS), other_inputs(), [('py', 1 + 2j), ('py', complex('nan+infj'))])))
    jobs.append(('none', {}, lambda: other_inputs()))
    for kind, c, inp in ctx.split(jobs):
        ctx.sample(kind, c)
        run_group(ctx, kind, c, inp())
    # exhaustive short strings over the number grammar
    ALPH = '01_-+. e' if q else '019_-+. eE'
    L = 5
    for kind, head in ctx.split([(k, h) for k in ('int', 'float', 'decimal') for h in [''] + [a + b for a in ALPH for b in ALPH]]):
        v = SchemaValidator(KINDS[kind][2]())
        tails = (('',) + tuple(ALPH)) if head == '' else (''.join(t) for t in seqs(ALPH, L - 2))
        for t in tails:
            s = head + t
            for mode, fn, x in (('py', v.validate_python, s), ('str', v.validate_strings, s)):
                ref = reference(kind, {}, mode, False, s)
                judge(ctx, kind, {}, mode, False, 'exh', s, ref, outcome(fn, s))
    # whitespace and odd characters around a valid int, every BMP character in the first 0x3100
    chars = [chr(i) for i in itertools.chain(range(0x3100 if not q else 0x300), range(0x2000, 0x2070), [0x3000, 0xfeff, 0xff11, 0x10ffff, 0x1d7d8]) if not 0xd800 <= i < 0xe000]
    for kind in ctx.split(['int', 'float', 'bool', 'str']):
        v = SchemaValidator(KINDS[kind][2]() if kind != 'str' else cs.str_schema(strip_whitespace=True))
        c = {} if kind != 'str' else {'strip_whitespace': True}
        for ch in chars:
            for s in (ch + '1', '1' + ch, ch + '1' + ch, '1' + ch + '1', ch):
                ref = reference(kind, c, 'py', False, s)
                judge(ctx, kind, c, 'py', False, 'chars', s, ref, outcome(v.validate_python, s))
    # config-level settings are the same as schema-level settings
    for kind, c, conf in ctx.split([('str', {'min_length': 2}, {'str_min_length': 2}), ('str', {'max_length': 2}, {'str_max_length': 2}), ('str', {'strip_whitespace': True}, {'str_strip_whitespace': True}),
                                    ('str', {'to_lower': True}, {'str_to_lower': True}), ('str', {'to_upper': True}, {'str_to_upper': True}), ('str', {'coerce_numbers_to_str': True}, {'coerce_numbers_to_str': True}),
                                    ('float', {'allow_inf_nan': False}, {'allow_inf_nan': False}), ('float', {'allow_inf_nan': False, 'gt': 0.0}, {'allow_inf_nan': False}), ('decimal', {'allow_inf_nan': True}, {'allow_inf_nan': True}),
                                    *[(k, {'strict': True}, {'strict': True}) for k in KINDS if k != 'none']]):
        base = {k: v for k, v in c.items() if k == 'gt'}
        a, b = SchemaValidator(KINDS[kind][2](**c)), SchemaValidator(KINDS[kind][2](**base), conf)
        contra = {k: (not v if isinstance(v, bool) else v + 7) for k, v in conf.items()}
        d = SchemaValidator(KINDS[kind][2](**c), contra)  # the schema's own setting wins
        for mode, x in itertools.chain(str_inputs(), number_inputs([0, 1, -1], FLOATS), other_inputs()):
            t = x[0] if mode == 'json' else x
            m = {'py': 'validate_python', 'json': 'validate_json', 'str': 'validate_strings'}[mode]
            ra, rb, rd = (outcome(getattr(z, m), t) for z in (a, b, d))
            ctx.ev(f'config {ra[0]}', (kind, repr(c), mode, rep_(x)))
            ctx.check(ra == rb, f'{kind} config {conf} differs from schema', x=rep_(x), schema=ra, config=rb)
            ctx.check(ra == rd, f'{kind} schema setting does not win over config {contra}', x=rep_(x), schema=ra, both=rd)


def bool_strings(n):
    words = sorted(TRUE | FALSE)
    for w in words:
        for cased in itertools.product(*[(ch.lower(), ch.upper()) for ch in w]):
            s = ''.join(cased)
            for t in (s, s + ' ', ' ' + s, s + 'x', s[:-1], s + '\x00', s.encode()):
                yield ('py', t)
                if isinstance(t, str):
                    yield ('str', t)
                    yield ('json', (json.dumps(t), t))
    for t in seqs('tfynoe01', n - 2):
        yield ('py', ''.join(t))
    for t in ('ｔrue', 'ſ', 'K', 'oﬀ', 'noſ', 'yeſ', 'falſe'):
        yield ('py', t)
        yield ('json', (json.dumps(t), t))
