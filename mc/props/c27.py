"""C27: dates, times, datetimes and durations are parsed, compared and written exactly."""
import copy, datetime as D, json, os, pickle, time as _time
from datetime import timedelta as TD, timezone as TZ
from decimal import Decimal
from fractions import Fraction as F
from zoneinfo import ZoneInfo
from mc.lib import *
from pydantic_core import TzInfo, to_json

LEVEL = 'exploration'
RULE = ('field-wise products of boundary values (year to microsecond, offset, sign, unit) and the complete one-edit neighbourhood of base texts, as str, bytes, '
        'JSON string and strings mode; boundary numbers as int, float, Decimal, Fraction and JSON number; all pairs (value, bound) under each constraint; '
        'tz and now constraints; the ISO text of every value.  Oracle: a reference grammar with exact rational arithmetic and Python\'s own comparisons')
ASSUME = ['the accepted text formats are those of the speedate crate (its documentation is what pydantic refers to), written down here as regular expressions',
          'a fraction of a duration unit other than seconds may be one microsecond off (it is computed in floating point)',
          'UTC offsets are whole seconds (sub-second offsets are not representable in TzInfo)',
          'comparing naive with aware values is unspecified (Python raises); aware values compare as instants',
          'pendulum- or pandas-like timedelta subclasses which override total_seconds() are taken at its word']
BOUNDS = {'quick': 'one-edit neighbourhoods of 24 base texts over 24 characters x 4 schemas x 2 precision modes',
          'thorough': 'plus two-edit neighbourhoods (substitutions) of the short texts, all microsecond fractions of one timestamp, every day of 0001-9999 as number and text'}

UTC = TZ.utc
EPOCH = D.datetime(1970, 1, 1)
US = TD(microseconds=1)
WATERSHED = 20_000_000_000

T_RE = r'(\d\d):(\d\d)(?::(\d\d)(?:[.,](\d+))?)?(?:([Zz])|([+\-\u2212])(\d\d):?(\d\d))?'
DATE_RE = re.compile(r'(\d{4})-(\d\d)-(\d\d)', re.A)
TIME_RE = re.compile(T_RE, re.A)
DT_RE = re.compile(r'(\d{4})-(\d\d)-(\d\d)[Tt _]' + T_RE, re.A)
INT_RE = re.compile(r'[+-]?\d+', re.A)
FLOAT_RE = re.compile(r'([+-]?)(\d+)\.(\d*)', re.A)
ISO_RE = re.compile(r'((?:\d+(?:[.,]\d*)?[YMWD])*)(T?)((?:\d+(?:[.,]\d*)?[HMS])*)', re.A)
DAYS_RE = re.compile(r'(\d+) ?[dD](?:ays?|AYS?)?(?:, |,| )?(.*)', re.A | re.S)
HMS_RE = re.compile(r'(\d{0,10}):(\d\d)(?::(\d\d)(?:[.,](\d+))?)?', re.A)


class Bad(Exception): pass


def micro(frac, trunc):
    if not frac: return 0
    if len(frac) > 6 and not trunc: raise Bad('precision')
    return int((frac + '000000')[:6])


def ref_time_groups(g, trunc):
    h, m, s, fr, z, sg, oh, om = g
    h, m, s = int(h), int(m), int(s or 0)
    if h > 23 or m > 59 or s > 59: raise Bad('range')
    us = micro(fr, trunc)
    tz = None
    if z: tz = UTC
    elif sg:
        if int(om) > 59: raise Bad('tz')
        o = int(oh) * 3600 + int(om) * 60
        if o >= 86400: raise Bad('tz')
        tz = TZ(TD(seconds=o if sg == '+' else -o))
    return h, m, s, us, tz


def ref_date_groups(g):
    try: return D.date(*map(int, g))
    except ValueError: raise Bad('calendar') from None


def nround(x):
    """the acceptable roundings of a rational: nearest integers (both at a tie)"""
    f = x.numerator // x.denominator
    r = x - f
    if r < F(1, 2): return (f,)
    if r > F(1, 2): return (f + 1,)
    return (f, f + 1)


def instants(x):
    """timestamp number (exact) -> possible datetimes (UTC)"""
    if abs(x) > WATERSHED: x = x / 1000
    out = []
    for us in nround(F(x) * 1_000_000):
        try: out.append((EPOCH + US * us).replace(tzinfo=UTC))
        except OverflowError: pass
    if not out: raise Bad('range')
    return out


def ref_number_text(s, trunc):
    if INT_RE.fullmatch(s):
        i = int(s)
        if abs(i) >= 2**63: raise Bad('big')
        return instants(F(i))
    m = FLOAT_RE.fullmatch(s)
    if m:
        ms = abs(F(m[2] + '.' + (m[3] or '0'))) > WATERSHED
        if not trunc and len(m[3]) > (3 if ms else 6): raise Bad('precision')
        if int(m[2]) >= 2**63: raise Bad('big')
        return instants(F(Decimal(s if m[3] else s + '0')))
    return None


def ref_datetime(s, trunc, strict=False):
    """possible values for a datetime schema given text s"""
    m = DT_RE.fullmatch(s)
    if m:
        d = ref_date_groups(m.groups()[:3])
        h, mi, se, us, tz = ref_time_groups(m.groups()[3:], trunc)
        return [D.datetime(d.year, d.month, d.day, h, mi, se, us, tz)]
    r = ref_number_text(s, trunc)
    if r is not None: return r
    m = None if strict else DATE_RE.fullmatch(s)
    if m: return [D.datetime.combine(ref_date_groups(m.groups()), D.time())]
    raise Bad('format')


def ref_date(s, strict):
    m = DATE_RE.fullmatch(s)
    if m: return [ref_date_groups(m.groups())]
    if strict:
        # without the datetime fallback only whole timestamps remain
        if INT_RE.fullmatch(s): return [exact_day(x) for x in ref_datetime(s, True)]
        raise Bad('format')
    return [exact_day(x) for x in ref_datetime(s, True)]


def exact_day(x):
    if x.time() != D.time(): raise Bad('inexact')
    return x.date()


def ref_time(s, trunc):
    m = TIME_RE.fullmatch(s)
    if not m: raise Bad('format')
    return [D.time(*ref_time_groups(m.groups(), trunc))]


UNIT = {'Y': 365 * 86400, 'W': 7 * 86400, 'D': 86400, 'H': 3600, 'S': 1}
U32 = 2**32 - 1
UNJUDGED = object()


def ref_duration(s, trunc):
    sign = 1
    if s[:1] in '+-' and s: sign, s = (-1 if s[0] == '-' else 1), s[1:]
    if not s: raise Bad('empty')
    exact = True
    if s[0] == 'P':
        m = ISO_RE.fullmatch(s[1:])
        if not m or len(s) < 3: raise Bad('format')
        tot = F(0)
        parts = [(p, False) for p in re.findall(r'[\d.,]+[A-Z]', m[1])] + [(p, True) for p in re.findall(r'[\d.,]+[A-Z]', m[3])]
        if parts and m[3] and not m[2]: raise Bad('format')
        day = sec = 0
        for i, (p, after_t) in enumerate(parts):
            n, u = p[:-1].replace(',', '.'), p[-1]
            mult = (60 if after_t else 30 * 86400) if u == 'M' else UNIT[u]
            if '.' in n:
                if i != len(parts) - 1: raise Bad('fraction')
                if u != 'S' or len(n.split('.')[1]) > 15: exact = False
            a = int(n.split('.')[0])
            if after_t: sec += a * mult
            else: day += a * (mult // 86400)
            if a > U32 or sec > U32 or day > U32: raise Bad('big')
            tot += F(Decimal(n + '0' if n.endswith('.') else n)) * mult
        vals = nround(tot * 1_000_000)
        if not exact: vals = range(vals[0] - 1, vals[-1] + 2)
        vals = [sign * v for v in vals]
    else:
        day = 0
        t = s
        if 'd' in s or 'D' in s:
            m = DAYS_RE.fullmatch(s)
            if not m: raise Bad('format')
            day, t = int(m[1]), m[2]
            if t and t[0] in 'aA': raise Bad('format')
            if day > U32: raise Bad('big')
        us = 0
        if t:
            m = HMS_RE.fullmatch(t)
            if not m or len(t) < 5: raise Bad('format')
            h = int(m[1] or 0)
            if h > 24 * 10**8: raise Bad('hours')
            if t is not s and h >= 24: raise Bad('hours')
            if int(m[2]) > 59 or int(m[3] or 0) > 59: raise Bad('range')
            us = (h * 3600 + int(m[2]) * 60 + int(m[3] or 0)) * 1_000_000 + micro(m[4], trunc)
        vals = [sign * (day * 86400 * 1_000_000 + us)]
    out = []
    for v in vals:
        try: out.append(US * v)
        except OverflowError: pass
    if not out: raise Bad('range')
    return out


REF = {'date': lambda s, tr, st: ref_date(s, st), 'time': lambda s, tr, st: ref_time(s, tr),
       'datetime': lambda s, tr, st: ref_datetime(s, tr, st), 'timedelta': lambda s, tr, st: ref_duration(s, tr)}
CODES = {'date': {'date_parsing', 'date_from_datetime_parsing', 'date_from_datetime_inexact'}, 'time': {'time_parsing'},
         'datetime': {'datetime_parsing', 'datetime_from_date_parsing'}, 'timedelta': {'time_delta_parsing'}}
CLS = {'date': D.date, 'time': D.time, 'datetime': D.datetime, 'timedelta': TD}


def same(a, b):
    """equal, of the same class and (for aware values) with the same offset"""
    if type(a) is not type(b): return False
    if isinstance(a, TD): return a == b
    if isinstance(a, D.datetime):
        return a.replace(tzinfo=None) == b.replace(tzinfo=None) and a.utcoffset() == b.utcoffset() and a.fold == b.fold
    if isinstance(a, D.time):
        return a.replace(tzinfo=None) == b.replace(tzinfo=None) and a.utcoffset() == b.utcoffset()
    return a == b


V = {}
def val(kind, prec=None, **kw):
    key = (kind, prec, repr(sorted(kw.items())))
    if key not in V:
        sch = {'type': kind, **kw}
        if prec and kind != 'date': sch['microseconds_precision'] = prec
        V[key] = SchemaValidator(sch)
    return V[key]


def run(f, *a, **k):
    try: return ('ok', f(*a, **k))
    except ValidationError as e: return ('err', e.errors(include_url=False)[0]['type'])
    except BaseException as e:
        if isinstance(e, (KeyboardInterrupt, SystemExit)): raise
        return ('exc', f'{type(e).__name__}: {e}')


def judge(ctx, key, kind, got, want, codes, **info):
    if want == 'precision' and '20000000000.' in info.get('text', '') and got[0] == 'ok':
        # just above the watershed the digits may also be counted for seconds; the value is judged all the same
        want = ref_number_text(info['text'].strip(), True) or want
    if got[0] == 'exc':
        ctx.fail(f'{key}: raises', got=got[1], **info)
        ctx.ev('exception')
    elif isinstance(want, str):
        ctx.check(got[0] == 'err' and got[1] in codes, f'{key}: accepted or wrong error ({want})', got=str(got), **info)
        ctx.ev('rejected', (kind, want, got[1]))
    else:
        ok = got[0] == 'ok' and any(same(got[1], w) for w in want)
        ctx.check(ok, f'{key}: value', got=repr(got), want=[repr(w) for w in want], **info)
        ctx.ev('parsed', (kind, repr(want[0])))


def text_case(ctx, s, kinds=('date', 'time', 'datetime', 'timedelta'), modes=('str', 'bytes', 'json', 'strings', 'strict')):
    for kind in kinds:
        for prec in ((None,) if kind == 'date' else ('truncate', 'error')):
            wants = {}
            for st in ((False, True) if kind in ('date', 'datetime') else (False,)):
                try: wants[st] = REF[kind](s, prec != 'error', st)
                except Bad as e: wants[st] = str(e)
            v = val(kind, prec)
            for mode in modes:
                if mode == 'str': got, st = run(v.validate_python, s), False
                elif mode == 'bytes': got, st = run(v.validate_python, s.encode()), False
                elif mode == 'json': got, st = run(v.validate_json, json.dumps(s)), False
                elif mode == 'strings': got, st = run(v.validate_strings, s), False
                else: got, st = run(v.validate_json, json.dumps(s), strict=True), kind in ('date', 'datetime')
                judge(ctx, f'text {kind}', kind, got, wants[st], CODES[kind], text=s, mode=mode, prec=prec)
            got = run(v.validate_python, s, strict=True)
            ctx.check(got[0] == 'err' and got[1].endswith('_type'), f'strict {kind} takes a str', text=s, got=str(got))


BASES = ['2020-02-29', '2023-02-28', '0001-01-01', '9999-12-31',
         '12:34', '23:59:59', '00:00:00.000001', '12:34:56.789Z', '12:34:56,7+05:30', '12:34-0130', '00:00\u221223:59',
         '2020-02-29T12:34:56.789012Z', '2024-12-31 23:59+00:00', '1900-02-28_00:00:00-23:59',
         '0', '-86400', '1577836800', '20000000000', '-20000000001', '1577836800.5', '1577836800000.5',
         'P1Y2M3W4DT5H6M7.5S', 'PT0.000001S', '-P1D', '1 day, 01:02:03.4', '-3d', '10 days', '100:00', '-00:00:01', '2 DAYS 10:00:00.123456']
EDITCH = '0129-+:., TtZzPpDdaYHMWS_\u2212xe'


def edits(s, chars):
    yield s
    for i in range(len(s)):
        yield s[:i] + s[i + 1:]
        for c in chars:
            if c != s[i]: yield s[:i] + c + s[i + 1:]
    for i in range(len(s) + 1):
        for c in chars: yield s[:i] + c + s[i:]


YEARS = ['0000', '0001', '0004', '1582', '1900', '1969', '1970', '2000', '2023', '2024', '2100', '9999']
MONTHS = ['00', '01', '02', '04', '12', '13']
DAYS = ['00', '01', '28', '29', '30', '31', '32']
HOURS = ['00', '12', '23', '24']
MINS = ['00', '30', '59', '60']
SECS = ['', ':00', ':59', ':60']
FRACS = ['', '.0', '.000001', ',999999', '.1234567', '.9999999', '.', '.0000000000001']
OFFS = ['', 'Z', 'z', '+00:00', '-00:00', '+0000', '+05:30', '-2359', '+23:59', '+24:00', '+00:60', '-12:34', '\u221208:00', '+1', 'UTC', '+12:34:56']


def field_texts():
    for y, m, d in itertools.product(YEARS, MONTHS, DAYS): yield f'{y}-{m}-{d}', ('date', 'datetime')
    for h, mi, s, f, o in itertools.product(HOURS, MINS, SECS, FRACS, OFFS):
        t = h + ':' + mi + s + f + o
        yield t, ('time', 'timedelta')
    for dt in ('0000-01-01', '0001-01-01', '9999-12-31', '2024-02-29', '2023-02-29', '1970-01-01'):
        for h, s, f, o in itertools.product(HOURS, SECS, FRACS, OFFS):
            yield f'{dt}T{h}:00{s}{f}{o}', ('date', 'datetime')
    nums = ['0', '00', '1', '59', '365', '366', '999999999', '1000000000', '4294967295', '4294967296', '0.5', '0,25', '1.000001', '3.', '0.0000005', '86399.999999', '86399.9999999', '2737907', '99999999999']
    for sg in ('', '-', '+'):
        for n in nums:
            for u in ('Y', 'M', 'W', 'D', 'TH', 'TM', 'TS'):
                yield f'{sg}P{u[:-1]}{n}{u[-1]}', ('timedelta',)
            for u in ('d', ' d', 'D', ' day', ' days', ' DAY', ' DAYS', 'Days', ' dy'):
                for t in ('', ', 00:00:01', ' 23:59:59.999999', ',24:00', '10:00', ', ', '  10:00', ', 10:00:00.1234567', ', 10:00:00.123456x'):
                    yield f'{sg}{n}{u}{t}', ('timedelta',)
        for a, b in itertools.permutations(['1Y', '2M', '3D', '1.5D', 'T4H', 'T', 'T5M', 'T6.7S', '5S', '1H'], 2):
            yield f'{sg}P{a}{b}', ('timedelta',)
        for h in ('', '0', '00', '24', '100', '2399999999', '2400000000', '2400000001', '99999999999'):
            for r in ('', ':0', ':00', ':00:00', ':59:59.999999', ':59:59.9999999', ':60', ':00:60', ':00:00.000000Z', ':00:00Z'):
                yield f'{sg}{h}{r}', ('timedelta', 'time')


BIG = [0, 1, 59, 86399, 86400, 86401, 1577836800, 1577836801, 2**31, 2**32, WATERSHED - 1, WATERSHED, WATERSHED + 1, 62135596800, 62135596800000, 62135596799999, 62135596800001, 62167219200000, 62167219199999,
       253402214400000, 253402300799999, 253402300800000, 253402300799, 999999999 * 86400, 999999999 * 86400 + 86399, 10**9 * 86400, 2**53, 2**63 - 1, 2**63, 2**64, 10**30]


def number_texts():
    for n in BIG:
        for sg in ('', '-', '+'):
            for f in ('', '.', '.0', '.5', '.25', '.123', '.1234', '.123456', '.1234567', '.999999', '.9999999', '.108192', '.000001'):
                yield f'{sg}{n}{f}'
    for t in ('1e5', 'inf', 'nan', '1_000', ' 1', '1 ', '\u0661', '--1', '+-1', '-', '+', '.', '.5', '-.5', '1..2', '1.2.3', '0x1', 'True', ''):
        yield t


def ref_number(kind, x):
    """x: exact Fraction (or None for nan, '+'/'-' for infinities)"""
    if not isinstance(x, F): raise Bad('not finite')
    if kind in ('date', 'datetime'):
        r = instants(x)
        if kind == 'date':
            days = []
            for i in r: days.append(exact_day(i))
            return days
        return r
    if kind == 'time':
        if x < 0: raise Bad('negative')
        out = []
        for us in nround(x * 1_000_000):
            if us < 86400 * 10**6: out.append(((EPOCH + US * us).replace(tzinfo=UTC)).timetz())
        if not out: raise Bad('range')
        return out
    out = []
    for us in nround(x * 1_000_000):
        try: out.append(US * us)
        except OverflowError: pass
    if not out: raise Bad('range')
    return out


def exact(x):
    if isinstance(x, float):
        if x != x: return None
        if x in (float('inf'), float('-inf')): return '+'
    return F(x)


NUM_CODES = {k: CODES[k] | {k + '_type', 'time_delta_type'} for k in CODES}


def numbers(quick):
    fr = [0.0, 0.5, 0.25, 0.1, 0.9999999, 0.9999994, 0.000001, 0.0000004, 1e-9, 0.123456, 0.999999]
    for n in BIG:
        for sg in (1, -1):
            yield sg * n
            for f in fr:
                yield float(sg * (n + f)) if n < 10**300 else None
    yield from (float('nan'), float('inf'), -float('inf'), 1e300, -1e300, 5e-324, -5e-324, -0.0)


class SubInt(int): pass
class SubFloat(float): pass
class HasFloat:
    def __init__(self, x): self.x = x
    def __float__(self): return float(self.x)


def number_case(ctx, x):
    for kind in CLS:
        v = val(kind)
        try: want = ref_number(kind, exact(x))
        except Bad as e: want = str(e)
        got = run(v.validate_python, x)
        judge(ctx, f'number {kind}', kind, got, want, NUM_CODES[kind], number=repr(x))
        sub = SubInt(x) if isinstance(x, int) else SubFloat(x)
        got2 = run(v.validate_python, sub)
        ctx.check(str(got2) == str(got), f'number {kind}: subclass', number=repr(x), got=str(got2), want=str(got))
        if isinstance(x, float):
            got2 = run(v.validate_python, HasFloat(x))
            ctx.check(str(got2) == str(got), f'number {kind}: __float__', number=repr(x), got=str(got2), want=str(got))
        if exact(x) is not None and exact(x) != '+':
            gj = run(v.validate_json, repr(x))
            if isinstance(x, int) and abs(x) >= 2**63:
                ctx.check(gj[0] == 'err', f'number {kind}: big JSON integer', number=repr(x), got=str(gj))
            else:
                ctx.check(str(gj) == str(got) or gj[0] == got[0] == 'err', f'number {kind}: JSON', number=repr(x), got=str(gj), want=str(got))
            gs = run(v.validate_json, repr(x), strict=True)
            ctx.check(gs[0] == 'err', f'number {kind}: strict JSON', number=repr(x), got=str(gs))
        gs = run(v.validate_python, x, strict=True)
        ctx.check(gs[0] == 'err' and gs[1].endswith('_type'), f'number {kind}: strict', number=repr(x), got=str(gs))


class SubDate(D.date): pass
class SubTime(D.time): pass
class SubDT(D.datetime): pass
class SubTD(TD): pass
class RuleTZ(D.tzinfo):
    """an offset that depends on the month, and None in december"""
    def utcoffset(self, dt): return None if dt is None or dt.month == 12 else TD(hours=dt.month)
    def dst(self, dt): return None
    def tzname(self, dt): return 'rule'


PARIS, LMT = ZoneInfo('Europe/Paris'), ZoneInfo('Africa/Monrovia')
TZS = [None, UTC, TZ(TD(hours=5, minutes=30)), TZ(-TD(hours=23, minutes=59)), TzInfo(3600), TzInfo(-1800), PARIS, RuleTZ()]


def date_objs():
    for a in ((1, 1, 1), (1970, 1, 1), (1969, 12, 31), (2024, 2, 29), (9999, 12, 31)):
        yield D.date(*a)
        yield SubDate(*a)


def time_objs():
    for a in ((0, 0), (12, 34, 56, 789012), (23, 59, 59, 999999), (0, 0, 0, 1)):
        for tz in TZS[:6]: yield D.time(*a, tzinfo=tz)
        yield SubTime(*a)


def dt_objs():
    for a in ((1, 1, 1, 0, 0), (1970, 1, 1, 0, 0), (1969, 12, 31, 23, 59, 59, 999999), (2024, 2, 29, 12), (2021, 10, 31, 2, 30), (2021, 3, 28, 2, 30), (2021, 12, 1, 0, 0), (9999, 12, 31, 23, 59, 59, 999999)):
        for tz in TZS:
            for fold in ((0, 1) if tz is PARIS else (0,)): yield D.datetime(*a, tzinfo=tz, fold=fold)
        yield SubDT(*a)
        yield SubDT(*a, tzinfo=UTC)


def td_objs():
    for us in (0, 1, -1, 999999, 10**6, -10**6, 86400 * 10**6, -86400 * 10**6, 86400 * 10**6 - 1, -86400 * 10**6 + 1, 31536000 * 10**6 + 5, 10**15 + 1, -10**15 - 1):
        yield US * us
        yield SubTD(microseconds=us)
    yield TD.max
    yield TD.min
    yield TD.min + US
    yield SubTD(days=999999, seconds=3, microseconds=123457)
    yield SubTD(days=-999999, seconds=3, microseconds=123457)
    yield SubTD(days=999999999, seconds=86399, microseconds=999999)


def instant(x):
    """comparable form, and whether it is aware"""
    if isinstance(x, TD): return False, x
    if isinstance(x, D.datetime):
        o = x.utcoffset()
        return o is not None, (x.replace(tzinfo=None) - EPOCH) - (o or TD())
    if isinstance(x, D.date): return False, x
    o = x.utcoffset()
    return o is not None, TD(hours=x.hour, minutes=x.minute, seconds=x.second, microseconds=x.microsecond) - (o or TD())


OPS = {'gt': lambda a, b: a > b, 'ge': lambda a, b: a >= b, 'lt': lambda a, b: a < b, 'le': lambda a, b: a <= b}
OPERR = {'gt': 'greater_than', 'ge': 'greater_than_equal', 'lt': 'less_than', 'le': 'less_than_equal'}


def build(ctx, sch):
    try: return SchemaValidator(sch)
    except SchemaError as e: return e


EXTRA = {'date': ['2024-02-29', 0, '1577836800000'], 'time': ['12:34:56.789012', 0.000001, '23:59:59.999999+05:30', '00:00Z'],
         'datetime': ['2024-02-29T12:00:00', '1970-01-01T00:00Z', 0, '1969-12-31T23:59:59.999999', -0.5, '2024-02-29'],
         'timedelta': ['-PT0S', '-00:00:00', -1e-7, -0.0, 'PT0S', '-P0D', 'PT0.000001S', '-0d', 1, '1 day', -0.000001, '-PT0.0000001S']}


def constraint_values(kind, objs):
    """(input, value it denotes)"""
    v = val(kind)
    for o in objs: yield o, o
    for x in EXTRA[kind]: yield x, v.validate_python(x)


def negzero(inp, value):
    """an input with a minus sign whose value is the zero timedelta"""
    return isinstance(value, TD) and not value and not isinstance(inp, TD) and (inp.startswith('-') if isinstance(inp, str) else inp < 0)


def constraints(ctx):
    for kind, objs in (('date', date_objs), ('time', time_objs), ('datetime', dt_objs), ('timedelta', td_objs)):
        vals = list(constraint_values(kind, objs()))
        bounds = [o for o in objs()]
        for bound in ctx.split(bounds):
            for op, f in OPS.items():
                v = build(ctx, {'type': kind, op: bound})
                if isinstance(v, Exception):
                    ctx.fail(f'constraint {kind}: not built', bound=repr(bound), op=op, err=str(v)[:200])
                    continue
                ba, bi = instant(bound)
                for inp, value in vals:
                    va, vi = instant(value)
                    if va != ba: continue
                    ctx.case('constraint', kind, op, repr(bound), repr(inp))
                    got = run(v.validate_python, inp)
                    want = f(vi, bi)
                    if want: ok = got[0] == 'ok' and got[1] == value
                    else: ok = got == ('err', OPERR[op])
                    nz = negzero(inp, value) and not bound and op in ('ge', 'lt')
                    ctx.check(ok, 'negative zero duration: constraint' if nz else f'constraint {kind}', op=op, bound=repr(bound), value=repr(inp), got=repr(got), want=want)
                    ctx.ev('within' if want else 'out of bounds', (kind, op, repr(bound), repr(inp)))
        # two constraints at once: the conjunction
        small = bounds[::3]
        for lo, hi in ctx.split(list(itertools.product(small, repeat=2))):
            if instant(lo)[0] != instant(hi)[0]: continue
            for a, b in itertools.product(('gt', 'ge'), ('lt', 'le')):
                v = build(ctx, {'type': kind, a: lo, b: hi})
                if isinstance(v, Exception): continue
                for inp, value in vals:
                    if instant(value)[0] != instant(lo)[0]: continue
                    want = OPS[a](instant(value)[1], instant(lo)[1]) and OPS[b](instant(value)[1], instant(hi)[1])
                    got = run(v.validate_python, inp)
                    nz = negzero(inp, value) and (not lo and a == 'ge' or not hi and b == 'lt')
                    ctx.check((got[0] == 'ok') == want, 'negative zero duration: pair' if nz else f'constraint {kind}: pair', lo=repr(lo), hi=repr(hi), ops=a + b, value=repr(inp), got=repr(got))
                    ctx.ev('pair ' + got[0], (kind, a, b, repr(lo), repr(hi), repr(inp)))


def off_seconds(x):
    o = x.utcoffset()
    return None if o is None else int(o.total_seconds())


def tz_constraints(ctx):
    for kind, objs in (('datetime', dt_objs), ('time', time_objs)):
        vals = list(constraint_values(kind, objs()))
        for tzc in ctx.split(['aware', 'naive', 0, 3600, -3600, 19800, -86340, 7200, 1, 172800]):
            v = SchemaValidator({'type': kind, 'tz_constraint': tzc})
            for inp, value in vals:
                o = off_seconds(value)
                if tzc == 'naive': want = 'timezone_naive' if o is not None else None
                elif o is None: want = 'timezone_aware'
                elif tzc == 'aware' or tzc == o: want = None
                else: want = 'timezone_offset'
                got = run(v.validate_python, inp)
                ctx.check((got[0] == 'ok' and same(got[1], value)) if want is None else got == ('err', want), f'tz constraint {kind}', tz=tzc, value=repr(inp), got=repr(got), want=want)
                ctx.ev('tz ' + str(want), (kind, tzc, repr(inp)))


def now_ops(ctx):
    """no control over the clock: values a safe distance (2 minutes) away from the boundary"""
    far = [TD(seconds=120), TD(hours=1), TD(days=1), TD(days=400)]
    for op in ('past', 'future'):
        for off in ctx.split([None, 0, 3600, -3600, 86399, -86399, 20700]):
            sch = {'type': 'datetime', 'now_op': op}
            if off is not None: sch['now_utc_offset'] = off
            v = SchemaValidator(sch)
            local = _time.localtime().tm_gmtoff if off is None else off
            for delta in [s * x for s in (1, -1) for x in far]:
                inst = D.datetime.now(UTC) + delta
                cands = [inst.astimezone(z) for z in (UTC, TZ(TD(hours=5)), TzInfo(-7200), PARIS)]
                cands += [inst.isoformat(), inst.timestamp()]
                # a naive datetime is a wall clock reading at the schema's offset
                cands.append((inst + TD(seconds=local)).replace(tzinfo=None))
                for c in cands:
                    want = (delta > TD()) == (op == 'future')
                    got = run(v.validate_python, c)
                    ctx.check(got[0] == 'ok' if want else got == ('err', 'datetime_' + op), 'now datetime', op=op, offset=off, delta=str(delta), value=repr(c), got=repr(got))
                    ctx.ev('now ' + got[0], ('dt', op, off, str(delta), type(c).__name__))
            sch['type'] = 'date'
            v = SchemaValidator(sch)
            for n in (-400, -2, -1, 0, 1, 2, 400):
                for _ in range(3):
                    before = (D.datetime.now(UTC) + TD(seconds=local)).date()
                    got = run(v.validate_python, before + TD(days=n))
                    if before == (D.datetime.now(UTC) + TD(seconds=local)).date(): break
                want = n > 0 if op == 'future' else n < 0
                ctx.check(got[0] == 'ok' if want else got == ('err', 'date_' + op), 'now date', op=op, offset=off, days=n, got=repr(got))
                ctx.ev('now ' + got[0], ('date', op, off, n))
    for bad in (86400, -86400, 2**31 - 1, -2**31):
        for k in ('date', 'datetime'):
            got = run(SchemaValidator, {'type': k, 'now_op': 'past', 'now_utc_offset': bad})
            ctx.check(got[0] == 'exc' and 'SchemaError' in got[1], 'now offset out of range is accepted', offset=bad, got=str(got))


def cross_kinds(ctx):
    """objects of one class given to the schema of another"""
    everything = [*date_objs(), *time_objs(), *dt_objs(), *td_objs(), True, False, None, 1j, [], '', b'', Decimal('1.5'), F(3, 2), object]
    for kind in CLS:
        for x in ctx.split(everything):
            for strict in (False, True):
                v = val(kind)
                got = run(v.validate_python, x, strict=strict)
                want = None
                if isinstance(x, CLS[kind]) and not (kind == 'date' and isinstance(x, D.datetime)): want = ('same', x)
                elif strict: want = ('err',)
                elif kind == 'date' and isinstance(x, D.datetime):
                    want = ('val', x.date()) if x.time() == D.time() else ('err', 'date_from_datetime_inexact')
                    if want[0] == 'val': want = ('val', D.date(x.year, x.month, x.day))
                elif kind == 'datetime' and isinstance(x, D.date): want = ('val', D.datetime(x.year, x.month, x.day))
                elif isinstance(x, (Decimal, F)): continue
                elif isinstance(x, bool) and kind == 'timedelta': continue
                else: want = ('err',)
                if want[0] == 'same': ok = got[0] == 'ok' and got[1] is x
                elif want[0] == 'val': ok = got[0] == 'ok' and same(got[1], want[1])
                else: ok = got[0] == 'err' and (len(want) < 2 or got[1] == want[1])
                ctx.check(ok, f'object for {kind}', value=repr(x), strict=strict, got=repr(got), want=repr(want))
                ctx.ev('object ' + want[0], (kind, repr(x), strict))


def iso_ok(kind, x, text):
    """does the text denote x, in Python's reading and in this library's"""
    problems = []
    v = val(kind, 'error')
    got = run(v.validate_python, text)
    if isinstance(x, TD): want = US * (x // US)
    elif isinstance(x, D.datetime):
        o = x.utcoffset()
        want = D.datetime(x.year, x.month, x.day, x.hour, x.minute, x.second, x.microsecond, None if o is None else TZ(o))
    elif isinstance(x, D.date): want = D.date(x.year, x.month, x.day)
    else:
        o = x.utcoffset()
        want = D.time(x.hour, x.minute, x.second, x.microsecond, None if o is None else TZ(o))
    if got[0] != 'ok' or not same(got[1], want): problems.append(('validate', repr(got), repr(want)))
    if kind != 'timedelta':
        try: p = CLS[kind].fromisoformat(text)
        except ValueError as e: problems.append(('fromisoformat', str(e)))
        else:
            if not same(p, want): problems.append(('fromisoformat', repr(p), repr(want)))
    return problems


def serialized(ctx):
    for kind, objs in (('date', date_objs), ('time', time_objs), ('datetime', dt_objs), ('timedelta', td_objs)):
        lst = list(objs())
        if kind in ('datetime', 'time'):
            secs = [TZ(TD(seconds=s)) for s in (1172, -1172, 86399, -86399, 59, 1)]
            if kind == 'datetime': secs += [LMT]
            lst += [D.datetime(1900, 1, 2, 3, 4, 5, tzinfo=z) if kind == 'datetime' else D.time(3, 4, 5, tzinfo=z) for z in secs]
        s, sd = SchemaSerializer({'type': kind}), SchemaSerializer({'type': 'dict', 'keys_schema': {'type': kind}})
        anys, anyd = SchemaSerializer({'type': 'any'}), SchemaSerializer({'type': 'dict'})
        for x in ctx.split(lst):
            texts = {'json': json.loads(s.to_json(x)), 'python': s.to_python(x, mode='json'), 'key': next(iter(json.loads(sd.to_json({x: 1})))),
                     'key python': next(iter(sd.to_python({x: 1}, mode='json'))), 'any': json.loads(anys.to_json(x)), 'any python': anys.to_python(x, mode='json'),
                     'any key': next(iter(json.loads(anyd.to_json({x: 1})))), 'to_json': json.loads(to_json(x))}
            ctx.check(s.to_python(x) is x, f'serialize {kind}: python mode', value=repr(x))
            ctx.check(len(set(texts.values())) == 1, f'serialize {kind}: texts differ', value=repr(x), texts=texts)
            for t in set(texts.values()):
                p = iso_ok(kind, x, t) if isinstance(t, str) else [('not text', t)]
                label = f'serialize {kind}'
                o = None if kind in ('date', 'timedelta') else x.utcoffset()
                if o is not None and o % TD(minutes=1): label = f'offset with seconds: {kind}'
                ctx.check(not p, label, value=repr(x), text=t, problems=p)
            ctx.ev('serialized', (kind, repr(x)))
        if kind == 'timedelta':
            sf = SchemaSerializer({'type': kind}, {'ser_json_timedelta': 'float'})
            for x in ctx.split(lst):
                got = [json.loads(sf.to_json(x)), sf.to_python(x, mode='json')]
                ctx.check(got == [x.total_seconds()] * 2, 'serialize timedelta: float', value=repr(x), got=got)
                ctx.ev('serialized float', repr(x))


def tzinfo_laws(ctx):
    offs = [0, 1, -1, 59, 60, -60, 3600, -3600, 19800, -12600, 86399, -86399, 1172, -1172]
    for a in ctx.split(offs):
        t = TzInfo(a)
        std = TZ(TD(seconds=a))
        ctx.check(t.utcoffset(None) == TD(seconds=a), 'TzInfo offset', offset=a)
        ctx.check(t == std and std == t and hash(t) == hash(std), 'TzInfo: equal to a timezone but hashes differently', offset=a, eq=[t == std, std == t])
        for c in (copy.copy(t), copy.deepcopy(t), pickle.loads(pickle.dumps(t)), TzInfo(float(a))):
            ctx.check(c == t and hash(c) == hash(t) and c.utcoffset(None) == t.utcoffset(None) and type(c) is TzInfo, 'TzInfo copy', offset=a, got=repr(c))
        for b in offs:
            ctx.check((t == TzInfo(b)) == (a == b) and (t != TzInfo(b)) == (a != b) and (t == TZ(TD(seconds=b))) == (a == b), 'TzInfo equality', a=a, b=b)
        sign = '-' if a < 0 else '+'
        txt = 'UTC' if a == 0 else f'{sign}{abs(a) // 3600:02}:{abs(a) // 60 % 60:02}' + (f':{abs(a) % 60:02}' if a % 60 else '')
        ctx.check(str(t) == txt and t.tzname(None) == txt and repr(t) == f'TzInfo({txt})', 'TzInfo text', offset=a, got=str(t))
        for x in (D.datetime(2020, 1, 1, 12), D.datetime(1970, 1, 2), D.datetime(9999, 12, 30)):
            ctx.check(x.replace(tzinfo=UTC).astimezone(t) == x.replace(tzinfo=UTC) and x.replace(tzinfo=UTC).astimezone(t).replace(tzinfo=None) == x + TD(seconds=a), 'TzInfo fromutc', offset=a, value=repr(x))
            ctx.check(x.replace(tzinfo=t).isoformat() == x.replace(tzinfo=std).isoformat(), 'TzInfo isoformat', offset=a)
        ctx.ev('tzinfo', a)
    for bad in (86400, -86400, 1e9, float('inf'), float('-inf')):
        got = run(TzInfo, bad)
        ctx.check(got[0] == 'exc' and 'ValueError' in got[1], 'TzInfo out of range', offset=bad, got=str(got))
        ctx.ev('tzinfo range', bad)


def explore(ctx):
    if ctx.quick: texts = [(s, None) for b in BASES for s in edits(b, EDITCH[::2] if len(b) > 14 else EDITCH)]
    else: texts = [(s, None) for b in BASES for s in edits(b, EDITCH + 'Qm/;\u00e9"')]
    for i, (s, _) in enumerate(ctx.split(texts)):
        ctx.case('edit', s)
        text_case(ctx, s, modes=('str', 'json', 'strict') if ctx.quick else ('str', 'bytes', 'json', 'strings', 'strict'))
    for s, kinds in ctx.split(list(field_texts())):
        ctx.case('fields', s)
        text_case(ctx, s, kinds, modes=('str', 'json', 'bytes') if ctx.quick else ('str', 'bytes', 'json', 'strings', 'strict'))
    for s in ctx.split(list(number_texts())):
        ctx.case('number text', s)
        text_case(ctx, s)
    for x in ctx.split([x for x in numbers(ctx.quick) if x is not None]):
        ctx.case('number', repr(x))
        number_case(ctx, x)
    cross_kinds(ctx)
    constraints(ctx)
    tz_constraints(ctx)
    now_ops(ctx)
    serialized(ctx)
    tzinfo_laws(ctx)
    if not ctx.quick:
        sub = '0159-+:.TZPD '
        for b in ctx.split([x for b in BASES if len(b) <= 13 for x in edits(b, '')]):
            for i, j in itertools.combinations(range(len(b)), 2):
                for c, d in itertools.product(sub, repeat=2):
                    s = b[:i] + c + b[i + 1:j] + d + b[j + 1:]
                    ctx.case('two edits', s)
                    text_case(ctx, s, modes=('str',))
        dv = val('datetime')
        for i in ctx.split(range(1000000)):
            for base in (1577836800, 4000000000):
                s = '%d.%06d' % (base, i)
                got = run(dv.validate_python, s)
                ctx.check(got[0] == 'ok' and got[1] == D.datetime(1970, 1, 1, tzinfo=UTC) + TD(seconds=base, microseconds=i), 'text datetime: value', text=s, got=repr(got))
                ctx.ev('fraction', None)
        dd = val('date')
        for n in ctx.split(range(1, D.date.max.toordinal() + 1)):
            x = D.date.fromordinal(n)
            t = (n - 719163) * 86400
            ms = t if abs(t) <= WATERSHED else t * 1000
            got = run(dd.validate_python, ms)
            ctx.check(got == ('ok', x), 'every day: number', day=repr(x), number=ms, got=repr(got))
            got = run(dd.validate_python, x.isoformat())
            ctx.check(got == ('ok', x), 'every day: text', day=repr(x), got=repr(got))
            got = run(dv.validate_python, x.isoformat() + 'T00:00:00Z')
            ctx.check(got[0] == 'ok' and got[1] == D.datetime(x.year, x.month, x.day, tzinfo=UTC), 'every day: datetime', day=repr(x), got=repr(got))
            ctx.ev('day', None)
