"""C24: every rendering of a ValidationError tells the same, true story."""
import copy, json, pickle, sys
from decimal import Decimal
from mc.lib import *
from mc.zoo import *
from pydantic_core import PydanticKnownError, PydanticCustomError, to_json
from pydantic_core._pydantic_core import list_all_errors

LEVEL = 'exploration'
RULE = ('every error type x every combination of context values of an alphabet x location x input x input type, each made by PydanticKnownError, '
        'from_exception_data and a raising validator, and every failing (schema, input) pair of the catalogue in every container context and mode; '
        'all renderings (errors, json, str under all flags; copies, pickles, rebuilt errors) are compared with a reference renderer')
ASSUME = ['the message templates themselves are those list_all_errors publishes (the repository\'s tests pin them)',
          'a float in a message may have any text which reads back as that float',
          'exceptions and iterators have no equality: after pickling they are compared by type and text',
          'a bool in the context of a custom error renders as an integer or as a bool']
BOUNDS = {'quick': '3 values per context key in products, all catalogue schemas x py_inputs in 7 container contexts x 2 modes',
          'thorough': 'all values per context key, contexts composed twice'}

TYPES = {d['type']: d for d in list_all_errors()}
NUMKEYS = {'gt', 'ge', 'lt', 'le', 'multiple_of'}
PLURAL = {'string_too_short': 'min_length', 'string_too_long': 'max_length', 'bytes_too_short': 'min_length', 'bytes_too_long': 'max_length',
          'too_short': 'min_length', 'too_long': 'max_length', 'url_too_long': 'max_length', 'decimal_max_digits': 'max_digits',
          'decimal_max_places': 'decimal_places', 'decimal_whole_digits': 'whole_digits'}
STRS = ['x', '{ge}{expected_tags}{encoding_error}{min_length}{expected_plural}{tag}', '', "q'\n\u00e9\U0001f600", 'y' * 80]
NUMS = [10**20 + 1, 1.5, 3, 0, -1, 2**63 - 1, 2**63, -2**63 - 1, 10**400, -0.0, 1e300, 5e-324, float('inf'), float('nan'), '1.10', 'abc', Decimal('1.10'), Decimal('1E+30')]
SIZES = [1, 0, 2, 2**53 + 1]


class Boom(Exception):
    def __eq__(self, o): return type(o) is Boom and o.args == self.args
    __hash__ = None


def ctx_values(typ, key, default, quick):
    if typ in ('value_error', 'assertion_error'):
        vs = [Boom('b {error}'), Boom(), Boom('\n'), None]
    elif key in NUMKEYS:
        vs = NUMS
    elif isinstance(default, str):
        vs = STRS[:3] if quick else STRS
    elif key == 'actual_length' and typ == 'too_long':
        vs = SIZES[:3] + [None]
    elif key in ('tz_expected', 'tz_actual'):
        vs = [3600, -3600, 0]
    else:
        vs = SIZES
    return vs


def contexts(typ, quick):
    d = TYPES[typ]['example_context']
    if not d:
        yield None
        yield {}
        yield {'own': 1}
        return
    keys = list(d)
    for vals in itertools.product(*[ctx_values(typ, k, d[k], quick) for k in keys]):
        yield dict(zip(keys, vals))
    first = {k: ctx_values(typ, k, d[k], quick)[0] for k in keys}
    yield {**first, 'own': 'z'}
    yield {'own': [1], **first}


PH = re.compile(r'\{(\w+)\}')


def expected_parts(typ, input_type, ctx, custom=None):
    """the template split into literal text and required values"""
    if custom is not None:
        tmpl = custom
    else:
        d = TYPES[typ]
        tmpl = d['message_template_python']
        if input_type != 'python':
            tmpl = d.get('message_template_json', tmpl)
    ctx = dict(ctx or {})
    if custom is None and typ in PLURAL:
        ctx['expected_plural'] = '' if ctx[PLURAL[typ]] == 1 else 's'
        if 'actual_length' in ctx and ctx['actual_length'] is None:
            ctx['actual_length'] = 'more'
    known = set(ctx) if custom is not None else {m for m in PH.findall(tmpl)}
    parts, pos = [], 0
    for m in PH.finditer(tmpl):
        if m[1] not in known or m[1] not in ctx:
            continue
        parts.append(('lit', tmpl[pos:m.start()]))
        parts.append(('val', ctx[m[1]]))
        pos = m.end()
    parts.append(('lit', tmpl[pos:]))
    return parts


def msg_ok(msg, typ, input_type, ctx, custom=None):
    if custom is not None and ctx:
        bools = [k for k, v in ctx.items() if type(v) is bool]
        if bools:
            return any(msg_ok(msg, typ, input_type, {**ctx, **{k: f(ctx[k]) for k in bools}}, custom) for f in (int, str))
    parts = expected_parts(typ, input_type, ctx, custom)
    plain = ''
    fl = False
    for k, v in parts:
        if k == 'lit':
            plain += v
        elif type(v) is float and custom is None:
            fl = True
        elif type(v) is bool:
            fl = True
        else:
            plain += str(v) if v is not None else 'None'
    if not fl:
        return msg == plain
    pos = 0
    for i, (k, v) in enumerate(parts):
        if k == 'lit' or not (type(v) is bool or type(v) is float and custom is None):
            s = v if k == 'lit' else str(v)
            if not msg.startswith(s, pos):
                return False
            pos += len(s)
        else:
            nxt = parts[i + 1][1] if i + 1 < len(parts) else ''
            end = msg.find(nxt, pos) if nxt else len(msg)
            if end < pos:
                return False
            t = msg[pos:end]
            if type(v) is bool:
                if t not in (str(v), str(int(v))):
                    return False
            else:
                try:
                    f = float(t)
                except ValueError:
                    return False
                if not (f == v or (f != f and v != v)):
                    return False
            pos = end
    return pos == len(msg)


def locitem(x):
    return f'`{x}`' if isinstance(x, str) and '.' in x else str(x)


def loctext(loc):
    return '.'.join(locitem(x) for x in loc) + '\n' if loc else ''


def utf8repr(v):
    try:
        s = repr(v)
    except Exception:
        return f'<unprintable {type(v).__qualname__} object>'
    return s


def truncated(s):
    if any(0xd800 <= ord(c) < 0xe000 for c in s):
        return None
    b = s.encode()
    if len(b) <= 50:
        return s
    h = b[:25]
    while True:
        try:
            h = h.decode()
            break
        except UnicodeDecodeError:
            h = h[:-1]
    t = b[-24:]
    while True:
        try:
            t = t.decode()
            break
        except UnicodeDecodeError:
            t = t[1:]
    return h + '...' + t


URL = 'https://errors.pydantic.dev/'


def ref_str(title, lines, hide, customs):
    """lines: errors() entries; None where the text is not determined"""
    n = len(lines)
    out = f'{n} validation error{"" if n == 1 else "s"} for {title}\n'
    rows = []
    for ln, custom in zip(lines, customs):
        s = loctext(ln['loc']) + f"  {ln['msg']} [type={ln['type']}"
        if not hide:
            r = truncated(utf8repr(ln['input']))
            if r is None:
                return None
            s += f", input_value={r}, input_type={type(ln['input']).__qualname__}"
        s += ']'
        if not custom:
            s += f"\n    For further information visit {ln['url']}"
        rows.append(s)
    return out + '\n'.join(rows)


def jnorm(v):
    return json.loads(to_json(v, serialize_unknown=True, inf_nan_mode='constants'))


def nan_eq(a, b):
    return repr(a) == repr(b)


def ecanon(v, d=0):
    """canonical form where exceptions and iterators compare by text"""
    if isinstance(v, BaseException):
        return ('exc', type(v).__name__, str(v))
    if type(v) is dict:
        return ('dict',) + tuple((ecanon(k), ecanon(x)) for k, x in v.items())
    if type(v) in (list, tuple):
        return (type(v).__name__,) + tuple(ecanon(x) for x in v)
    try:
        return canon(v)
    except Exception:
        return ('odd', type(v).__name__)


FLAGS = [dict(zip(('include_url', 'include_context', 'include_input'), f)) for f in itertools.product((True, False), repeat=3)]
DROP = {'include_url': 'url', 'include_context': 'ctx', 'include_input': 'input'}


def check_error(ctx, e, key, input_type, hide, title=None, customs=None, full=True, js=True):
    """All renderings of e agree with each other and with the reference. customs: index -> message template or None"""
    lines = e.errors()
    n = len(lines)
    if any(hasattr(ln['input'], '__next__') for ln in lines):
        js = False      # rendering as JSON consumes an iterator
    customs = customs or {}
    ctx.step()
    ok = ctx.check(e.error_count() == n, f'error_count: {key}', count=e.error_count(), n=n)
    iscustom = [('url' not in ln) for ln in lines]
    for i, ln in enumerate(lines):
        want = ['type', 'loc', 'msg', 'input'] + (['ctx'] if 'ctx' in ln else []) + ([] if iscustom[i] else ['url'])
        ctx.check(list(ln) == want, f'entry keys: {key}', keys=list(ln), want=want)
        if not iscustom[i]:
            ctx.check(ln['type'] in TYPES, f'unknown error type: {key}', type=ln['type'])
            ctx.check(ln['url'].startswith(URL) and ln['url'].endswith('/v/' + ln['type']), f'url: {key}', url=ln['url'])
            if ln['type'] in TYPES:
                ctx.check(msg_ok(ln['msg'], ln['type'], input_type, ln.get('ctx')), f'message: {ln["type"]} {key}', msg=ln['msg'], ctx=ln.get('ctx'), want=expected_parts(ln['type'], input_type, ln.get('ctx')))
        elif i in customs and customs[i] is not None:
            ctx.check(msg_ok(ln['msg'], None, None, ln.get('ctx'), customs[i]), f'custom message: {key}', msg=ln['msg'], ctx=ln.get('ctx'), template=customs[i])
        ctx.check(type(ln['loc']) is tuple and all(type(x) in (str, int) for x in ln['loc']), f'loc items: {key}', loc=ln['loc'])
    if title is not None:
        ctx.check(e.title == title, f'title: {key}', got=e.title, want=title)
    want = ref_str(e.title, lines, hide, iscustom)
    s = str(e)
    if want is not None:
        ctx.check(s == want, f'str: {key}', got=s, want=want)
    ctx.check(repr(e) == s, f'repr: {key}', got=repr(e), want=s)
    ln_c = ecanon(lines)
    for f in (FLAGS if full else FLAGS[::7]):
        got = e.errors(**f)
        drop = {DROP[k] for k, v in f.items() if not v}
        want = [{k: v for k, v in ln.items() if k not in drop} for ln in lines]
        ctx.check(ecanon(got) == ecanon(want) and all(a.get('input') is b.get('input') for a, b in zip(got, want)), f'errors({f}): {key}', got=got, want=want)
        if js:
            try:
                wantj = [{k: jnorm(v) for k, v in ln.items()} for ln in want]
            except ValueError:
                wantj = None     # an input whose serialization fails
            for indent in (None, 2) if full else (None,):
                r = raw(e.json, indent=indent, **f)
                if wantj is None:
                    ctx.check(r[0] == 'exc' and type(r[1]) is ValueError, f'json of unserializable: {key}', got=r)
                    continue
                if not ctx.check(r[0] == 'ok', f'json fails: {key}', got=r, flags=f):
                    continue
                gotj = json.loads(r[1])
                ctx.check(nan_eq(gotj, wantj), f'json({f}): {key}', got=gotj, want=wantj)
                if indent:
                    ctx.check(r[1] == json.dumps(gotj, indent=indent, ensure_ascii=False) or not gotj or any(c in r[1] for c in '\\eE'), f'json indent: {key}', got=r[1])
    return lines


def same_error(ctx, a, b, key, what):
    la, lb = a.errors(), b.errors()
    ctx.check(type(a) is type(b), f'{what} changes the class: {key}')
    ctx.check(ecanon(la) == ecanon(lb), f'{what} changes errors(): {key}', before=la, after=lb)
    sa, sb = str(a), str(b)
    ctx.check(sa == sb or ' object at 0x' in sa or (' at ' in sa and '0x' in sa), f'{what} changes str(): {key}', before=sa, after=sb)
    ctx.check(a.title == b.title, f'{what} changes the title: {key}')


def rebuild(ctx, e, key, input_type, hide, customs=False, pick=True):
    """from_exception_data(errors()), copy, deepcopy and pickle give the same error"""
    if not customs:
        r = raw(type(e).from_exception_data, e.title, e.errors(), input_type, hide)
        if ctx.check(r[0] == 'ok', f'from_exception_data fails: {key}', exc=r[1]):
            same_error(ctx, e, r[1], key, 'from_exception_data')
    if pick:
        r = raw(copy.copy, e)
        if ctx.check(r[0] == 'ok', f'copy fails: {key}', exc=r[1]):
            same_error(ctx, e, r[1], key, 'copy')
        try:
            pickle.dumps([ln['input'] for ln in e.errors()] + [ln.get('ctx') for ln in e.errors()])
            can = True
        except Exception:
            can = False
        if can:
            r = raw(lambda: pickle.loads(pickle.dumps(e)))
            if ctx.check(r[0] == 'ok', f'pickle fails: {key}', exc=r[1]):
                same_error(ctx, e, r[1], key, 'pickle')
                r2 = raw(copy.deepcopy, e)
                if ctx.check(r2[0] == 'ok', f'deepcopy fails: {key}', exc=r2[1]):
                    same_error(ctx, e, r2[1], key, 'deepcopy')


# --- 1. every type ------------------------------------------------------------------------------------

class BadRepr:
    def __repr__(self): raise RuntimeError('no repr')
    def __eq__(self, o): return type(o) is BadRepr
    def __reduce__(self): return (BadRepr, ())


class Obj:
    class Inner:
        def __repr__(self): return '<Inner>'


LOCS = [(), ('a',), (0,), ('a.b', -1, 'c'), ('',), ('\u00e9\n', 2**40), ('a', 'b', 'c', 'd', 0)]
INPUTS = [1, 'x' * 60, None, [1, {'a': float('nan')}], {'k': 'v\u20ac' * 20}, b'\xff\x00', BadRepr(), 2**70]


def known_types(ctx):
    q = ctx.quick
    for typ in ctx.split(sorted(TYPES)):
        d = TYPES[typ]
        for j, c in enumerate(contexts(typ, q)):
            key = f'{typ} ctx {rep(c, 80)}'
            ctx.case(key)
            r = raw(PydanticKnownError, typ, c)
            if not ctx.check(r[0] == 'ok', f'known error refused: {key}', exc=r[1]):
                continue
            k = r[1]
            msg = k.message()
            ctx.check(k.type == typ and k.message_template == d['message_template_python'], f'known error attributes: {key}', got=(k.type, k.message_template))
            ctx.check(msg_ok(msg, typ, 'python', c), f'known error message: {key}', msg=msg, want=expected_parts(typ, 'python', c))
            ctx.check(str(k) == msg, f'known error str: {key}', got=str(k))
            cc = k.context
            ctx.check((cc or {}) == (c or {}) and (not c or ecanon(cc) == ecanon({**{x: c[x] for x in cc}})) or 'nan' in repr(c), f'known error context: {key}', got=cc, want=c)
            ctx.check(repr(k) == f'{msg} [type={typ}, context={cc if cc is not None else None}]', f'known error repr: {key}', got=repr(k))
            ctx.ev('known', (typ, rep(c)))
            for i, (loc, inp) in enumerate(itertools.product(LOCS, INPUTS)):
                if (i + j) % len(INPUTS) and not (j == 0):
                    continue
                for it in ('python', 'json'):
                    for hide in (False, True):
                        r = raw(ValidationError.from_exception_data, 'T', [{'type': typ, 'loc': loc, 'input': inp, 'ctx': c} if c is not None else {'type': typ, 'loc': loc, 'input': inp}], it, hide)
                        if not ctx.check(r[0] == 'ok', f'from_exception_data refuses: {key}', exc=r[1], loc=loc):
                            continue
                        e = r[1]
                        full = j < 2 and i < 16
                        lines = check_error(ctx, e, key, it, hide, 'T', full=full)
                        ln = lines[0]
                        ctx.check(ln['type'] == typ and ln['loc'] == tuple(loc) and ln['input'] is inp and ecanon(ln.get('ctx') or {}) == ecanon(dict(cc or {})), f'line: {key}', got=ln, loc=loc)
                        rebuild(ctx, e, key, it, hide, pick=full)
                        ctx.ev('made', None)
            # raised by a validator, nested
            def f(v, k=k): raise k
            for wrap, loc in ((lambda s: s, ()), (lambda s: cs.list_schema(s), (1,)), (lambda s: cs.dict_schema(cs.str_schema(), s), ('a.b',)), (lambda s: cs.typed_dict_schema({'x': cs.typed_dict_field(cs.list_schema(s))}), ('x', 1))):
                goodv = 5
                fn = cs.no_info_after_validator_function(lambda v, k=k: (_ for _ in ()).throw(k) if v == 7 else v, cs.int_schema())
                s = wrap(fn)
                data = {(): 7, (1,): [5, 7], ('a.b',): {'z': 5, 'a.b': 7}, ('x', 1): {'x': [5, 7, 5]}}[loc]
                V = SchemaValidator(s)
                for it, call in (('python', lambda: V.validate_python(data)), ('json', lambda: V.validate_json(json.dumps(data)))):
                    r = raw(call)
                    if not ctx.check(r[0] == 'err', f'raised known error does not fail: {key}', got=r):
                        continue
                    lines = check_error(ctx, r[1], key, it, False, full=False)
                    ctx.check(len(lines) == 1 and lines[0]['type'] == typ and lines[0]['loc'] == loc and lines[0]['input'] == 7
                              and ecanon(lines[0].get('ctx') or {}) == ecanon(dict(cc or {})), f'raised line: {key}', got=lines, loc=loc)
                    ctx.ev('raised', (typ, rep(c), loc, it))


CTEMPL = ['plain', '{a}', '{a}{b}', '{b} {a} {b}', '{{a}}', '{a', '{c} {a}', '{}', '{a}{error_type}{message_template}', '\u20ac{a}\u20ac']
CVALS = ['{b}', 'x', '', 1, -2**80, 1.5, None, [1], True, Boom('z'), '{a}', '{']


def custom_types(ctx):
    for t in ctx.split(['my_err', 'int_type', '', 'a b', '{a}', 'value_error']):
        for tmpl in CTEMPL:
            for c in [None, {}] + [{'a': x} for x in CVALS] + [{'a': x, 'b': y} for x in CVALS for y in ('Y', '{a}', 2)] + [{'b': y, 'a': x} for x in CVALS[:4] for y in ('Y', '{a}')] + \
                    [{'error_type': 'E', 'a': 1}, {'message_template': 'M', 'error_type': 2, 'context': 3}]:
                key = f'custom {t!r} {tmpl!r} {rep(c, 60)}'
                ctx.case(key)
                k = PydanticCustomError(t, tmpl, c)
                ctx.check(k.type == t and k.message_template == tmpl and k.context == c, f'custom attributes: {key}', got=(k.type, k.message_template, k.context))
                ctx.check(msg_ok(k.message(), None, None, c, tmpl), f'custom message: {key}', got=k.message(), want=expected_parts(None, None, c, tmpl))
                ctx.check(str(k) == k.message(), f'custom str: {key}')
                ctx.check(repr(k) == f'{k.message()} [type={t}, context={c}]', f'custom repr: {key}', got=repr(k))
                for src in ('data', 'raise'):
                    if src == 'data':
                        e = ValidationError.from_exception_data('T', [{'type': k, 'loc': ('q', 0), 'input': 3}, {'type': 'missing', 'loc': ('q', 1), 'input': 4}])
                        loc, inp = ('q', 0), 3
                    else:
                        def f(v): raise k
                        r = raw(SchemaValidator(cs.list_schema(cs.no_info_plain_validator_function(f))).validate_python, [[1]])
                        if not ctx.check(r[0] == 'err', f'custom error does not fail: {key}', got=r):
                            continue
                        e, loc, inp = r[1], (0,), [1]
                    lines = check_error(ctx, e, key, 'python', False, customs={0: tmpl}, full=True)
                    ln = lines[0]
                    ctx.check(ln['type'] == t and ln['loc'] == loc and ln['input'] == inp and ecanon(ln.get('ctx')) == ecanon(c) and 'url' not in ln, f'custom line: {key}', got=ln)
                    rebuild(ctx, e, key, 'python', False, customs=True)
                    ctx.ev('custom', (t, tmpl, rep(c), src))


# --- 2. truncation of input reprs ---------------------------------------------------------------------

class R:
    def __init__(self, s): self.s = s
    def __repr__(self): return self.s
    def __eq__(self, o): return type(o) is R and o.s == self.s


def truncation(ctx):
    V = SchemaValidator(cs.none_schema())
    span = (0, 1, 20, 21, 22, 23, 24, 25, 26, 27, 28, 40, 50, 60) if ctx.quick else range(0, 110)
    for ln in ctx.split(range(0, 112)):
        for ch in ('\u00e9', '\u20ac', '\U0001f600'):
            for pos in span:
                if pos > ln:
                    break
                for pos2 in (None,) + tuple(p for p in span if p >= pos and p <= ln):
                    s = 'a' * pos + ch + ('b' * (ln - pos) if pos2 is None else 'b' * (pos2 - pos) + ch + 'c' * (ln - pos2))
                    try:
                        V.validate_python(R(s))
                    except ValidationError as e:
                        got = str(e)
                    want = f'1 validation error for none\n  Input should be None [type=none_required, input_value={truncated(s)}, input_type=R]'
                    ctx.check(got.startswith(want), f'truncation: {s!r}', got=got, want=want)
                    ctx.ev('trunc' if len(s.encode()) > 50 else 'whole', s)


# --- 3. real failures in every context -----------------------------------------------------------------

def box(s):
    """model class"""
    return cs.model_schema(M1, cs.model_fields_schema({'f': cs.model_field(s)}))


CONTEXTS = [
    ('list', lambda s: cs.list_schema(s), lambda v, g: [v], (0,)),
    ('tuple', lambda s: cs.tuple_schema([cs.any_schema(), s]), lambda v, g: [None, v], (1,)),
    ('dictv', lambda s: cs.dict_schema(cs.str_schema(), s), lambda v, g: {'k.1': v}, ('k.1',)),
    ('td', lambda s: cs.typed_dict_schema({'f': cs.typed_dict_field(s, validation_alias=['p', 0])}), lambda v, g: {'p': [v]}, ('p', 0)),
    ('model', box, lambda v, g: {'f': v}, ('f',)),
    ('call', lambda s: cs.arguments_schema([cs.arguments_parameter('z', s, mode='keyword_only')]), lambda v, g: {'z': v}, ('z',)),
    ('func', lambda s: cs.with_info_wrap_validator_function(lambda v, h, i: h(v), s), lambda v, g: v, ()),
    ('null', lambda s: cs.nullable_schema(s), lambda v, g: v, ()),
    ('def', lambda s: cs.definitions_schema(cs.definition_reference_schema('r'), [{**s, 'ref': 'r'}] if 'ref' not in s and s['type'] != 'definitions' else [cs.nullable_schema(s, ref='r')]), lambda v, g: v, ()),
]


def line(ln, prefix=()):
    return (ln['type'], tuple(prefix) + ln['loc'], ln['msg'], ecanon(ln.get('ctx')))


def real(ctx):
    q = ctx.quick
    base = [v for v in py_inputs() if not hasattr(v, '__next__')]
    combos = [((c,)) for c in CONTEXTS]
    if not q:
        combos += [(a, b) for a in CONTEXTS for b in CONTEXTS]
    for z in ctx.split(ZOO):
        try:
            s0 = z.mk()
            V0 = SchemaValidator(s0)
        except SchemaError:
            continue
        jtexts = JSON_TEXTS
        jobs = [('python', v) for v in base] + [('json', t) for t in jtexts]
        vs = {}
        for it, v in jobs:
            call = V0.validate_python if it == 'python' else V0.validate_json
            r = raw(call, v)
            if r[0] != 'err':
                ctx.ev('accepted')
                continue
            e0 = r[1]
            key = f'{z.name} {it} {rep(v, 60)}'
            ctx.case(key)
            lines0 = check_error(ctx, e0, key, it, False, V0.title, full=False)
            rebuild(ctx, e0, key, it, False, customs=any('url' not in x for x in lines0))
            ctx.ev('failed', (z.name, it, rep(v)))
            if it == 'json' and lines0 and lines0[0]['type'] == 'json_invalid':
                continue
            for combo in combos:
                name = '/'.join(c[0] for c in combo)
                if name not in vs:
                    s = z.mk()
                    for c in combo:
                        s = c[1](s)
                    try:
                        vs[name] = SchemaValidator(s)
                    except SchemaError:
                        vs[name] = None
                V = vs[name]
                if V is None:
                    continue
                if it == 'json' and any(c[0] == 'func' for c in combo):
                    continue        # a wrapped function sees the Python form of the JSON input
                loc = ()
                if it == 'python':
                    w = v
                    for c in combo:
                        w = c[2](w, None)
                        loc = c[3] + loc
                    r = raw(V.validate_python, w)
                else:
                    w = v if isinstance(v, str) else v.decode()
                    for c in combo:
                        w = {'list': '[%s]', 'tuple': '[null,%s]', 'dictv': '{"k.1":%s}', 'td': '{"p":[%s]}', 'model': '{"f":%s}', 'call': '{"z":%s}'}.get(c[0], '%s').replace('%s', w)
                        loc = c[3] + loc
                    r = raw(V.validate_json, w)
                if v is None and r[0] == 'ok' and 'null' in name or (it == 'json' and v.strip() in ('null', b'null') and 'null' in name and r[0] == 'ok'):
                    continue
                if name.startswith('def') and r[0] == 'ok' and (v is None or v in ('null',)):
                    continue
                kk = f'{name}: {key}'
                if not ctx.check(r[0] == 'err', f'nested does not fail: {kk}', got=r):
                    continue
                lines = r[1].errors()
                if [x['type'] for x in lines0] == ['recursion_loop'] or any(x['type'] == 'recursion_loop' for x in lines):
                    continue
                a, b = [line(x, loc) for x in lines0], [line(x) for x in lines]
                ctx.check(a == b, f'nested lines differ: {kk}', plain=a, nested=b)
                if it == 'python':
                    for x, y in zip(lines0, lines):
                        ctx.check(x['input'] is y['input'] or ecanon(x['input']) == ecanon(y['input']), f'nested input differs: {kk}', plain=x['input'], nested=y['input'])
                else:
                    ctx.check(ecanon([x['input'] for x in lines0]) == ecanon([x['input'] for x in lines]), f'nested JSON input differs: {kk}', plain=lines0, nested=lines)
                if len(combo) == 1:
                    check_error(ctx, r[1], kk, it, False, V.title, full=False, js=combo[0][0] == 'td')
                ctx.ev('nested', None)


# --- 4. several failures: order, counts, locations, hide_input, titles -------------------------------------

def order(ctx):
    """A record with list, dict, tuple and model parts where every subset of the elements is wrong."""
    leaf = cs.int_schema()
    S = cs.model_schema(M2, cs.model_fields_schema({
        'l': cs.model_field(cs.list_schema(leaf)),
        'd': cs.model_field(cs.dict_schema(cs.int_schema(), leaf)),
        't': cs.model_field(cs.tuple_schema([leaf, cs.union_schema([cs.int_schema(), cs.bool_schema()])])),
        'm': cs.model_field(cs.typed_dict_schema({'x.y': cs.typed_dict_field(leaf), 'n': cs.typed_dict_field(cs.nullable_schema(leaf))})),
    }, extra_behavior='forbid'), config={})
    SLOTS = ['l0', 'l1', 'dk', 'dv', 't0', 't1', 'mx', 'mn', 'missing', 'extra']
    for hide in (False, True):
        for title in (None, 'My\u20ac'):
            conf = {'hide_input_in_errors': hide}
            if title:
                conf['title'] = title
            V = SchemaValidator(S, conf)
            want_title = 'M2' if not title else V.title
            for bad in ctx.split(list(itertools.product((0, 1), repeat=len(SLOTS)))):
                b = dict(zip(SLOTS, bad))
                if not any(bad):
                    continue
                B = [f'bad{i}' for i in range(10)]
                data = {'l': [B[0] if b['l0'] else 1, B[1] if b['l1'] else 2],
                        'd': {(B[2] if b['dk'] else '3'): (B[3] if b['dv'] else 4)},
                        't': [B[4] if b['t0'] else 5, B[5] if b['t1'] else 6],
                        'm': {'x.y': B[6] if b['mx'] else 7, 'n': B[7] if b['mn'] else None}}
                if b['missing']:
                    del data['m']
                if b['extra']:
                    data['e'] = B[9]
                want = []
                if b['l0']: want.append(('int_parsing', ('l', 0), B[0]))
                if b['l1']: want.append(('int_parsing', ('l', 1), B[1]))
                dk = B[2] if b['dk'] else '3'
                if b['dk']: want.append(('int_parsing', ('d', dk, '[key]'), B[2]))
                if b['dv']: want.append(('int_parsing', ('d', dk), B[3]))
                if b['t0']: want.append(('int_parsing', ('t', 0), B[4]))
                if b['t1']: want += [('int_parsing', ('t', 1, 'int'), B[5]), ('bool_parsing', ('t', 1, 'bool'), B[5])]
                if b['missing']:
                    want.append(('missing', ('m',), 'WHOLE'))
                else:
                    if b['mx']: want.append(('int_parsing', ('m', 'x.y'), B[6]))
                    if b['mn']: want.append(('int_parsing', ('m', 'n'), B[7]))
                if b['extra']: want.append(('extra_forbidden', ('e',), B[9]))
                for it, r in (('python', raw(V.validate_python, data)), ('json', raw(V.validate_json, json.dumps(data)))):
                    key = f'order {it} {"".join(map(str, bad))} hide={hide} title={title}'
                    if not want:
                        ctx.check(r[0] == 'ok', f'unexpected failure: {key}', got=r)
                        continue
                    if not ctx.check(r[0] == 'err', f'no failure: {key}', got=r):
                        continue
                    lines = check_error(ctx, r[1], key, it, hide, want_title, full=(sum(bad) <= 2))
                    got = [(x['type'], x['loc'], 'WHOLE' if x['input'] == data else x['input']) for x in lines]
                    ctx.check(got == want, f'lines: {key}', got=got, want=want)
                    rebuild(ctx, r[1], key, it, hide, pick=sum(bad) <= 3)
                    ctx.ev('order', (bad, it, hide, title))
                    # every location leads to the failing element
                    for x in lines:
                        cur, loc = data, x['loc']
                        try:
                            for i, p in enumerate(loc):
                                if p in ('[key]',):
                                    cur = loc[i - 1]
                                    break
                                if p in ('int', 'bool') and i == len(loc) - 1:
                                    break
                                cur = cur[p]
                            ctx.check(x['type'] == 'missing' or cur == x['input'], f'location leads elsewhere: {key}', line=x, found=cur)
                        except (KeyError, IndexError, TypeError):
                            ctx.check(x['type'] == 'missing', f'location leads nowhere: {key}', line=x)


# --- 5. function errors, causes -----------------------------------------------------------------------------

def causes(ctx):
    KINDS = ['ok', 'value', 'assert', 'custom', 'known', 'int', 'nested']

    def mkfn(kind, exc):
        def f(v):
            if v == 'int':
                return v
            if exc.get(v) is not None:
                raise exc[v]
            return v
        return f
    inner = SchemaValidator(cs.list_schema(cs.bool_schema()))
    for combo in ctx.split(list(itertools.product(KINDS, repeat=3))):
        for cause in (True, False):
            made = {}

            def f(v, i):
                kind = combo[i]
                if kind == 'value':
                    made[i] = ValueError(f'v{i} {{error}}')
                elif kind == 'assert':
                    made[i] = AssertionError(f'a{i}')
                elif kind == 'custom':
                    made[i] = PydanticCustomError('cu', 'm {x}', {'x': i})
                elif kind == 'known':
                    made[i] = PydanticKnownError('greater_than', {'gt': 10**30})
                elif kind == 'int':
                    raise PydanticKnownError('int_type')
                elif kind == 'nested':
                    inner.validate_python([True, 'zz'])
                if i in made:
                    raise made[i]
                return v
            flds = {n: cs.typed_dict_field(cs.list_schema(cs.no_info_plain_validator_function(lambda v, i=i: f(v, i)))) for i, n in enumerate(('a', 'b.c', 'd'))}
            V = SchemaValidator(cs.typed_dict_schema(flds), {'validation_error_cause': cause})
            data = {'a': [0], 'b.c': [1], 'd': [2]}
            for it in ('python', 'json'):
                made.clear()
                r = raw(V.validate_python, data) if it == 'python' else raw(V.validate_json, json.dumps(data))
                key = f'cause={cause} {it} {combo}'
                want = []
                for i, (n, kind) in enumerate(zip(('a', 'b.c', 'd'), combo)):
                    t = {'ok': None, 'value': 'value_error', 'assert': 'assertion_error', 'custom': 'cu', 'known': 'greater_than', 'int': 'int_type', 'nested': 'bool_parsing'}[kind]
                    if t:
                        want.append((t, (n, 0) + ((1,) if kind == 'nested' else ()), 'zz' if kind == 'nested' else i))
                if not want:
                    ctx.check(r[0] == 'ok', f'fails: {key}', got=r)
                    continue
                if not ctx.check(r[0] == 'err', f'no failure: {key}', got=r):
                    continue
                e = r[1]
                idx = [i for i, x in enumerate(want) if x[0] == 'cu']
                lines = check_error(ctx, e, key, it, False, V.title, customs={i: 'm {x}' for i in idx}, full=False)
                ctx.check([(x['type'], x['loc'], x['input']) for x in lines] == want, f'function lines: {key}', got=lines, want=want)
                for ln in lines:
                    if ln['type'] in ('value_error', 'assertion_error'):
                        ctx.check(any(ln['ctx']['error'] is x for x in made.values()), f'ctx error is the raised object: {key}', ln=ln)
                rebuild(ctx, e, key, it, False, customs='custom' in combo)
                excs = [(made[i], n) for i, (n, k) in enumerate(zip(('a', 'b.c', 'd'), combo)) if k in ('value', 'assert')]
                if cause and excs:
                    g = e.__cause__
                    ok = ctx.check(isinstance(g, ExceptionGroup) and g.message == 'Pydantic User Code Exceptions' and len(g.exceptions) == len(excs)
                                   and all(a is b[0] for a, b in zip(g.exceptions, excs)), f'cause group: {key}', got=g, want=excs)
                    if ok:
                        for x, n in excs:
                            ctx.check(x.__notes__ == ['\nPydantic: cause of loc: ' + loctext((n, 0)).strip()], f'cause note: {key}', got=x.__notes__)
                else:
                    ctx.check(e.__cause__ is None, f'unexpected cause: {key}', got=e.__cause__)
                    ctx.check(all(not getattr(x, '__notes__', None) for x, _ in excs), f'unexpected note: {key}')
                ctx.ev('cause', (combo, cause, it))


# --- 6. subclass, equal options, many errors --------------------------------------------------------------------

class VE(ValidationError):
    pass


def misc(ctx):
    for n in ctx.split(range(0, 40)):
        lines = [{'type': 'missing', 'loc': (i, f'k{i}'), 'input': i} for i in range(n)]
        for cls in (ValidationError, VE):
            for title in ('T', '', 'a\nb', 5, None):
                e = cls.from_exception_data(title, lines)
                ctx.check(type(e) is cls, f'class from from_exception_data {cls}')
                key = f'many {n} {cls.__name__} {title!r}'
                got = check_error(ctx, e, key, 'python', False, full=n < 3)
                ctx.check([(x['loc'], x['input']) for x in got] == [((i, f'k{i}'), i) for i in range(n)], f'many: {key}', got=got)
                rebuild(ctx, e, key, 'python', False)
                ctx.ev('many', (n, cls.__name__, title))
        # as a wrapped error: adopting all lines under the place where it was raised
        def f(v):
            raise ValidationError.from_exception_data('inner', lines)
        if n:
            V = SchemaValidator(cs.dict_schema(cs.str_schema(), cs.no_info_plain_validator_function(f)))
            r = raw(V.validate_python, {'q': 1})
            if ctx.check(r[0] == 'err', 'raised ValidationError', got=r):
                got = check_error(ctx, r[1], f'raised many {n}', 'python', False, V.title, full=False)
                ctx.check([(x['loc'], x['input']) for x in got] == [(('q', i, f'k{i}'), i) for i in range(n)], f'raised many: {n}', got=got)


def locations(ctx):
    """Every string up to a length over the characters that matter in the text of a location, alone and in pairs, made by hand and by validation."""
    items = [''.join(t) for n in range(5 if not ctx.quick else 4) for t in itertools.product('a.`0', repeat=n)] + ['a\nb', ' ', '\u20ac.', '\ufe52', -1, 2**62]
    d1 = SchemaValidator(cs.dict_schema(cs.any_schema(), cs.int_schema()))
    d2 = SchemaValidator(cs.dict_schema(cs.any_schema(), cs.dict_schema(cs.any_schema(), cs.list_schema(cs.int_schema()))))
    short = [x for x in items if isinstance(x, int) or len(x) < 3]
    for a in ctx.split(items):
        for loc in [(a,)] + [(a, b) for b in short]:
            key = f'location {loc!r}'
            e = ValidationError.from_exception_data('T', [{'type': 'int_type', 'loc': loc, 'input': 'x'}, {'type': 'missing', 'loc': (0,) + loc, 'input': 1}])
            got = check_error(ctx, e, key, 'python', False, full=False)
            ctx.check([x['loc'] for x in got] == [loc, (0,) + loc], f'locations: {key}', got=got)
            V, data = (d1, {a: 'x'}) if len(loc) == 1 else (d2, {a: {loc[1]: [1, 'x']}})
            r = raw(V.validate_python, data)
            if ctx.check(r[0] == 'err', f'accepted: {key}', got=r):
                got = check_error(ctx, r[1], key, 'python', False, full=False)
                ctx.check([x['loc'] for x in got] == [loc if len(loc) == 1 else loc + (1,)], f'locations of validation: {key}', got=got)
            ctx.ev('location', (a, loc[1:]))


def explore(ctx):
    set_ctx(ctx)
    misc(ctx)
    locations(ctx)
    order(ctx)
    causes(ctx)
    custom_types(ctx)
    known_types(ctx)
    truncation(ctx)
    real(ctx)
