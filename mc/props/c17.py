"""C17: argument binding.  Exhaustive enumeration of signatures x call shapes, compared with Python's own binding (real calls of a
generated function with the original arguments and with the validator's output) and, for failures, with a reference binder."""
import itertools, json
from mc.lib import *

LEVEL = 'exploration'
RULE = ('signature (kinds x defaults x var kwargs form) x call (positional arguments, keyword arguments, which of them invalid) x schema type (arguments, arguments-v3) x input '
        'form (ArgsKwargs, dict, tuple, list, JSON, v3 mapping) x alias settings; non-trivial: a class of (number of arguments bound by position, by name, by default, '
        'into *args, into **kwargs, set of error types)')
ASSUME = ['parameter orders which are no Python signature are not judged',
          'a keyword which names a parameter only by its non-accepted name is unexpected, also when **kwargs is present (the function could not receive it)',
          'unpacked typed dict output keys equal to a parameter name are not judged']
BOUNDS = {'quick': 'every signature of <= 3 parameters, every call with <= 3 positional and <= 4 keyword arguments; <= 2 with aliases',
          'thorough': 'every signature of <= 4 parameters'}

PO, PK, VA, KO, VK, VT = 'positional_only', 'positional_or_keyword', 'var_args', 'keyword_only', 'var_kwargs_uniform', 'var_kwargs_unpacked_typed_dict'
ORDER = [PO, PK, VA, KO, (VK, VT)]


class Sig:
    """kinds: tuple of (kind, has_default) in a legal order"""

    def __init__(self, kinds, alias=False):
        self.kinds = kinds
        self.params = []
        for n, (k, d) in enumerate(kinds):
            self.params.append(('abcd'[n], k, d, 'ABCD'[n] if alias else None))
        parts, star, pos = [], False, False
        for n, k, d, _ in self.params:
            if pos and k != PO:
                parts.append('/')
                pos = False
            if k == PO:
                pos = True
            if k == KO and not star:
                parts.append('*')
                star = True
            if k == VA:
                star = True
            parts.append(('*' if k == VA else '**' if k in (VK, VT) else '') + n + (f'={1000 + ord(n)}' if d else ''))
        if pos:
            parts.append('/')
        ns = {}
        exec(f'def f({", ".join(parts)}): return dict(locals())', ns)
        self.f = ns['f']
        self.name = ', '.join(parts) + (' [td]' if any(k == VT for k, _ in kinds) else '') + (' [alias]' if alias else '')
        self.val = {}

    def item(self, n, d):
        s = cs.int_schema()
        return cs.with_default_schema(s, default=1000 + ord(n)) if d else s

    def schema(self, v3, extra=None, ba=None, bn=None):
        kw = {}
        if extra:
            kw['extra_behavior' if v3 else 'extra_behavior'] = extra
        if ba is not None: kw['validate_by_alias'] = ba
        if bn is not None: kw['validate_by_name'] = bn
        ps, top = [], {}
        for n, k, d, al in self.params:
            s = TD if k == VT else self.item(n, d)
            if v3:
                ps.append(cs.arguments_v3_parameter(n, s, mode=k, **({'alias': al} if al else {})))
            elif k == VA:
                top['var_args_schema'] = s
            elif k in (VK, VT):
                top['var_kwargs_schema'] = s
                if k == VT:
                    top['var_kwargs_mode'] = 'unpacked-typed-dict'
            else:
                ps.append(cs.arguments_parameter(n, s, mode=k, **({'alias': al} if al else {})))
        r = (cs.arguments_v3_schema if v3 else cs.arguments_schema)(ps, **{k: v for k, v in kw.items() if k != 'extra_behavior'}, **top)
        if extra:
            r['extra_behavior'] = extra
        return r


TD = cs.typed_dict_schema({'y': cs.typed_dict_field(cs.int_schema()), 'z': cs.typed_dict_field(cs.int_schema(), required=False)}, extra_behavior='forbid')


def conv(x):
    """the reference of the int schema over the value alphabet: int, digit strings, everything else invalid"""
    if type(x) is int:
        return ('ok', x)
    if type(x) is str and x.isdigit():
        return ('ok', int(x))
    return ('err', 'int_parsing')


def td_ref(d):
    out, es = {}, []
    for k in ('y', 'z'):
        if k in d:
            r = conv(d[k])
            if r[0] == 'ok': out[k] = r[1]
            else: es.append((r[1], (k,)))
        elif k == 'y':
            es.append(('missing', ('y',)))
    es += [('extra_forbidden', (k,)) for k in d if k not in ('y', 'z')]
    return out, es


def look(al, n, kwargs, ba, bn):
    """which key of kwargs feeds a parameter"""
    if al is None:
        return n if n in kwargs else None
    if ba and al in kwargs:
        return al
    if bn and n in kwargs:
        return n
    return None


def missing_loc(al, n, ba, bn, loc_by_alias):
    return (al,) if al is not None and ba and loc_by_alias else (n,)


def ref_bind(sig, args, kwargs, extra='forbid', ba=True, bn=False, lba=True):
    """-> ('ok', locals) | ('err', sorted errors)"""
    es, out, used = [], {}, set()
    npos = sum(k in (PO, PK) for _, k, _, _ in sig.params)
    va = vk = None
    stats = [0, 0, 0, 0, 0]
    i = -1
    for n, k, d, al in sig.params:
        if k == VA:
            va = n
            continue
        if k in (VK, VT):
            vk = (n, k)
            continue
        i += 1
        p = k in (PO, PK) and i < len(args)
        key = look(al, n, kwargs, ba, bn) if k in (PK, KO) else None
        if key is not None:
            used.add(key)
        if p and key is not None:
            es.append(('multiple_argument_values', (n,)))
        elif p or key is not None:
            r = conv(args[i] if p else kwargs[key])
            if r[0] == 'ok':
                out[n] = r[1]
                stats[0 if p else 1] += 1
            else:
                es.append((r[1], (i,) if p else (key if lba else n,)))
        elif d:
            out[n] = 1000 + ord(n)
            stats[2] += 1
        else:
            es.append(({PO: 'missing_positional_only_argument', PK: 'missing_argument', KO: 'missing_keyword_only_argument'}[k],
                       (i,) if k == PO else missing_loc(al, n, ba, bn, lba)))
    rest = []
    for j in range(npos, len(args)):
        if va is None:
            es.append(('unexpected_positional_argument', (j,)))
        else:
            r = conv(args[j])
            if r[0] == 'ok':
                rest.append(r[1])
                stats[3] += 1
            else:
                es.append((r[1], (j,)))
    if va:
        out[va] = tuple(rest)
    more = {k: v for k, v in kwargs.items() if k not in used}
    named = {n for n, k, _, _ in sig.params if k in (PK, KO)}
    if vk is None:
        if extra == 'forbid':
            es += [('unexpected_keyword_argument', (k,)) for k in more]
    elif vk[1] == VK:
        o = {}
        for k, v in more.items():
            if k in named:
                es.append(('unexpected_keyword_argument', (k,)))
                continue
            r = conv(v)
            if r[0] == 'ok':
                o[k] = r[1]
                stats[4] += 1
            else:
                es.append((r[1], (k,)))
        out[vk[0]] = o
    else:
        out[vk[0]], e2 = td_ref(more)
        es += e2
    if es:
        return ('err', sorted(es, key=repr)), tuple(stats)
    return ('ok', out), tuple(stats)


def ref_map(sig, m, extra='forbid', ba=True, bn=False, lba=True):
    """arguments-v3 from a mapping of parameter names"""
    es, out, used = [], {}, set()
    for n, k, d, al in sig.params:
        key = look(al, n, m, ba, bn)
        if key is None:
            if k == VA: out[n] = ()
            elif k == VK: out[n] = {}
            elif k == VT:
                out[n], e2 = td_ref({})
                es += [(t, (n,) + l) for t, l in e2]
            elif d: out[n] = 1000 + ord(n)
            else:
                es.append(({PO: 'missing_positional_only_argument', PK: 'missing_argument', KO: 'missing_keyword_only_argument'}[k], missing_loc(al, n, ba, bn, lba)))
            continue
        used.add(key)
        loc = (key if lba else n,)
        x = m[key]
        if k == VA:
            if type(x) not in (list, tuple):
                es.append(('tuple_type', loc))
                continue
            o = []
            for i, y in enumerate(x):
                r = conv(y)
                if r[0] == 'ok': o.append(r[1])
                else: es.append((r[1], loc + (i,)))
            out[n] = tuple(o)
        elif k == VK:
            if type(x) is not dict:
                es.append(('dict_type', loc))
                continue
            o = {}
            named = {n for n, k, _, _ in sig.params if k in (PK, KO)}
            for kk, y in x.items():
                if kk in named:
                    es.append(('unexpected_keyword_argument', loc + (kk,)))
                    continue
                r = conv(y)
                if r[0] == 'ok': o[kk] = r[1]
                else: es.append((r[1], loc + (kk,)))
            out[n] = o
        elif k == VT:
            if type(x) is not dict:
                es.append(('dict_type', loc))
                continue
            out[n], e2 = td_ref(x)
            es += [(t, loc + l) for t, l in e2]
        else:
            r = conv(x)
            if r[0] == 'ok': out[n] = r[1]
            else: es.append((r[1], loc))
    if extra == 'forbid':
        es += [('extra_forbidden', (k,)) for k in m if k not in used]
    return ('err', sorted(es, key=repr)) if es else ('ok', out)


def got(sig, v, how, x):
    try:
        a, k = getattr(v, how)(x)
    except ValidationError as e:
        return ('err', sorted([(x['type'], x['loc']) for x in e.errors(include_url=False, include_context=False, include_input=False)], key=repr))
    except BaseException as e:
        guard(e, (sig.name, x))
        return ('exc', type(e).__name__, str(e)[:200])
    if type(a) is not tuple or type(k) is not dict:
        return ('bad output', repr((a, k)))
    try:
        return ('ok', sig.f(*a, **k))
    except TypeError as e:
        return ('uncallable', repr((a, k)), str(e))


def sigs(n, alias=False):
    """every legal parameter list of <= n parameters"""
    pos = {PO: 0, PK: 1, VA: 2, KO: 3, VK: 4, VT: 4}
    for m in range(n + 1):
        for ks in itertools.product(pos, repeat=m):
            if any(pos[a] > pos[b] or (a == b and a in (VA, VK, VT)) or pos[a] == pos[b] == 4 for a, b in zip(ks, ks[1:])):
                continue
            for ds in itertools.product((False, True), repeat=m):
                if any(d and k in (VA, VK, VT) for k, d in zip(ks, ds)):
                    continue
                pd = [d for k, d in zip(ks, ds) if k in (PO, PK)]
                if pd != sorted(pd):
                    continue
                yield tuple(zip(ks, ds))


def calls(sig, names, maxpos, maxkw, base=1):
    """(args, kwargs) with distinct values: all valid, each single one invalid, all invalid"""
    for na in range(maxpos + 1):
        for nk in range(maxkw + 1):
            for ks in itertools.combinations(names, nk):
                n = na + nk
                for bad in [None] + list(range(n)) + (['all'] if n > 1 else []):
                    vals = [('x' if bad == 'all' or bad == i else (i + 1 if i % 2 else str(i + 1))) for i in range(n)]
                    yield tuple(vals[:na]), dict(zip(ks, vals[na:])), bad


def bindings(ctx):
    n = 3 if ctx.quick else 4
    for kinds in ctx.split(list(sigs(n))):
        sig = Sig(kinds)
        vs = [(v3, e, SchemaValidator(sig.schema(v3, e))) for v3 in (False, True) for e in (None, 'ignore')]
        names = [p[0] for p in sig.params] + ['y', 'z']
        for args, kwargs, bad in calls(sig, names, len(kinds) + 1, 4):
            for v3, e, v in vs:
                w, st = ref_bind(sig, args, kwargs, e or 'forbid')
                forms = [('validate_python', ArgsKwargs(args, kwargs))]
                if not v3:
                    if not args:
                        forms += [('validate_python', dict(kwargs)), ('validate_json', json.dumps(kwargs))]
                    if not kwargs:
                        forms += [('validate_python', tuple(args)), ('validate_python', list(args)), ('validate_json', json.dumps(args))]
                for how, x in forms:
                    g = got(sig, v, how, x)
                    if g != w:
                        ctx.fail(f'bind {sig.name} v3={v3} {e} {how} {x!r}', got=g, want=w)
                    ctx.ev(w[0], (st, tuple(sorted({t for t, _ in w[1]})) if w[0] == 'err' else ()))
            # Python's own verdict, independent of the reference binder
            try:
                full = sig.f(*args, **kwargs)
            except TypeError:
                full = None
            if not any(k == VT for k, _ in kinds):
                w, _ = ref_bind(sig, args, kwargs)
                if full is not None and bad is None:
                    full = {k: tuple(map(int, x)) if type(x) is tuple else {a: int(c) for a, c in x.items()} if type(x) is dict else int(x) for k, x in full.items()}
                    ctx.check(w == ('ok', full), f'reference binder and Python bind differently: {sig.name} {args} {kwargs}', got=w, want=full)
                else:
                    ctx.check(w[0] == 'err', f'reference binder and Python disagree: {sig.name} {args} {kwargs}', want=w, full=full)
        ctx.state(kinds)


def aliases(ctx):
    for kinds in ctx.split(list(sigs(2 if ctx.quick else 3))):
        sig = Sig(kinds, True)
        names = [p[0] for p in sig.params] + [p[3] for p in sig.params] + ['y']
        for ba, bn in ((None, None), (True, False), (True, True), (False, True)):
            for lba in (True, False):
                for v3 in (False, True):
                    for conf in (False, True):
                        cfg = {} if lba else {'loc_by_alias': False}
                        if conf:
                            if ba is None:
                                continue
                            v = SchemaValidator(sig.schema(v3), cs.CoreConfig(validate_by_alias=ba, validate_by_name=bn, **cfg))
                        else:
                            v = SchemaValidator(sig.schema(v3, ba=ba, bn=bn), cs.CoreConfig(**cfg))
                        eba, ebn = ba is not False, bool(bn)
                        for args, kwargs, bad in calls(sig, names, len(kinds), 3):
                            if v3 and (not eba or True) and any(k in (PO,) for k, _ in kinds) and False:
                                continue
                            w, st = ref_bind(sig, args, kwargs, 'forbid', eba, ebn, lba)
                            g = got(sig, v, 'validate_python', ArgsKwargs(args, kwargs))
                            if g != w:
                                ctx.fail(f'alias {sig.name} v3={v3} by_alias={ba} by_name={bn} loc_by_alias={lba} {args} {kwargs}', got=g, want=w)
                            ctx.ev(w[0], (st, ba, bn, lba, tuple(sorted({t for t, _ in w[1]})) if w[0] == 'err' else ()))


def mappings(ctx):
    for kinds in ctx.split(list(sigs(3))):
        for alias in (False, True):
            if alias and len(kinds) > 2:
                continue
            sig = Sig(kinds, alias)
            vals = []
            for n, k, d, al in sig.params:
                if k == VA:
                    vs = ['ABSENT', [], [1, '2'], ['x', 1, 'x'], (3,), 5]
                elif k == VK:
                    vs = ['ABSENT', {}, {'p': 1, 'q': '2'}, {'p': 'x', 'q': 1}, 5, {sig.params[0][0]: 1}]
                elif k == VT:
                    vs = ['ABSENT', {}, {'y': 1}, {'y': '1', 'z': 'x'}, {'y': 1, 'w': 1}, 7]
                else:
                    vs = ['ABSENT', 1, '2', 'x']
                vals.append(vs)
            for e, (ba, bn), lba in itertools.product((None, 'ignore'), ((None, None), (True, True), (False, True)) if alias else ((None, None),), (True, False) if alias else (True,)):
                v = SchemaValidator(sig.schema(True, e, ba, bn), cs.CoreConfig(loc_by_alias=lba))
                eba, ebn = ba is not False, bool(bn)
                for c in itertools.product(*vals):
                    for keys in ('name', 'alias') if alias else ('name',):
                        for ex in ((), ('zz',)):
                            m = {(p[0] if keys == 'name' else p[3]): x for p, x in zip(sig.params, c) if not (type(x) is str and x == 'ABSENT')}
                            m.update({k: 1 for k in ex})
                            w = ref_map(sig, m, e or 'forbid', eba, ebn, lba)
                            for how, x in (('validate_python', m), ('validate_json', json.dumps(m))):
                                g = got(sig, v, how, x)
                                if g != w:
                                    ctx.fail(f'map {sig.name} {e} {ba} {bn} {lba} {how} {x!r}', got=g, want=w)
                                ctx.ev(w[0], ('map', alias, ba, bn, tuple(sorted({t for t, _ in w[1]})) if w[0] == 'err' else len(m)))


def call_schemas(ctx):
    """the function is called exactly once, with the bound values, only after a successful binding; its result is validated"""
    class Boom(Exception): pass
    rets = {'none': None, 'int': cs.int_schema(), 'str': cs.str_schema()}
    for kinds in ctx.split(list(sigs(2 if ctx.quick else 3))):
        for v3 in (False, True):
            sig = Sig(kinds)
            log = []
            for ret, rs in rets.items():
                for beh in ('value', 'raise', 'reenter'):
                    def fn(*a, **k):
                        log.append((a, k))
                        if beh == 'raise': raise Boom
                        if beh == 'reenter' and len(log) < 3:
                            inner = v.validate_python(ArgsKwargs(a, k))
                            assert inner == '7'
                        return '7'
                    v = SchemaValidator(cs.call_schema(sig.schema(v3), fn, return_schema=rs, function_name='fn'))
                    if beh == 'reenter' and ret == 'int':
                        continue
                    for args, kwargs, bad in calls(sig, [p[0] for p in sig.params] + ['y'], len(kinds) + 1, 2):
                        w, _ = ref_bind(sig, args, kwargs)
                        log.clear()
                        try:
                            g = ('ok', v.validate_python(ArgsKwargs(args, kwargs)))
                        except ValidationError as e:
                            g = ('err', sorted([(x['type'], x['loc']) for x in e.errors(include_url=False, include_context=False)], key=repr))
                        except Boom:
                            g = ('boom',)
                        except BaseException as e:
                            guard(e, 'call')
                            g = ('exc', repr(e)[:200])
                        key = f'call {sig.name} v3={v3} ret={ret} {beh} {args} {kwargs}'
                        if w[0] == 'err':
                            ctx.check(g == w and log == [], key, got=g, want=w, log=log)
                        else:
                            n = 3 if beh == 'reenter' else 1
                            ctx.check(len(log) == n and all(sig.f(*a, **k) == w[1] for a, k in log), key + ' log', got=log, want=w)
                            ctx.check(g == (('boom',) if beh == 'raise' else ('ok', 7 if ret == 'int' else '7')), key, got=g)
                        ctx.ev(w[0], ('call', beh, ret, w[0]))
    # an invalid return value is reported at 'return', after the one call
    log = []
    for r in ('x', None, [], 1.5):
        v = SchemaValidator(cs.call_schema(cs.arguments_schema([]), lambda: (log.append(1), r)[1], return_schema=cs.int_schema()))
        log.clear()
        try:
            g = v.validate_python(ArgsKwargs(()))
        except ValidationError as e:
            g = [x['loc'] for x in e.errors()]
        ctx.check(g == [('return',)] and len(log) == 1, f'call return {r!r}', got=g)


def odd(ctx):
    """invalid defaults together with other errors, iterables, non string keys, wrong inputs, odd var kwargs schemas"""
    bad = cs.with_default_schema(cs.int_schema(), default='bad', validate_default=True)
    for v3 in (False, True):
        par, sch = (cs.arguments_v3_parameter, cs.arguments_v3_schema) if v3 else (cs.arguments_parameter, cs.arguments_schema)
        for mode in (PO, PK, KO):
            for combo in itertools.product((cs.int_schema(), bad), repeat=3):
                ps = [par(n, s, mode=mode) for n, s in zip('abc', combo)]
                try:
                    v = SchemaValidator(sch(ps))
                except SchemaError:
                    continue
                for kw in [dict(zip(ks, vs)) for m in range(4) for ks in itertools.combinations('abc', m) for vs in itertools.product((1, 'x'), repeat=m)]:
                    for form in ('args', 'map'):
                        es = []
                        for i, (n, s) in enumerate(zip('abc', combo)):
                            if n in kw and not (form == 'args' and mode == PO):
                                if kw[n] == 'x': es.append(('int_parsing', (n,)))
                            elif s is bad:
                                es.append(('int_parsing', (n,)))
                            else:
                                es.append(({PO: 'missing_positional_only_argument', PK: 'missing_argument', KO: 'missing_keyword_only_argument'}[mode],
                                           (i,) if mode == PO and form == 'args' else (n,)))
                        if form == 'args' and mode == PO:
                            es += [('unexpected_keyword_argument', (n,)) for n in kw]
                        if form == 'map' and not v3:
                            continue
                        try:
                            v.validate_python(ArgsKwargs((), kw) if form == 'args' else kw)
                            g = []
                        except ValidationError as e:
                            g = [(x['type'], x['loc']) for x in e.errors()]
                        ctx.check(sorted(g, key=repr) == sorted(es, key=repr), f'invalid default v3={v3} {mode} {[s is bad for s in combo]} {kw} {form}', got=g, want=es)
                        ctx.ev('invalid default', (mode, len(es)))
        # inputs which are no arguments
        v = SchemaValidator(sch([par('a', cs.int_schema())]))
        for x in (1, 'a', None, {1}, b'a', 1.5, object(), iter([1]), range(1)):
            try:
                g = v.validate_python(x)
            except ValidationError as e:
                g = [(y['type'], y['loc']) for y in e.errors()]
            ctx.check(g == [('arguments_type', ())], f'not arguments v3={v3} {type(x).__name__}', got=g)
        for j in ('1', '"a"', 'null', 'true', '1.5') + (('[1]',) if v3 else ()):
            try:
                g = v.validate_json(j)
            except ValidationError as e:
                g = [(y['type'], y['loc']) for y in e.errors()]
            ctx.check(g == [('arguments_type', ())], f'not arguments json v3={v3} {j}', got=g)
    # non string keys
    for v3 in (False, True):
        par, sch = (cs.arguments_v3_parameter, cs.arguments_v3_schema) if v3 else (cs.arguments_parameter, cs.arguments_schema)
        v = SchemaValidator(sch([par('a', cs.int_schema())]))
        for k in (1, None, b'b', (1,)):
            try:
                g = v.validate_python(ArgsKwargs((), {'a': 1, k: 2}))
            except ValidationError as e:
                g = [y['type'] for y in e.errors()]
            ctx.check(g == ['invalid_key'], f'key v3={v3} {k!r}', got=g)
    # ... at every place where arguments-v3 and its variadic keyword parameter take a mapping, among good and bad values, under every extra behaviour
    P3_, I = cs.arguments_v3_parameter, cs.int_schema
    class Str(str): pass
    odd_keys = [7, None, b'b', (1,), 1.5, True, Str('q')]
    for extra in (None, 'forbid', 'ignore'):
        kw = {'extra_behavior': extra} if extra else {}
        vm = SchemaValidator(cs.arguments_v3_schema([P3_('a', I())], **kw))
        vk = SchemaValidator(cs.arguments_v3_schema([P3_('a', I()), P3_('kw', I(), mode='var_kwargs_uniform', alias='KW')], **kw))
        vs = {'top': (vm, lambda ks, av, ov: ({'a': av, **{k: ov for k in ks}})), 'kwargs': (vk, lambda ks, av, ov: {'a': av, 'KW': {'z': 5, **{k: ov for k in ks}}}),
              'ArgsKwargs': (vm, lambda ks, av, ov: ArgsKwargs((), {'a': av, **{k: ov for k in ks}})), 'ArgsKwargs **kw': (vk, lambda ks, av, ov: ArgsKwargs((av,), {'z': 5, **{k: ov for k in ks}}))}
        for place, (v, mk) in vs.items():
            for n in (1, 2):
                for ks in itertools.permutations(odd_keys, n):
                    for av, ov in itertools.product((1, 'bad'), (2, 'bad')):
                        try:
                            g = v.validate_python(mk(ks, av, ov))
                        except ValidationError as e:
                            g = [(y['type'], y['loc'], y['input']) for y in e.errors()]
                        pre = ('KW',) if place == 'kwargs' else ()
                        al = 'a' if place != 'ArgsKwargs **kw' else 0
                        errs, out = [], {'a': 1} if place == 'ArgsKwargs' else {}
                        if av == 'bad':
                            errs.append(('int_parsing', (al,), 'bad'))
                        kws = {'z': 5} if 'kw' in place else {}
                        loc_of = lambda k: k if type(k) is int else str(k)
                        for k in ks:
                            if isinstance(k, str):
                                if 'kw' in place:
                                    if ov == 'bad':
                                        errs.append(('int_parsing', pre + ('q',), 'bad'))
                                    kws['q'] = ov
                                elif place == 'top':
                                    errs += [('extra_forbidden', ('q',), ov)] if extra != 'ignore' else []
                                else:
                                    errs += [('unexpected_keyword_argument', ('q',), ov)] if extra != 'ignore' else []
                            elif place != 'top' or extra != 'ignore':
                                errs.append(('invalid_key', None, k))
                        key = f'odd keys {place} extra={extra} {ks!r} {av!r} {ov!r}'
                        if errs:
                            ok = isinstance(g, list) and len(g) == len(errs) and all(x[0] == w[0] and (w[1] is None or x[1] == w[1]) and (x[2] is w[2] or x[2] == w[2]) for x, w in zip(g, errs))
                            ctx.check(ok, key, got=g, want=errs)
                        else:
                            ctx.check(not isinstance(g, list), key, got=g)
                        ctx.ev('odd key', key)
    # v3 *args from iterables which fail, **kwargs schemas which return no dict
    class Boom(Exception): pass

    def gen(n, exc):
        for i in range(n):
            yield i
        raise exc

    P3 = cs.arguments_v3_parameter
    v = SchemaValidator(cs.arguments_v3_schema([P3('a', cs.int_schema(), mode=PO), P3('args', cs.int_schema(), mode=VA)]))
    for n in range(3):
        for exc in (ValueError('x'), Boom('y')):
            try:
                g = v.validate_python({'a': 1, 'args': gen(n, exc)})
            except ValidationError as e:
                g = [(y['type'], y['loc']) for y in e.errors()]
            except BaseException as e:
                guard(e, 'v3 args')
                g = repr(e)
            ctx.check(g == [('iteration_error', ('args', n))], f'v3 args iteration error {n} {exc!r}', got=g)
    for coll in (list, tuple, iter, set, lambda x: (i for i in x), collections.deque, frozenset):
        g = v.validate_python({'a': 1, 'args': coll([1, 2])})
        ctx.check(g == ((1, 1, 2), {}), 'v3 args collection', got=g)
    for rv in ([1], None, 'x', 5):
        f = cs.no_info_plain_validator_function(lambda x, rv=rv: rv)
        for v, inputs in ((SchemaValidator(cs.arguments_schema([], var_kwargs_mode='unpacked-typed-dict', var_kwargs_schema=f)), [ArgsKwargs(()), ArgsKwargs((), {'a': 1})]),
                          (SchemaValidator(cs.arguments_v3_schema([P3('kw', f, mode=VT)])), [ArgsKwargs(()), ArgsKwargs((), {'a': 1}), {'kw': {}}, {}])):
            for x in inputs:
                try:
                    g = ('ok', v.validate_python(x))
                except BaseException as e:
                    guard(e, 'unpacked')
                    g = ('exc', type(e).__name__)
                ctx.check(g[0] == 'exc' and g[1] != 'PanicException', f'unpacked typed dict returning {rv!r} {x!r}', got=g)
    # JSON **kwargs are validated as JSON, however they are declared
    import datetime
    for s in (cs.date_schema(strict=True), cs.bytes_schema(strict=True), cs.set_schema(cs.int_schema(), strict=True)):
        val = {'date': '2020-01-01', 'bytes': 'ab', 'set': [1, 2]}[s['type']]
        want = SchemaValidator(s).validate_json(json.dumps(val))
        vs = {'uniform': (cs.arguments_schema([], var_kwargs_schema=s), {'d': val}),
              'ko': (cs.arguments_schema([cs.arguments_parameter('d', s, mode=KO)]), {'d': val}),
              'v3 ko': (cs.arguments_v3_schema([P3('d', s, mode=KO)]), {'d': val})}
        for n, (sc, x) in vs.items():
            try:
                g = SchemaValidator(sc).validate_json(json.dumps(x))
            except ValidationError as e:
                g = [(y['type'], y['loc']) for y in e.errors()]
            ctx.check(g == ((), {'d': want}), f'json kwargs {n} {s["type"]}', got=g)
        ctx.ev('json', ('json', s['type']))
    # ArgsKwargs itself
    for a, k in itertools.product([(), (1,), (1, 2)], [None, {}, {'a': 1}]):
        x = ArgsKwargs(a, k)
        ctx.check(x.args == a and x.kwargs == (k or None) and x == ArgsKwargs(a, dict(k) if k else None) and (x != ArgsKwargs(a + (1,), k)), f'ArgsKwargs {a} {k}')


def explore(ctx):
    bindings(ctx)
    aliases(ctx)
    mappings(ctx)
    call_schemas(ctx)
    for f in ctx.split([odd]):
        f(ctx)
    ctx.sample({'signatures': len(list(sigs(3 if ctx.quick else 4)))})
