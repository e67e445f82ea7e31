"""C05: collections.  Every item sequence up to a length bound over {good, good2, failing,
omitted, raising} x container type x length bounds x fail_fast x schema kind, compared with a
direct reference."""
import collections, itertools, json, types
from mc.lib import *
from pydantic_core import PydanticOmit

LEVEL = 'exploration'
RULE = ('item sequences over a 5-letter behaviour alphabet (two good values, failing, omitted, raising) up to the length bound, in every '
        'container form, for every collection schema setting; a case is non-trivial when the sequence has >= 2 items and distinct by '
        '(schema setting, container form, sequence)')
BOUNDS = {'quick': 'sequences up to length 4 (tuples/dicts 4), min/max in {None,0,1,2,3}, fail_fast both, 7 container forms + JSON',
          'thorough': 'sequences up to length 6, otherwise as quick with min/max up to 4'}
ASSUME = ['item validators are user functions (function-plain) and int schemas; other item schemas reach the same item loop']


class Boom(Exception):
    pass


def mk(tag):
    def f(x):
        c = x[0] if isinstance(x, str) and x else '?'
        if c == 'x':
            raise ValueError('bad')
        if c == 'o':
            raise PydanticOmit
        if c == 'r':
            raise Boom(x)
        if c == 'u':
            return [x]      # unhashable result
        if c == 'c' and tag == 'k':
            return 'same'   # colliding keys
        return tag + x
    return cs.no_info_plain_validator_function(f)


def model(tag, x):
    c = x[0]
    if c == 'x':
        return 'bad', 'value_error'
    if c == 'o':
        return 'omit', None
    if c == 'r':
        return 'raise', x
    if c == 'u':
        return 'ok', [x]
    if c == 'c' and tag == 'k':
        return 'ok', 'same'
    return 'ok', tag + x


class RaisingIter:
    def __init__(self, items, at):
        self.items, self.at = items, at

    def __iter__(self):
        for i, x in enumerate(self.items):
            if i == self.at:
                raise KeyError('it')
            yield x
        if self.at == len(self.items):
            raise KeyError('it')


class CountIter:
    def __init__(self, items):
        self.items, self.n = items, 0

    def __iter__(self):
        for x in itertools.cycle(self.items):
            self.n += 1
            yield x


FORMS = ['list', 'tuple', 'gen', 'deque', 'values', 'set', 'json']


def form_input(form, seq):
    """(python input, order in which items come, known length) or None when not expressible"""
    if form == 'list':
        return list(seq), seq, len(seq)
    if form == 'tuple':
        return tuple(seq), seq, len(seq)
    if form == 'gen':
        return (x for x in seq), seq, None
    if form == 'deque':
        return collections.deque(seq), seq, None
    if form == 'values':
        return {i: x for i, x in enumerate(seq)}.values(), seq, None
    if form == 'set':
        s = set(seq)
        if len(s) != len(seq):
            return None
        return s, tuple(s), len(s)
    if form == 'json':
        return json.dumps(list(seq)), seq, len(seq)
    raise AssertionError


# ----- references: return ('ok', value) | ('err', [(type, loc)], ctxcheck) | ('boom', x)
def ref_list(tag, seq, mn, mx, ff, it_at=None):
    out, er, n = [], [], 0
    for i, x in enumerate(list(seq) + ([None] if it_at is not None and it_at == len(seq) else [])):
        if it_at is not None and i == it_at:
            return 'err', [('iteration_error', (i,))]
        k, v = model(tag, x)
        if k == 'raise':
            return 'boom', v
        if k == 'omit':
            continue
        n += 1
        if mx is not None and n > mx:
            return 'err', [('too_long', ())]
        if k == 'bad':
            er.append((v, (i,)))
            if ff:
                return 'err', er
        else:
            out.append(v)
    if er:
        return 'err', er
    if mn is not None and len(out) < mn:
        return 'err', [('too_short', ())]
    return 'ok', out


def ref_set(tag, seq, mn, mx, ff, it_at=None):
    out, er = set(), []
    for i, x in enumerate(list(seq) + ([None] if it_at is not None and it_at == len(seq) else [])):
        if it_at is not None and i == it_at:
            return 'err', [('iteration_error', (i,))]
        k, v = model(tag, x)
        if k == 'raise':
            return 'boom', v
        if k == 'omit':
            continue
        if k == 'ok' and isinstance(v, list):
            k, v = 'bad', 'set_item_not_hashable'
        if k == 'bad':
            er.append((v, (i,)))
            if ff:
                return 'err', er
        else:
            out.add(v)
            if mx is not None and len(out) > mx:
                return 'err', [('too_long', ())]
    if er:
        return 'err', er
    if mn is not None and len(out) < mn:
        return 'err', [('too_short', ())]
    return 'ok', out


def ref_tuple(tags, defaults, var, seq, mn, mx, ff, it_at=None):
    """tags: one per item schema; var: index of the variadic one or None; defaults: set of tags with a default"""
    full = list(seq)
    raising = it_at is not None
    if raising:
        full = full[:it_at]
    n = len(full)
    # assignment of a schema to every position
    head = tags if var is None else tags[:var]
    tail = [] if var is None else tags[var + 1:]
    out, er = [], []

    def one(i, tag):
        k, v = model(tag, full[i])
        if k == 'raise':
            raise Boom(v)
        if k == 'omit':
            return
        if k == 'bad':
            er.append((v, (i,)))
            return
        out.append(v)
        if mx is not None and len(out) > mx:
            raise OverflowError

    plan = []
    for j, t in enumerate(head):
        plan.append((j, t, j < n))
    if var is not None:
        rest = max(n - len(head), 0)
        nvar = max(rest - len(tail), 0)
        for j in range(nvar):
            plan.append((len(head) + j, tags[var], True))
        base = len(head) + nvar
        for j, t in enumerate(tail):
            plan.append((base + j, t, base + j < n))
    try:
        for i, t, present in plan:
            if present:
                one(i, t)
            elif t in defaults:
                out.append('D' + t)
            else:
                er.append(('missing', (i,)))
            if ff and er:
                break
        else:
            if var is None and n > len(head):
                raise OverflowError
    except Boom as e:
        return 'boom', e.args[0]
    except OverflowError:
        return 'err', [('too_long', ())]
    if raising:
        return 'iter', None
    if mn is not None and len(out) < mn:
        er = er + [('too_short', ())]
    if er:
        return 'err', er
    return 'ok', tuple(out)


def compare(ctx, key, exp, got, lens, nontrivial, mn, mx, outlen=None):
    """got: raw() result; exp: reference"""
    kind, v = got
    if exp[0] == 'ok':
        ok = kind == 'ok' and canon(v) == canon(exp[1])
        lab = 'ok'
    elif exp[0] == 'boom':
        ok = kind == 'exc' and type(v) is Boom and v.args[0] == exp[1]
        lab = 'boom'
    else:
        lab = exp[1][0][0] + str(len(exp[1]))
        ok = kind == 'err' and list(errs(v)) == exp[1]
        if ok:
            for e in v.errors(include_url=False):
                if e['type'] == 'too_long':
                    c = e['ctx']
                    ok = ok and c['max_length'] == mx and c['actual_length'] in (lens, None, outlen)
                elif e['type'] == 'too_short':
                    c = e['ctx']
                    ok = ok and c['min_length'] == mn and c['actual_length'] < mn
    ctx.ev(lab, nontrivial)
    if not ok:
        ctx.fail(key, expected=exp, got=(kind, canon(v) if kind == 'ok' else (errs(v) if kind == 'err' else v)))


def run(v, form, inp):
    return raw(v.validate_json, inp) if form == 'json' else raw(v.validate_python, inp)


def explore(ctx):
    L = 4 if ctx.quick else 6
    bnds = [None, 0, 1, 2, 3] if ctx.quick else [None, 0, 1, 2, 3, 4]
    # --- list / set / frozenset -------------------------------------------
    for kind in ('list', 'set', 'frozenset'):
        for mn, mx, ff in itertools.product(bnds, bnds, (False, True)):
            if kind != 'list' and not ctx.quick and (mn == 4 or mx == 4):
                continue
            for form in ctx.split(FORMS):
                f = {'list': cs.list_schema, 'set': cs.set_schema, 'frozenset': cs.frozenset_schema}[kind]
                v = SchemaValidator(f(mk('v'), min_length=mn, max_length=mx, fail_fast=ff))
                ref = ref_list if kind == 'list' else ref_set
                alpha = ('a', 'b', 'x', 'o', 'r') if kind == 'list' else ('a', 'b', 'x', 'o', 'u')
                for seq in seqs(alpha, L):
                    fi = form_input(form, seq)
                    if fi is None:
                        continue
                    inp, order, n = fi
                    ctx.case(kind, mn, mx, ff, form, seq)
                    exp = ref('v', order, mn, mx, ff)
                    if exp[0] == 'ok' and kind == 'frozenset':
                        exp = ('ok', frozenset(exp[1]))
                    compare(ctx, f'{kind} min={mn} max={mx} ff={ff} form={form} seq={"".join(seq)}', exp, run(v, form, inp), n,
                            (kind, mn, mx, ff, form, seq) if len(seq) > 1 else None, mn, mx)
                ctx.sample(kind, mn, mx, ff, form)
            # raising iterators and infinite iterators
            for at in ctx.split(range(L)):
                f = {'list': cs.list_schema, 'set': cs.set_schema, 'frozenset': cs.frozenset_schema}[kind]
                v = SchemaValidator(f(mk('v'), min_length=mn, max_length=mx, fail_fast=ff))
                ref = ref_list if kind == 'list' else ref_set
                for seq in seqs(('a', 'b', 'x', 'o'), L - 1):
                    if at > len(seq):
                        continue
                    exp = ref('v', seq, mn, mx, ff, it_at=at)
                    if exp[0] == 'ok' and kind == 'frozenset':
                        exp = ('ok', frozenset(exp[1]))
                    compare(ctx, f'{kind} min={mn} max={mx} ff={ff} raising at={at} seq={"".join(seq)}', exp,
                            raw(v.validate_python, RaisingIter(seq, at)), None, (kind, mn, mx, ff, at, seq), mn, mx)
                if mx is not None and at < 2:
                    # an endless source: must stop after max_length + 1 items (one item of look-ahead allowed)
                    src = CountIter(['a'] if kind == 'list' else ['a%d' % i for i in range(mx + 3)])
                    r = raw(v.validate_python, iter(src))
                    ctx.ev('endless', (kind, mn, mx, ff, 'endless'))
                    if not (r[0] == 'err' and errs(r[1]) == (('too_long', ()),) and src.n <= mx + 2):
                        ctx.fail(f'{kind} endless max={mx}', got=r, consumed=src.n)
    # --- no items schema -----------------------------------------------------
    for kind in ('list', 'set', 'frozenset'):
        for mn, mx in ctx.split(list(itertools.product(bnds, bnds))):
            f = {'list': cs.list_schema, 'set': cs.set_schema, 'frozenset': cs.frozenset_schema}[kind]
            v = SchemaValidator(f(min_length=mn, max_length=mx))
            for form in FORMS:
                for seq in seqs(('a', 'b', 'c'), L):
                    fi = form_input(form, seq)
                    if fi is None:
                        continue
                    inp, order, n = fi
                    if kind == 'list':
                        out, m = list(order), len(order)
                        short_first = form == 'list'
                    else:
                        out = set(order) if kind == 'set' else frozenset(order)
                        m, short_first = len(out), False
                    toolong = mx is not None and m > mx
                    tooshort = mn is not None and m < mn
                    if toolong or tooshort:
                        exp = ('err', [('too_short', ())] if (tooshort and (short_first or not toolong)) else [('too_long', ())])
                    else:
                        exp = ('ok', out)
                    got = run(v, form, inp)
                    compare(ctx, f'{kind} any min={mn} max={mx} form={form} seq={"".join(seq)}', exp, got, n,
                            (kind, 'any', mn, mx, form, seq) if len(seq) > 1 else None, mn, mx)
                    if got[0] == 'ok' and got[1] is inp:
                        ctx.fail(f'{kind} any returns the input object itself', form=form, seq=seq)
    # --- tuples ---------------------------------------------------------------
    TL = 4 if ctx.quick else 6
    shapes = []
    for n in range(0, 4 if ctx.quick else 5):
        tags = [str(i) for i in range(n)]
        for var in [None] + list(range(n)):
            for ndef in range(0, (n if var is None else n - var - 1) + 1):
                # defaults on the last ndef schemas (python call style)
                shapes.append((tags, frozenset(tags[n - ndef:]) if ndef else frozenset(), var))
    for tags, defs, var in shapes:
        for mn, mx, ff in itertools.product([None, 1, 3], [None, 0, 2, 3], (False, True)):
            for form in ctx.split(FORMS):
                items = [cs.with_default_schema(mk(t), default='D' + t) if t in defs else mk(t) for t in tags]
                if var is not None and tags[var] in defs:
                    continue
                v = SchemaValidator(cs.tuple_schema(items, variadic_item_index=var, min_length=mn, max_length=mx, fail_fast=ff))
                for seq in seqs(('a', 'x', 'o', 'b') if len(tags) < 4 else ('a', 'x', 'o'), TL):
                    # label every item with its position so that a misassigned item shows
                    lab = tuple(f'{c}{i}' for i, c in enumerate(seq))
                    fi = form_input(form, lab)
                    if fi is None:
                        continue
                    inp, order, n = fi
                    ctx.case('tuple', tags, defs, var, mn, mx, ff, form, seq)
                    exp = ref_tuple(tags, defs, var, order, mn, mx, ff)
                    compare(ctx, f'tuple n={len(tags)} var={var} defs={sorted(defs)} min={mn} max={mx} ff={ff} form={form} seq={"".join(seq)}',
                            exp, run(v, form, inp), n, (tuple(tags), defs, var, mn, mx, ff, form, seq) if len(seq) > 1 else None,
                            mn, mx if mx is not None and (var is not None or True) and not (var is None and mx is None) else len(tags)) \
                        if not (var is None and exp[0] == 'err' and exp[1][0][0] == 'too_long') else \
                        tuple_too_long(ctx, tags, defs, var, mn, mx, ff, form, seq, exp, run(v, form, inp))
            for at in ctx.split(range(3)):
                items = [cs.with_default_schema(mk(t), default='D' + t) if t in defs else mk(t) for t in tags]
                v = SchemaValidator(cs.tuple_schema(items, variadic_item_index=var, min_length=mn, max_length=mx, fail_fast=ff))
                for seq in seqs(('a', 'b'), 3):
                    if at > len(seq):
                        continue
                    exp = ref_tuple(tags, defs, var, seq, mn, mx, ff, it_at=at)
                    got = raw(v.validate_python, RaisingIter(seq, at))
                    ctx.ev('tuple-iter-error', (tuple(tags), defs, var, mn, mx, ff, at, seq))
                    # the source fails while it is being read: an error is reported whatever the shape
                    if got[0] != 'err':
                        # a fixed tuple may be complete before the failing read only if it never needs it
                        ctx.fail(f'tuple n={len(tags)} var={var} raising at={at} seq={"".join(seq)} ff={ff} accepted', got=got, exp=exp)
    # --- dict -------------------------------------------------------------------
    DL = 3 if ctx.quick else 4
    for mn, mx in itertools.product([None, 1, 2], [None, 0, 1, 2]):
        for form in ctx.split(['dict', 'mapping', 'proxy', 'json', 'ordered']):
            v = SchemaValidator(cs.dict_schema(mk('k'), mk('v'), min_length=mn, max_length=mx))
            for seq in seqs([a + b for a in 'acxo' for b in 'axor'], DL):
                pairs = [(p[0] + str(i), p[1] + str(i)) for i, p in enumerate(seq)]
                d = dict(pairs)
                inp = {'dict': lambda: d, 'mapping': lambda: collections.UserDict(d), 'proxy': lambda: types.MappingProxyType(d),
                       'json': lambda: json.dumps(d), 'ordered': lambda: collections.OrderedDict(d)}[form]()
                ctx.case('dict', mn, mx, form, seq)
                out, er, exp = {}, [], None
                for k, x in pairs:
                    kk, kv = model('k', k)
                    if kk == 'raise':
                        exp = ('boom', k)
                        break
                    if kk == 'bad':
                        er.append((kv, (k, '[key]')))
                    if kk == 'omit':
                        continue
                    vk, vv = model('v', x)
                    if vk == 'raise':
                        exp = ('boom', x)
                        break
                    if vk == 'bad':
                        er.append((vv, (k,)))
                    elif vk == 'ok' and kk == 'ok':
                        out[kv] = vv
                if exp is None:
                    if er:
                        exp = ('err', er)
                    elif mn is not None and len(out) < mn:
                        exp = ('err', [('too_short', ())])
                    elif mx is not None and len(out) > mx:
                        exp = ('err', [('too_long', ())])
                    else:
                        exp = ('ok', out)
                compare(ctx, f'dict min={mn} max={mx} form={form} seq={"-".join(seq)}', exp, run(v, form, inp), len(out),
                        ('dict', mn, mx, form, seq) if len(seq) > 1 else None, mn, mx)
    # --- native leaves: int items and keys, colliding after conversion --------------
    ints = [1, '1', 2, 'x', 1.0]
    for kind in ctx.split(['list', 'set', 'frozenset', 'dictk', 'dictv', 'tuple']):
        for seq in seqs(ints, L):
            conv = [int(x) if x != 'x' else None for x in seq]
            er = [('int_parsing', (i,)) for i, c in enumerate(conv) if c is None]
            if kind == 'list':
                v, inp, out = cs.list_schema(cs.int_schema()), list(seq), conv
            elif kind == 'tuple':
                v, inp, out = cs.tuple_schema([cs.int_schema()], variadic_item_index=0), list(seq), tuple(conv)
            elif kind == 'set':
                v, inp, out = cs.set_schema(cs.int_schema()), list(seq), set(conv)
            elif kind == 'frozenset':
                v, inp, out = cs.frozenset_schema(cs.int_schema()), list(seq), frozenset(conv)
            elif kind == 'dictv':
                v, inp = cs.dict_schema(cs.str_schema(), cs.int_schema()), {str(i): x for i, x in enumerate(seq)}
                out = {str(i): x for i, x in enumerate(conv)}
                er = [(t, (str(l[0]),)) for t, l in er]
            else:
                v = cs.dict_schema(cs.int_schema(), cs.int_schema())
                inp = {}
                for i, x in enumerate(seq):
                    inp.setdefault(x, i)
                out = {}
                er = []
                for k, i in inp.items():
                    if k == 'x':
                        er.append(('int_parsing', ('x', '[key]')))
                    else:
                        out[int(k)] = i
            got = raw(SchemaValidator(v).validate_python, inp)
            compare(ctx, f'native {kind} {seq!r}', ('err', er) if er else ('ok', out), got, None, (kind, seq), None, None)
    # --- collections inside collections: locations compose --------------------------
    inner = ['g', 'b']
    for outer, mid in ctx.split(list(itertools.product(['list', 'dict', 'tuple', 'set'], ['list', 'dict', 'tuple', 'frozenset']))):
        def wrap(kind, s):
            return {'list': lambda: cs.list_schema(s), 'dict': lambda: cs.dict_schema(cs.str_schema(), s), 'tuple': lambda: cs.tuple_schema([s], variadic_item_index=0),
                    'set': lambda: cs.set_schema(s), 'frozenset': lambda: cs.frozenset_schema(s)}[kind]()
        v = SchemaValidator(wrap(outer, wrap(mid, cs.int_schema())))
        for shape in seqs(list(seqs((1, 'x'), 2)), 2 if ctx.quick else 3):
            def build(kind, xs):
                if kind == 'dict':
                    return {f'k{i}': x for i, x in enumerate(xs)}
                return list(xs)
            def loc(kind, i):
                return f'k{i}' if kind == 'dict' else i
            inp = build(outer, [build(mid, xs) for xs in shape])
            er = [('int_parsing', (loc(outer, i), loc(mid, j))) for i, xs in enumerate(shape) for j, x in enumerate(xs) if x == 'x']
            if outer == 'set' and mid in ('list', 'dict'):
                # unhashable results are reported at their index as well (in order)
                er = []
                for i, xs in enumerate(shape):
                    bad = [('int_parsing', (i, loc(mid, j))) for j, x in enumerate(xs) if x == 'x']
                    er += bad or [('set_item_not_hashable', (i,))]
            got = raw(v.validate_python, inp)
            ctx.ev('nested', (outer, mid, shape))
            if er:
                if not (got[0] == 'err' and list(errs(got[1])) == er):
                    ctx.fail(f'nested {outer}[{mid}] {shape!r}', expected=er, got=errs(got[1]) if got[0] == 'err' else got)
            elif got[0] != 'ok':
                ctx.fail(f'nested {outer}[{mid}] {shape!r} rejected', got=got)


def tuple_too_long(ctx, tags, defs, var, mn, mx, ff, form, seq, exp, got):
    ctx.ev('tuple_too_long', (tuple(tags), defs, var, mn, mx, ff, form, seq))
    kind, v = got
    if not (kind == 'err' and list(errs(v)) == exp[1]):
        ctx.fail(f'tuple n={len(tags)} var={var} defs={sorted(defs)} min={mn} max={mx} ff={ff} form={form} seq={"".join(seq)}', expected=exp,
                 got=errs(v) if kind == 'err' else v)
