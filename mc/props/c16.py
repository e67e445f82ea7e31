"""C16: partial validation.  Exhaustive enumeration of schema compositions x trees x partial modes, and of every prefix of every
document of a document set, against a reference interpreter of the partial rule working on an independently parsed tree (C04's
reference parser); plus the growth relation between consecutive prefixes."""
import itertools, json
from pydantic_core import from_json
from mc.lib import *
from mc.zoo import mk
from mc.props.c04 import Ref, EOF, BAD


def parse_ref(x, partial=None):
    try:
        return ('ok', Ref(x, True, partial).doc())
    except EOF:
        return ('eof',)
    except BAD:
        return ('bad',)

LEVEL = 'exploration'
RULE = ('schema (composition of container kinds) x tree or document prefix x partial mode (off, on, trailing-strings) x input form (python, JSON); non-trivial: the partial flag '
        'changes the result, or the trailing element is invalid or incomplete')
ASSUME = ['mapping keys, forbidden extras and required fields are reported even in the last position, as the code does',
          'tuples, models, dataclasses, arguments, generators, definition references and wrap handlers are documented not to support partial mode: within them it is off',
          'a list counts its dropped last element towards max_length, a set or dict does not',
          'aliases with more than one path element are not judged']
BOUNDS = {'quick': 'compositions of depth 2 over 34 kinds; trees of depth <= 3 with <= 3 children; every prefix of 22 documents',
          'thorough': 'compositions of depth 3; larger trees'}

OFF, ON, TS = False, True, 'trailing-strings'


DEFS = {}


def refs(x, acc):
    if type(x) is dict:
        if x.get('type') == 'definition-ref':
            r = x['schema_ref']
            if r not in acc:
                acc.add(r)
                refs(DEFS[r], acc)
        else:
            for y in x.values():
                refs(y, acc)
    elif type(x) is list or type(x) is tuple:
        for y in x:
            refs(y, acc)
    return acc


class S:
    def __init__(self, name, schema, ref):
        self.name, self.schema, self.ref = name, schema, ref
        self.v = None
        self.dflt = None

    def val(self):
        if self.v is None:
            ds = sorted(refs(self.schema, set()))
            self.v = SchemaValidator(cs.definitions_schema(self.schema, [DEFS[r] for r in ds]) if ds else self.schema)
        return self.v


def ok(x): return ('ok', x)
def err(*es): return ('err', list(es))
OMIT = ('omit',)
def shift(es, *pre): return [(t, tuple(pre) + tuple(l)) for t, l in es]


def s_int():
    def f(x, p):
        if type(x) is int:
            return ok(x) if x >= 10 else err(('greater_than_equal', ()))
        return err(('int_type', ()))
    return S('int', cs.int_schema(strict=True, ge=10), f)


def s_str():
    def f(x, p):
        if type(x) is str:
            return ok(x) if len(x) >= 2 else err(('string_too_short', ()))
        return err(('string_type', ()))
    return S('str', cs.str_schema(strict=True, min_length=2), f)


def s_any():
    return S('any', cs.any_schema(), lambda x, p: ok(x))


def seq(inner, kind, lo=None, hi=None, ff=False):
    mkr = {'list': cs.list_schema, 'set': cs.set_schema, 'frozenset': cs.frozenset_schema}[kind]
    kw = {k: v for k, v in (('min_length', lo), ('max_length', hi), ('fail_fast', ff or None)) if v is not None}
    tys = {'list': list, 'set': set, 'frozenset': frozenset}[kind]

    def f(x, p):
        if type(x) is not list:
            return err((f'{"frozen_set" if kind == "frozenset" else kind}_type', ()))
        out, es, cnt = [], [], 0
        for i, e in enumerate(x):
            last = bool(p) and i == len(x) - 1
            r = inner.ref(e, p if last else OFF)
            if r[0] == 'ok' and kind != 'list':
                try:
                    hash(r[1])
                except TypeError:
                    r = err(('set_item_not_hashable', ()))
            if r is OMIT:
                continue
            if r[0] == 'err' and kind == 'list' or r[0] == 'ok':
                cnt += 1
                if r[0] == 'ok':
                    out.append(r[1])
                n = cnt if kind == 'list' else len(set(out))
                if hi is not None and n > hi:
                    return err(('too_long', ()))
            if r[0] == 'err' and not last:
                es += shift(r[1], i)
                if ff:
                    break
        if es:
            return ('err', es)
        out = tys(out)
        if lo is not None and len(out) < lo:
            return err(('too_short', ()))
        return ok(out)
    return S(f'{kind}{"" if lo is None else f">={lo}"}{"" if hi is None else f"<={hi}"}{"!" if ff else ""}({inner.name})', mkr(inner.schema, **kw), f)


def dct(inner, lo=None, hi=None, keys=None):
    kw = {k: v for k, v in (('min_length', lo), ('max_length', hi)) if v is not None}

    def f(x, p):
        if type(x) is not dict:
            return err(('dict_type', ()))
        out, es = {}, []
        for i, (k, e) in enumerate(x.items()):
            last = bool(p) and i == len(x) - 1
            kr = keys.ref(k, OFF) if keys else ok(k)
            if kr[0] == 'err':
                es += shift(kr[1], k, '[key]')
            r = inner.ref(e, p if last else OFF)
            if r is OMIT:
                continue
            if r[0] == 'err':
                if not last:
                    es += shift(r[1], k)
                continue
            if kr[0] == 'ok':
                out[kr[1]] = r[1]
        if es:
            return ('err', es)
        if lo is not None and len(out) < lo:
            return err(('too_short', ()))
        if hi is not None and len(out) > hi:
            return err(('too_long', ()))
        return ok(out)
    return S(f'dict{"" if lo is None else f">={lo}"}{"" if hi is None else f"<={hi}"}{"[k]" if keys else ""}({inner.name})',
             cs.dict_schema(keys.schema if keys else None, inner.schema, **kw), f)


def td(inner, req=(), extra='ignore', alias=False, default=None, xs=False):
    names = ['a', 'b', 'c']
    al = {n: (n.upper() if alias else n) for n in names}
    fs = {}
    for n in names:
        sch = inner.schema
        if n == 'c' and default is not None:
            sch = cs.with_default_schema(sch, default=default, validate_default=True)
        fs[n] = cs.typed_dict_field(sch, required=n in req, **({'validation_alias': al[n]} if alias else {}))
    kw = {}
    if xs:
        kw['extras_schema'] = inner.schema

    def f(x, p):
        if type(x) is not dict:
            return err(('dict_type', ()))
        out, es = {}, []
        lastk = list(x)[-1] if x and p else None
        for n in names:
            if al[n] in x:
                last = lastk == al[n]
                r = inner.ref(x[al[n]], p if last else OFF)
                if r is OMIT:
                    continue
                if r[0] == 'ok':
                    out[n] = r[1]
                elif not last or n in req:
                    es += shift(r[1], al[n])
            elif n == 'c' and default is not None:
                r = inner.ref(default, OFF)
                if r[0] == 'ok':
                    out[n] = r[1]
                elif r[0] == 'err':
                    es += shift(r[1], n)
            elif inner.dflt is not None:
                out[n] = inner.dflt
            elif n in req:
                es.append(('missing', (al[n],)))
        if extra != 'ignore':
            for k, e in x.items():
                if k in al.values():
                    continue
                if extra == 'forbid':
                    es.append(('extra_forbidden', (k,)))
                elif xs:
                    last = lastk == k
                    r = inner.ref(e, p if last else OFF)
                    if r is OMIT:
                        return None
                    if r[0] == 'ok':
                        out[k] = r[1]
                    elif not last:
                        es += shift(r[1], k)
                else:
                    out[k] = e
        return ('err', es) if es else ok(out)
    return S(f'td{",".join(req)}{"" if extra == "ignore" else extra}{"A" if alias else ""}{"D" if default is not None else ""}{"X" if xs else ""}({inner.name})',
             cs.typed_dict_schema(fs, extra_behavior=extra, **kw), f)


def passthrough(name, schema, inner):
    return S(f'{name}({inner.name})', schema, inner.ref)


def off(name, schema, inner):
    return S(f'{name}({inner.name})', schema, lambda x, p: inner.ref(x, OFF))


class M:
    """a fresh instance: equal to nothing else"""
    def __init__(self, x): self.x = x


class MR:
    __slots__ = '__dict__', '__pydantic_fields_set__', '__pydantic_extra__', '__pydantic_private__'


class DC16:
    __slots__ = ('__dict__',)


def fields_off(name, schema, inner, tyerr, wrapv):
    """a one field {'a': inner} object without partial support"""
    def f(x, p):
        if type(x) is not dict:
            return err((tyerr, ()))
        if 'a' not in x:
            return ok(wrapv(inner.dflt)) if inner.dflt is not None else err(('missing', ('a',)))
        r = inner.ref(x['a'], OFF)
        if r is OMIT:
            return None
        if r[0] == 'err':
            return ('err', shift(r[1], 'a'))
        return ok(wrapv(r[1]))
    return S(f'{name}({inner.name})', schema, f)


def tup(inner):
    def f(x, p):
        if type(x) is not list:
            return err(('tuple_type', ()))
        out, es = [], []
        for i, e in enumerate(x):
            r = inner.ref(e, OFF)
            if r is OMIT:
                continue
            if r[0] == 'err':
                es += shift(r[1], i)
            else:
                out.append(r[1])
        return ('err', es) if es else ok(tuple(out))
    return S(f'tuple({inner.name})', cs.tuple_variable_schema(inner.schema), f)


def union(name, bs, mode):
    def f(x, p):
        rs = [b.ref(x, p) for b in bs]
        if any(r is None or r is OMIT for r in rs):
            return None
        oks = [r for r in rs if r[0] == 'ok']
        if oks:
            return oks[0] if mode == 'left_to_right' or len(oks) == 1 else ('one of', [r[1] for r in oks])
        es = []
        for i, r in enumerate(rs):
            if r[0] != 'err':
                return None
            es += shift(r[1], f'b{i}')
        return ('err', es)
    return S(name, cs.union_schema([(b.schema, f'b{i}') for i, b in enumerate(bs)], mode=mode), f)


def tagged(inner):
    a = td(inner, extra='allow')

    def f(x, p):
        if type(x) is not dict:
            return err(('dict_type', ()))
        if 't' not in x:
            return err(('union_tag_not_found', ()))
        if x['t'] != 'a':
            return err(('union_tag_invalid', ()))
        r = a.ref(x, p)
        return r if r is None or r[0] == 'ok' else ('err', shift(r[1], 'a'))
    return S(f'tagged({inner.name})', cs.tagged_union_schema({'a': a.schema}, discriminator='t'), f)


def json_s(inner):
    def f(x, p):
        if type(x) is not str:
            return err(('json_type', ()))
        w = parse_ref(x, partial=p if p else None)
        if w[0] != 'ok':
            return err(('json_invalid', ()))
        return inner.ref(w[1], p)
    return S(f'json({inner.name})', cs.json_schema(inner.schema), f)


def custom(inner):
    def f(x, p):
        r = inner.ref(x, p)
        return r if r is None or r[0] != 'err' else err(('boom', ()))
    return S(f'custom({inner.name})', cs.custom_error_schema(inner.schema, 'boom', custom_error_message='boom'), f)


def deflt(inner, oe):
    def f(x, p):
        r = inner.ref(x, p)
        if r is None or r[0] == 'ok' or oe == 'raise':
            return r
        return OMIT if oe == 'omit' else ok('D') if oe == 'default' else r
    s = S(f'default-{oe}({inner.name})', cs.with_default_schema(inner.schema, **({'default': 'D'} if oe == 'default' else {}), on_error=oe), f)
    s.dflt = 'D' if oe == 'default' else None
    return s


def nullable(inner):
    def f(x, p):
        return ok(None) if x is None else inner.ref(x, p)
    return S(f'nullable({inner.name})', cs.nullable_schema(inner.schema), f)


N = [0]


def defref(inner):
    N[0] += 1
    r = f'd{N[0]}'
    DEFS[r] = dict(inner.schema, ref=r)
    s = off('defref', cs.definition_reference_schema(r), inner)
    s.dflt = inner.dflt
    return s


KINDS = [
    lambda i: seq(i, 'list'), lambda i: seq(i, 'list', lo=1), lambda i: seq(i, 'list', hi=1), lambda i: seq(i, 'list', ff=True),
    lambda i: seq(i, 'set'), lambda i: seq(i, 'set', hi=1), lambda i: seq(i, 'frozenset', lo=1),
    lambda i: dct(i), lambda i: dct(i, lo=1), lambda i: dct(i, hi=1), lambda i: dct(i, keys=s_str()),
    lambda i: td(i), lambda i: td(i, req=('a',)), lambda i: td(i, extra='forbid'), lambda i: td(i, extra='allow'), lambda i: td(i, extra='allow', xs=True),
    lambda i: td(i, alias=True), lambda i: td(i, req=('b',), default=['q']), lambda i: td(i, default=[10, 1]),
    nullable, lambda i: deflt(i, 'raise'), lambda i: deflt(i, 'default'), lambda i: deflt(i, 'omit'), custom, json_s, tagged,
    lambda i: passthrough('before', cs.no_info_before_validator_function(lambda x: x, i.schema), i),
    lambda i: passthrough('after', cs.no_info_after_validator_function(lambda x: x, i.schema), i),
    lambda i: passthrough('lax', cs.lax_or_strict_schema(i.schema, i.schema), i),
    lambda i: passthrough('jop', cs.json_or_python_schema(i.schema, i.schema), i),
    lambda i: off('wrap', cs.no_info_wrap_validator_function(lambda x, h: h(x), i.schema), i),
    defref, tup,
    lambda i: fields_off('model', cs.model_schema(MR, cs.model_fields_schema({'a': cs.model_field(i.schema)})), i, 'model_type', M),
    lambda i: fields_off('dc', cs.dataclass_schema(DC16, cs.dataclass_args_schema('DC16', [cs.dataclass_field('a', i.schema)]), ['a']), i, 'dataclass_type', M),
]


def unions(i):
    """every kind as a first branch in front of a list / dict / typed dict: what a failing branch leaves behind"""
    L, D, T = seq(i, 'list'), dct(i), td(i)
    for k in KINDS:
        a = k(i)
        for b in (L, D, T):
            for mode in ('left_to_right', 'smart'):
                yield union(f'union-{mode}[{a.name},{b.name}]', [a, b], mode)
    for mode in ('left_to_right', 'smart'):
        yield union(f'union-{mode}[list,dict,td]({i.name})', [L, D, T], mode)


def norm(x):
    """canonical form in which a model / dataclass is ('M', value)"""
    t = type(x)
    if t is MR or t is DC16:
        return ('M', norm(x.__dict__['a']))
    if t is M:
        return ('M', norm(x.x))
    if t is list or t is tuple:
        return (t.__name__,) + tuple([norm(i) for i in x])
    if t is dict:
        return ('dict',) + tuple([(k, norm(v)) for k, v in x.items()])
    if t is set or t is frozenset:
        return (t.__name__,) + tuple(sorted([norm(i) for i in x], key=repr))
    return canon(x)


def run(f, *a, **k):
    try:
        return ('ok', norm(f(*a, **k)))
    except ValidationError as e:
        return ('err', [(x['type'].replace('model_attributes_type', 'dict_type'), x['loc']) for x in e.errors(include_url=False, include_input=False, include_context=False)])
    except BaseException as e:
        guard(e, 'partial')
        return ('exc', repr(e)[:200])


def unordered(r):
    return r


def judge(ctx, s, x, p, got, key, off_r=None):
    w = s.ref(x, p)
    if w is None:
        ctx.ev('unjudged', None)
        return None
    if w[0] == 'ok':
        good = got == ('ok', norm(w[1]))
    elif w[0] == 'one of':
        good = got[0] == 'ok' and got[1] in [norm(y) for y in w[1]]
    elif w is OMIT:
        good = got[0] == 'exc'
    else:
        good = got == w
    if not good:
        ctx.fail(f'{s.name} {key} partial={p}', got=got, want=w)
    return w


class Mp(collections.abc.Mapping):
    def __init__(self, d): self._d = d
    def __getitem__(self, k): return self._d[k]
    def __iter__(self): return iter(self._d)
    def __len__(self): return len(self._d)


def trees(deep):
    leaves = [10, 1, 'ab', 'x', None]
    l0 = [10, 1, 'ab']
    t1 = [[]] + [list(c) for n in (1, 2, 3) for c in itertools.product(l0, repeat=n)]
    ks = [('a',), ('a', 'b'), ('b', 'a'), ('c', 'a'), ('z', 'b'), ('b', 'z'), ('a', 'b', 'c'), ('c', 'z', 'a'), ('A',), ('B', 'C'), ('C', 'A', 'B')]
    d1 = [{}] + [dict(zip(k, c)) for k in ks for c in itertools.product((10, 1), repeat=len(k))]
    l2 = [[10], [10, 1], [1, 10], [], {'a': 10}, {'a': 10, 'b': 1}, {'b': 1, 'a': 10}, 10, 1]
    t2 = [list(c) for n in (1, 2) for c in itertools.product(l2, repeat=n)]
    d2 = [dict(zip(k, c)) for k in [('a',), ('a', 'b'), ('c', 'a'), ('z',), ('A', 'C')] for c in itertools.product(l2[:8], repeat=len(k))]
    tg = [{'t': 'a', 'a': 10, 'b': 1}, {'a': 1, 't': 'a'}, {'t': 'b'}, {'t': 'a', 'a': [10, 1]}, {'a': {'t': 'a', 'b': 1}}, [{'t': 'a', 'a': 1}, {'t': 'a', 'a': 1}],
          {'t': 'a', 'a': 10, 'zz': 1}]
    js = ['[10, 1', '[10, 1]', '{"a": 10, "b": 1', '["ab', '{"a": ["ab", "cd', '[10, 2', '[[10, 1], [10, 1', '']
    jl = [[j] for j in js] + [[j, '[1'] for j in js] + [{'a': j} for j in js] + [{'a': j, 'b': j} for j in js]
    out = leaves + t1 + d1 + t2 + d2 + tg + js + jl
    if deep:
        l3 = [[[10, 1]], [{'a': 1}], {'a': [1]}, {'a': {'b': 1}}, [[1], [10]], {'b': {'a': 10}, 'a': [1]}] + l2
        out += [list(c) for n in (1, 2, 3) for c in itertools.product(l3, repeat=n)] + [dict(zip(k, c)) for k in ks for c in itertools.product(l3, repeat=len(k)) if len(k) < 3]
    return out


def schemas(ctx):
    leaves = [s_int(), s_str()]
    for i in leaves:
        for k in KINDS:
            yield lambda k=k, i=i: k(i)
    for k1, k2 in itertools.product(KINDS, repeat=2):
        yield lambda k1=k1, k2=k2: k1(k2(s_int()))
    for k in KINDS:
        yield lambda k=k: k(s_any())
    un = len(list(unions(s_int())))
    for n in range(un):
        yield lambda n=n: list(unions(s_int()))[n]
    for k in KINDS:
        yield lambda k=k: k(union('u', [seq(s_int(), 'list'), dct(s_int())], 'smart'))
        yield lambda k=k: k(union('u', [seq(tup(s_int()), 'list'), seq(s_int(), 'list')], 'left_to_right'))
    if not ctx.quick:
        for k1, k2, k3 in itertools.product(KINDS, repeat=3):
            yield lambda k1=k1, k2=k2, k3=k3: k1(k2(k3(s_int())))


def explore_trees(ctx):
    ts = trees(not ctx.quick)
    tj = [json.dumps(t) for t in ts]
    small = trees(False)
    ns = len(small)
    for n, mkr in ctx.split(list(enumerate(schemas(ctx)))):
        s = mkr()
        try:
            v = s.val()
        except SchemaError as e:
            if 'required field' not in str(e) and 'omit_on_error cannot be used' not in str(e):
                ctx.fail(f'schema {s.name} rejected', e=str(e)[:300])
            continue
        deep3 = n >= 5000
        for t, j in zip(ts if not deep3 else small, tj):
            offr = None
            for p in (OFF, ON) if j[-2:-1] != '"' and '"[' not in j and '"{' not in j else (OFF, ON, TS):
                g = run(v.validate_python, t, allow_partial=p)
                w = judge(ctx, s, t, p, g, f'python {t!r}')
                g2 = run(v.validate_json, j, allow_partial=p)
                judge(ctx, s, t, p, g2, f'json {j}')
                if p is OFF:
                    offr = g
                elif w is not None:
                    ctx.ev(w[0], (w[0], offr[0], s.name.split('(')[0]) if offr != g else None, 2)
                    if offr[0] == 'ok' and 'union' not in s.name and 'u)' not in s.name and 'default-' not in s.name:
                        ctx.check(g == offr, f'{s.name} {t!r}: a complete valid document differs under partial={p}', got=g, want=offr)
        ctx.state(n)


def forms(ctx):
    """the last element of every kind of python input: iterators, views, mappings, subclasses, strings mode"""
    class L(list): pass
    class D(dict): pass
    it = {'list': list, 'tuple': tuple, 'iter': iter, 'gen': lambda x: (i for i in x), 'sub': L, 'deque': collections.deque,
          'keys': lambda x: dict.fromkeys(x).keys(), 'values': lambda x: dict(enumerate(x)).values(), 'map': lambda x: map(lambda y: y, x)}
    for kind in ('list', 'set', 'frozenset'):
        for lo, hi in ((None, None), (1, None), (None, 2), (2, 2)):
            s = seq(s_int(), kind, lo, hi)
            for n in range(5):
                for c in itertools.product((10, 11, 1), repeat=n):
                    for p in (OFF, ON):
                        for f, mkf in it.items():
                            if f == 'keys' and len(set(c)) < len(c):
                                continue
                            w = judge(ctx, s, list(c), p, run(s.val().validate_python, mkf(list(c)), allow_partial=p), f'{f} {c}')
                            ctx.ev(w[0], ('form', f, kind, p) if p and c and c[-1] == 1 else None)
    sets = [seq(s_int(), 'list'), seq(s_int(), 'set')]
    for s in sets:
        for c in [{10}, {1}, {10, 11}]:
            for p in (OFF, ON):
                judge(ctx, s, list(c), p, run(s.val().validate_python, c, allow_partial=p), f'set {c}')
    for mkd in (dict, D, Mp, collections.OrderedDict, lambda d: types.MappingProxyType(d)):
        for s in (dct(s_int()), td(s_int()), td(s_int(), extra='allow'), td(s_int(), extra='allow', xs=True), td(s_int(), req=('a',)), dct(td(s_int()))):
            for ks in itertools.chain.from_iterable(itertools.permutations('abz', n) for n in range(4)):
                for c in itertools.product((10, 1), repeat=len(ks)):
                    for p in (OFF, ON, TS):
                        d = dict(zip(ks, c))
                        w = judge(ctx, s, d, p, run(s.val().validate_python, mkd(d), allow_partial=p), f'{getattr(mkd, "__name__", "proxy")} {d}')
                        ctx.ev(w[0], ('mapping', p) if p and c and c[-1] == 1 else None)
    # strings mode: the dict / typed dict rule with string leaves
    st = S('int', cs.int_schema(ge=10), lambda x, p: (ok(int(x)) if int(x) >= 10 else err(('greater_than_equal', ()))) if type(x) is str and x.isdigit() else
           err(('int_parsing', ())) if type(x) is str else err(('int_type', ())))
    for s in (dct(st), td(st), td(st, extra='allow', xs=True), td(st, req=('a',)), dct(dct(st)), td(td(st)), dct(td(st))):
        for ks in itertools.chain.from_iterable(itertools.permutations('abz', n) for n in range(4)):
            for c in itertools.product(('10', '1', 'x') if 'dict(int' == s.name[:8] or s.name.startswith('td') and 'td(' not in s.name[3:] else ({'a': '10', 'b': '1'}, {'a': '1', 'b': '10'}), repeat=len(ks)):
                for p in (OFF, ON):
                    d = dict(zip(ks, c))
                    w = judge(ctx, s, d, p, run(s.val().validate_strings, d, allow_partial=p), f'strings {d}')
                    if w:
                        ctx.ev(w[0], ('strings', p) if p and c else None)


DOCS = ['[10, 11, 1]', '[12, 1, 13]', '["ab", "cd\\u00e9f", "gh"]', '[[10, 1], [10, 11], 5]', '[[1, 10], [10]]', '{"a": 10, "b": 11, "c": 1}', '{"c": 1, "a": 10}',
        '{"a": {"a": 10, "b": 1}, "b": {"a": 1}, "z": {"b": 10}}', '{"a": [10, 11], "b": [1, 10], "c": [10, 1]}', '[{"a": 10}, {"a": 10, "z": 11}, {"b": 1}]',
        '{"a": "xyz", "b": "qrs", "zz": "tuv"}', '[{"a": ["ab", "cde"]}, {"b": ["fgh", "i"]}]', '{"t": "a", "a": 10, "b": 11, "zz": 5}', '{"a": 10, "t": "a", "b": 1}',
        '["[10, 11]", "[10, 1]", "[10, 12"]', '{"a": "{\\"a\\": 10, \\"b\\": 11}", "b": "{\\"a\\": 1"}', '[null, [10], null, [1]]', '[1.5, -10, 1e5, true, nul', '123456', '"abcdef"',
        '{"a": 10, "a": 11, "b": 1, "a": 12}', ' [ 10 , { "a" : 10 } , [ ] ] ', '[10, 11,, 12]', '{"a": 10 "b": 1}', '[[[10, 11], [10]], [[10], [11, 1]]]',
        '{"A": 10, "B": 11, "C": 1}', '[10,11]x', '{"a":{"b":[{"c":10},{"a":11,"b":1}]}}']


def prefixes(ctx):
    sch = [k(i) for i in (s_int(), s_str(), s_any()) for k in KINDS]
    sch += [k1(k2(s_int())) for k1, k2 in itertools.product(KINDS, repeat=2)]
    sch += [k1(k2(s_str())) for k1, k2 in itertools.product(KINDS[:16] + [json_s], repeat=2)]
    sch += [seq(seq(seq(s_int(), 'list'), 'list'), 'list'), td(td(seq(td(s_int()), 'list'))), s_int(), s_str(), s_any()]
    sch += list(unions(s_int()))
    trees_ = {}
    for d in DOCS:
        for n in range(len(d) + 1):
            for p in (OFF, ON, TS):
                trees_[d[:n], p] = parse_ref(d[:n], partial=p or None)
    for s in ctx.split(sch):
        try:
            v = s.val()
        except SchemaError as e:
            if 'required field' not in str(e) and 'omit_on_error cannot be used' not in str(e):
                ctx.fail(f'schema {s.name} rejected', e=str(e)[:300])
            continue
        for d in DOCS:
            prev = {}
            for n in range(len(d) + 1):
                x = d[:n]
                for p in (OFF, ON, TS):
                    g = run(v.validate_json, x.encode() if n % 2 else x, allow_partial=p)
                    w = trees_[x, p]
                    if w[0] == 'bad' and p:
                        ctx.ev('no prefix of a document', None)
                        continue
                    if w[0] != 'ok':
                        if g[0] != 'err' or g[1] != [('json_invalid', ())]:
                            ctx.fail(f'{s.name} prefix {x!r} partial={p}', got=g, want='json_invalid')
                        ctx.ev('json_invalid', None)
                        continue
                    dup = d.count('"a"') > 1 and '"a": 10, "a"' in x
                    if dup:
                        # duplicate keys: dict schemas see every occurrence; only the absence of a crash is judged here (see C03)
                        ctx.ev('dup', None)
                        continue
                    r = judge(ctx, s, w[1], p, g, f'prefix {x!r}')
                    ctx.ev(r[0] if r else 'unjudged', (s.name.split('(')[0], p) if p and n < len(d) and r and r[0] == 'ok' else None)
                    # growth: what was kept and is no longer last never changes
                    if g[0] == 'ok' and p in prev:
                        a, b = prev[p], g[1]
                        if type(a) is tuple and a and type(b) is tuple and b and a[0] == b[0] and a[0] in ('list', 'dict') and 'omit' not in s.name and 'default' not in s.name and 'union' not in s.name:
                            if a[0] == 'list' and len(b) > len(a):
                                ctx.check(b[1:len(a) - 1] == a[1:-1], f'{s.name} growth {x!r} partial={p}', got=b, want=a)
                            elif a[0] == 'dict' and len(b) > len(a) and s.name.startswith('dict'):
                                ctx.check(b[1:len(a) - 1] == a[1:-1], f'{s.name} growth {x!r} partial={p}', got=b, want=a)
                    if g[0] == 'ok':
                        prev[p] = g[1]


def explore(ctx):
    explore_trees(ctx)
    prefixes(ctx)
    for f in ctx.split([forms]):
        f(ctx)
    ctx.sample({'schemas': len(list(schemas(ctx))), 'trees': len(trees(not ctx.quick)), 'docs': len(DOCS)})
