"""C14: recursive schemas and recursive data.  All object graphs of up to three nodes (each with an ordered list of up to two children
taken from the nodes, itself included) are built as dicts, model instances, dataclasses and attribute objects and pushed through
recursive validators and serializers of every shape; a depth-first reference says which references close a cycle.  One validator
sees all graphs in turn, so an effect of an earlier loop would show.  Chains around the depth limit are enumerated as well."""
import itertools, json
from pydantic_core import to_json, to_jsonable_python, from_json
import pydantic_core._pydantic_core as _core
from mc.lib import *
from mc.zoo import mk, Attr

LEVEL = 'exploration'
RULE = ('object graph (nodes x bad flags x child lists) x representation x recursive schema shape, pairs of roots in one input, histories on one validator; '
        'chains of every length around the depth limit; non-trivial: a cycle or a shared node is reachable')
ASSUME = ['nesting up to the exported recursion limit is accepted and deeper nesting is reported as a loop at the first reference beyond it',
          'to_python in Python mode of inferred types returns the object which closes a cycle as it is (documented in the code)',
          'a loop met while a union tries a branch in Python mode makes that branch fail like any other error; only termination is required there']
BOUNDS = {'quick': 'graphs of <= 3 nodes with <= 2 children each, with an invalid flag per node, 17 schema shapes, 12 serializer shapes; chains of <= 40 nodes with a reference back to each node', 'thorough': 'and graphs of 4 nodes for 5 shapes'}
LIMIT = getattr(_core, '_recursion_limit', 255)


class RM(Model):
    pass


class RM2(Model):
    pass


import dataclasses


@dataclasses.dataclass
class RD:
    v: object
    kids: object


def td(kids, **kw):
    return cs.typed_dict_schema({'v': cs.typed_dict_field(cs.int_schema()), 'kids': cs.typed_dict_field(kids)}, **kw)


R = lambda n='R': cs.definition_reference_schema(n)


def defs(s, *more):
    return cs.definitions_schema(R(), [s, *more])


def mfields(cls, kids, **kw):
    return cs.model_schema(cls, cs.model_fields_schema({'v': cs.model_field(cs.int_schema()), 'kids': cs.model_field(kids)}, from_attributes=kw.pop('from_attributes', None)), **kw)


FORMS = {}


def form(name, schema, build='dict', kids='list', **kw):
    FORMS[name] = dict(name=name, schema=schema, build=build, kids=kids, **kw)


def wrapdef(s):
    s = cs.no_info_wrap_validator_function(lambda v, h: h(v), s)
    s['ref'] = 'R'
    return s


form('td', lambda: defs(td(cs.list_schema(R()), ref='R')))
form('dict', lambda: defs(td(cs.dict_schema(cs.str_schema(), R()), ref='R')), kids='dict')
form('tuple', lambda: defs(td(cs.tuple_schema([R()], variadic_item_index=0), ref='R')), kids='tuple')
form('model', lambda: defs(mfields(RM, cs.list_schema(R()), ref='R')))
form('inst', lambda: defs(mfields(RM, cs.list_schema(R()), ref='R', revalidate_instances='always')), build='inst')
form('attrs', lambda: defs(mfields(RM, cs.list_schema(R()), ref='R', from_attributes=True)), build='attr')
form('dc', lambda: defs(cs.dataclass_schema(RD, cs.dataclass_args_schema('RD', [cs.dataclass_field('v', cs.int_schema()), cs.dataclass_field('kids', cs.list_schema(R()))]),
                                            ['v', 'kids'], ref='R', revalidate_instances='always')), build='dc')
form('wrapfn', lambda: defs(wrapdef(td(cs.list_schema(R())))))
form('wrapref', lambda: defs(td(cs.list_schema(cs.no_info_wrap_validator_function(lambda v, h: h(v), R())), ref='R')))
form('after', lambda: defs(dict(cs.no_info_after_validator_function(lambda v: v, td(cs.list_schema(R()))), ref='R')))
form('nullable', lambda: defs(td(cs.list_schema(cs.nullable_schema(R())), ref='R')))
form('default', lambda: defs(td(cs.list_schema(cs.with_default_schema(R(), default=None)), ref='R')))
form('twice', lambda: cs.definitions_schema(cs.tuple_schema([R(), R()]), [td(cs.list_schema(R()), ref='R')]), twice=True)
form('mutual', lambda: cs.definitions_schema(R(), [td(cs.list_schema(R('S')), ref='R'), td(cs.list_schema(R()), ref='S')]), mutual=True)
form('ltr', lambda: defs(td(cs.list_schema(cs.union_schema([cs.none_schema(), R()], mode='left_to_right')), ref='R')), union=True)
form('smart', lambda: defs(td(cs.list_schema(cs.union_schema([cs.none_schema(), R()])), ref='R')), union=True)
form('tagged', lambda: defs(td(cs.list_schema(cs.tagged_union_schema({'r': R()}, lambda v: 'r')), ref='R')), union='tag')


def kids_of(form, items):
    if form['kids'] == 'dict':
        return {f'k{i}': x for i, x in enumerate(items)}
    return items


def build(form, g):
    """g: tuple of (bad, children) per node -> list of objects"""
    b = form['build']
    objs = []
    conts = []
    for bad, ch in g:
        v = 'bad' if bad else 1
        c = {} if form['kids'] == 'dict' else []
        conts.append(c)
        objs.append({'v': v, 'kids': c} if b == 'dict' else mk(RM, None, {'v', 'kids'}, v=v, kids=c) if b == 'inst' else RD(v, c) if b == 'dc' else Attr(v=v, kids=c))
    for (bad, ch), c in zip(g, conts):
        for i, k in enumerate(ch):
            if form['kids'] == 'dict':
                c[f'k{i}'] = objs[k]
            else:
                c.append(objs[k])
    if form['kids'] == 'tuple':
        # a tuple cannot be changed later; the list above stands for it
        pass
    return objs


def ref(form, g, n, active, depth, loc, es):
    """errors into es; returns the tree"""
    key = (n, depth % 2) if form.get('mutual') else n
    if key in active:
        es.append(('recursion_loop', loc, n))
        return None
    bad, ch = g[n]
    if bad:
        es.append(('int_parsing', loc + ('v',), 'bad'))
    out = []
    for i, k in enumerate(ch):
        l = loc + ('kids', f'k{i}' if form['kids'] == 'dict' else i)
        e2 = []
        out.append(ref(form, g, k, active | {key}, depth + 1, l, e2))
        if form.get('union') is True and e2:
            es.append(('none_required', l, k))
        es += e2
    return (1, tuple(out))


def tree(x):
    if isinstance(x, dict):
        v, k = x['v'], x['kids']
    else:
        v, k = x.v, x.kids
    return (v, tuple(tree(i) for i in (k.values() if isinstance(k, dict) else k)))


def strip(form, loc):
    """without the labels of union branches"""
    out, i = [], 0
    loc = list(loc)
    while i < len(loc):
        if loc[i] == 'kids':
            out += loc[i:i + 2]
            i += 2
            if i < len(loc):
                i += 1  # label
            continue
        out.append(loc[i])
        i += 1
    return tuple(out)


def reachable(g, n):
    seen, todo, shared = set(), [n], False
    while todo:
        x = todo.pop()
        if x in seen:
            shared = True
            continue
        seen.add(x)
        todo += g[x][1]
    return seen, shared


def cyc(g, n, active=()):
    if n in active:
        return True
    return any(cyc(g, k, active + (n,)) for k in g[n][1])


def graphs(n, bads):
    ch = [()] + [(i,) for i in range(n)] + [(i, j) for i in range(n) for j in range(n)]
    node = [(b, c) for b in bads for c in ch]
    for g in itertools.product(node, repeat=n):
        if reachable(g, 0)[0] == set(range(n)):
            yield g


def check_val(ctx, f, v, g, roots):
    objs = build(f, g)
    ids = {id(o): i for i, o in enumerate(objs)}
    if roots is None:
        want_e = []
        t = ref(f, g, 0, frozenset(), 0, (), want_e)
        inp = objs[0]
        if f.get('twice'):
            e2 = []
            t2 = ref(f, g, 0, frozenset(), 0, (1,), e2)
            want_e = [(t_, (0,) + l, n) for t_, l, n in want_e] + e2
            t = (t, t2)
            inp = (objs[0], objs[0])
    else:
        want_e, t = [], []
        for i, r in enumerate(roots):
            t.append(ref(f, g, r, frozenset(), 0, (i,), want_e))
        t = tuple(t)
        inp = [objs[r] for r in roots]
    try:
        r = v.validate_python(inp)
        got = ('ok', tree(r) if roots is None and not f.get('twice') else tuple(tree(x) for x in r))
    except ValidationError as e:
        got = ('err', [(x['type'], strip(f, x['loc']) if f.get('union') and roots is None else x['loc'], ids.get(id(x['input']), x['input'])) for x in e.errors(include_url=False)])
    except BaseException as e:
        guard(e, (f['name'], g))
        got = ('exc', repr(e)[:300])
    want = ('err', want_e) if want_e else ('ok', t)
    ctx.step()
    key = f'{f["name"]} {g} roots={roots}'
    if got != want:
        ctx.fail(key, got=got, want=want)
    c = cyc(g, 0)
    ctx.ev('loop' if c else 'tree', key if c or reachable(g, 0)[1] else None)
    ctx.state((f['name'], want))


def tree_of(g, n):
    return {'v': 1, 'kids': [tree_of(g, k) for k in g[n][1]]}


def same_py(g, n, active, objs, got, top):
    """python mode of inferred types: the closing object itself stands at the end of a cycle"""
    if n in active:
        return got is objs[n]
    if type(got) is not dict or got is objs[n] or list(got) != ['v', 'kids'] or len(got['kids']) != len(g[n][1]):
        return False
    return all(same_py(g, k, active | {n}, objs, x, False) for k, x in zip(g[n][1], got['kids']))


def sers():
    vd = {'v': cs.typed_dict_field(cs.int_schema())}
    S = {}
    S['td'] = ('dict', defs(td(cs.list_schema(R()), ref='R')))
    S['any'] = ('dict', cs.any_schema())
    S['dictany'] = ('dict', cs.dict_schema())
    S['listfield'] = ('dict', defs(td(cs.list_schema(cs.nullable_schema(R())), ref='R')))
    S['union'] = ('dict', defs(td(cs.list_schema(cs.union_schema([cs.int_schema(), R()])), ref='R')))
    S['model'] = ('inst', defs(mfields(RM, cs.list_schema(R()), ref='R')))
    S['dc'] = ('dc', defs(cs.dataclass_schema(RD, cs.dataclass_args_schema('RD', [cs.dataclass_field('v', cs.int_schema()), cs.dataclass_field('kids', cs.list_schema(R()))]), ['v', 'kids'], ref='R')))
    w = dict(td(cs.list_schema(R()), ref='R'))
    w['serialization'] = cs.wrap_serializer_function_ser_schema(lambda v, h: h(v))
    S['wrap'] = ('dict', defs(w))
    S['mutual'] = ('dict', cs.definitions_schema(R(), [td(cs.list_schema(R('S')), ref='R'), td(cs.list_schema(R()), ref='S')]))
    S['gen'] = ('dict', defs(td(cs.list_schema(cs.with_default_schema(R(), default=1)), ref='R')))
    # a class whose serializer is found by inference
    RM2.__pydantic_serializer__ = SchemaSerializer(mfields(RM2, cs.list_schema(cs.any_schema())))
    S['infermodel'] = ('inst2', cs.any_schema())
    S['inferdc'] = ('dc', cs.any_schema())
    return {k: (b, SchemaSerializer(s)) for k, (b, s) in S.items()}


def check_ser(ctx, name, b, s, g):
    if b == 'inst2':
        objs = [mk(RM2, None, {'v', 'kids'}, v=1, kids=[]) for _ in g]
        for (bad, ch), o in zip(g, objs):
            o.__dict__['kids'].extend(objs[k] for k in ch)
    else:
        objs = build(dict(build=b, kids='list'), g)
    c = cyc(g, 0)
    infer = name in ('any', 'dictany', 'infermodel', 'inferdc')
    funcs = [('json', lambda: json.loads(s.to_json(objs[0]))), ('pyjson', lambda: s.to_python(objs[0], mode='json')), ('python', lambda: s.to_python(objs[0]))]
    if name == 'any':
        funcs += [('m.json', lambda: json.loads(to_json(objs[0]))), ('m.jsonable', lambda: to_jsonable_python(objs[0]))]
    if name == 'union' and c:
        funcs = funcs[:1]
    for m, fn in funcs:
        key = f'ser {name} {m} {g}'
        try:
            got = ('ok', fn())
        except ValueError as e:
            got = ('err', str(e))
        except BaseException as e:
            guard(e, key)
            got = ('exc', repr(e)[:300])
        ctx.step()
        if c and infer and m == 'python':
            if name == 'dictany':
                ok = got[0] == 'ok' and type(got[1]) is dict and got[1] is not objs[0]
            elif name in ('infermodel', 'inferdc'):
                ok = got[0] == 'ok'
            else:
                ok = got[0] == 'ok' and same_py(g, 0, frozenset(), objs, got[1], True)
        elif c:
            ok = got[0] == 'err' and 'Circular reference' in got[1]
        else:
            ok = got == ('ok', tree_of(g, 0))
        if not ok:
            ctx.fail(key, got=got, want='loop' if c else tree_of(g, 0))
        ctx.ev('ser-loop' if c else 'ser-tree', key if c or reachable(g, 0)[1] else None)
    ctx.state(('ser', name, c))


def depth_val(ctx, f):
    """chains around the limit, next to short ones and each other, in histories on one validator"""
    v = SchemaValidator(cs.list_schema(f['schema']()))
    first = None

    def chain(d):
        o = None
        for _ in range(d):
            c = [] if o is None else [o]
            if f['kids'] == 'dict':
                c = {f'k{i}': x for i, x in enumerate(c)}
            o = {'v': 1, 'kids': c} if f['build'] == 'dict' else mk(RM, None, {'v', 'kids'}, v=1, kids=c) if f['build'] == 'inst' else RD(1, c) if f['build'] == 'dc' else Attr(v=1, kids=c)
        return o

    def tdepth(x):
        n = 0
        while x is not None:
            n += 1
            k = x['kids'] if isinstance(x, dict) else x.kids
            k = list(k.values() if isinstance(k, dict) else k)
            x = k[0] if k else None
        return n
    loop = chain(1)
    k = loop['kids'] if isinstance(loop, dict) else loop.kids
    if f['kids'] == 'dict':
        k['k0'] = loop
    else:
        k.append(loop)
    ds = [1, 2, LIMIT - 1, LIMIT, LIMIT + 1, LIMIT + 5]
    combos = [(d,) for d in range(LIMIT - 3, LIMIT + 4)] + list(itertools.product(ds + ['loop'], repeat=2)) + list(itertools.product([2, LIMIT, LIMIT + 1, 'loop'], repeat=3))
    for ds_ in combos:
        want = []
        for i, d in enumerate(ds_):
            if d == 'loop':
                want.append((i, 5 if f.get('mutual') else 3))
            elif d > LIMIT:
                want.append((i, 1 + 2 * LIMIT))
        try:
            r = v.validate_python([loop if d == 'loop' else chain(d) for d in ds_])
            got = ('ok', [tdepth(x) for x in r])
        except ValidationError as e:
            got = ('err', [(x['loc'][0], len([p for p in x['loc'] if p == 'kids']) * 2 + 1) for x in e.errors(include_url=False, include_input=False) if x['type'] == 'recursion_loop'],
                   {x['type'] for x in e.errors(include_url=False, include_input=False)})
        except RecursionError:
            got = ('rec',)
        except BaseException as e:
            guard(e, (f['name'], ds_))
            got = ('exc', repr(e)[:300])
        key = f'depth {f["name"]} {ds_}'
        if want:
            ok = got[0] == 'err' and got[1] == want and got[2] <= {'recursion_loop', 'none_required'}
        else:
            ok = got == ('ok', list(ds_))
        ctx.step()
        ctx.check(ok, key, got=got, want=want)
        ctx.ev('depth', key)
    ctx.trace_done()


def depth_ser(ctx, name, b, s):
    def chain(d):
        o = None
        for _ in range(d):
            c = [] if o is None else [o]
            o = {'v': 1, 'kids': c} if b == 'dict' else mk(RM, None, {'v', 'kids'}, v=1, kids=c) if b == 'inst' else mk(RM2, None, {'v', 'kids'}, v=1, kids=c) if b == 'inst2' else RD(1, c)
        return o
    loop = chain(1)
    (loop['kids'] if isinstance(loop, dict) else loop.kids).append(loop)
    infer = name in ('any', 'dictany', 'infermodel', 'inferdc')

    def run(x, m):
        try:
            return ('ok', json.loads(s.to_json(x)) if m == 'json' else s.to_python(x, mode=m))
        except ValueError as e:
            return ('err', 'Circular reference' in str(e))
        except RecursionError:
            return ('rec',)
        except BaseException as e:
            guard(e, (name, m))
            return ('exc', repr(e)[:200])

    def deep(x):
        n = 0
        while x is not None:
            n += 1
            k = x['kids'] if isinstance(x, dict) else x.kids
            x = k[0] if k else None
        return n
    for m in ('json', 'python') if not infer and name != 'union' else ('json',):
        # the deepest chain accepted is the same whatever was serialized before
        lo, hi, lim = 2, LIMIT + 6, None
        while lo < hi:
            mid = (lo + hi) // 2
            lo, hi = (mid + 1, hi) if run(chain(mid), m)[0] == 'ok' else (lo, mid)
        for d in sorted({d for d in range(2, LIMIT + 6) if d % 16 == 0 or abs(d - lo) < 4}):
            r = run(chain(d), m)
            ctx.step()
            if r[0] == 'ok':
                ctx.check(lim is None and deep(r[1]) == d, f'ser depth {name} {m} {d}', got=r[0], lim=lim)
            else:
                ctx.check(r == ('err', True), f'ser depth {name} {m} {d} kind', got=r)
                lim = lim or d
                ctx.check(d >= lo, f'ser depth {name} {m} {d} not monotone', lim=lo)
            ctx.ev('ser-depth', (name, m, d))
        ctx.check(lim is not None and lim > LIMIT // 3, f'ser depth limit {name} {m}', lim=lim)
        if lim is None:
            continue
        for hist in itertools.product([2, lim - 1, lim, lim + 1, 'loop'], repeat=2):
            for h in hist:
                r = run(loop if h == 'loop' else chain(h), m)
                ok = r == ('err', True) if h == 'loop' or h >= lim else r[0] == 'ok' and deep(r[1]) == h
                ctx.check(ok, f'ser depth history {name} {m} {hist}', got=r[0], want=h)
                ctx.step()
            ctx.ev('ser-depth-history', (name, m, hist))
            ctx.trace_done()


def explore(ctx):
    warnings.simplefilter('ignore')
    q = ctx.quick
    pairs = list(itertools.product(range(2), repeat=2)) + [(0, 1, 0)]
    for f in ctx.split([f for f in FORMS.values() if not f.get('twice')]):
        depth_val(ctx, f)
    for f in FORMS.values():
        f['v'] = SchemaValidator(f['schema']())
        f['lv'] = SchemaValidator(cs.list_schema(f['schema']()))
    S = sers()
    for name in ctx.split(list(S)):
        depth_ser(ctx, name, *S[name])
    # long cycles: a chain of every length whose last node (or one before it) refers back to every earlier node, alone and next to a leaf
    for n in ctx.split(range(4, 41 if q else 61)):
        for j in range(n):
            for at in {n - 1, n // 2}:
                if j > at:
                    continue
                for leaf in (False, True):
                    g = tuple((0, ((i + 1,) if i + 1 < n else ()) + ((j,) if i == at else ()) + ((n,) if leaf and i == at else ())) for i in range(n)) + (((0, ()),) if leaf else ())
                    if 2 * n > LIMIT:
                        continue
                    for f in FORMS.values():
                        if not f.get('union') or f.get('union') == 'tag':
                            check_val(ctx, f, f['v'], g, None)
                    for name, (b, s) in S.items():
                        if name != 'union':
                            check_ser(ctx, name, b, s, g)
        ctx.trace_done()
    small = list(graphs(1, (0, 1))) + list(graphs(2, (0, 1)))
    big = list(graphs(3, (0, 1))) + ([] if q else list(graphs(4, (0,))))
    for i in ctx.split(range(64)):
        for g in small[i::64] + big[i::64]:
            for f in FORMS.values():
                if len(g) == 4 and f['name'] not in ('td', 'inst', 'smart', 'mutual', 'wrapfn'):
                    continue
                check_val(ctx, f, f['v'], g, None)
                if len(g) == 2 and not f.get('twice') and not f.get('union'):
                    for p in pairs:
                        check_val(ctx, f, f['lv'], g, p)
            if not any(b for b, _ in g) and len(g) < 4:
                for name, (b, s) in S.items():
                    check_ser(ctx, name, b, s, g)
        ctx.trace_done()
