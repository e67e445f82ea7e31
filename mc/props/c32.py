"""C32: dumps of models, dataclasses and typed dicts against a reference dump.  Every combination of up to
two (three) fields of different kinds x every state of the instance x extras, computed fields, configuration
x every dump flag x output mode; then every nesting of objects (subclasses, deeper subclasses) in every
container, with and without serialize_as_any, at depth two and three."""
import dataclasses, datetime, itertools, json, warnings
from mc.lib import *
from pydantic_core import to_json as g_to_json, to_jsonable_python

LEVEL = 'exploration'
RULE = 'every (object description, instance state, flags, mode); non-trivial when the instance has at least one declared field and the dump differs from the full dump or has more than one entry'
BOUNDS = {'quick': 'all pairs of 9 kinds of field x all their states x 48 flag combinations x 3 modes x 3 kinds of object; extras, computed fields and configuration on six pairs; nesting depth 2 and part of 3',
          'thorough': 'all triples of field kinds with reduced states; nesting depth 3 complete'}
ASSUME = ['values have their declared types, except for instances of subclasses and plain dicts (which warn and are serialized by inference)',
          'entries come in the order in which the instance holds them (validation stores them in declaration order), dataclasses in the order of the schema',
          'computed fields and extras have no default and are not subject to exclude_unset']

NO = object()


class F:
    """a field: name, node, alias, excluded from dumps"""
    def __init__(self, name, node, alias=None, excl=False): self.name, self.node, self.alias, self.excl = name, node, alias, excl


class Obj:
    """kind: model | dataclass | typed_dict | root"""
    def __init__(self, kind, fields, extras=None, computed=(), config=None, base=None, name='Obj'):
        self.kind, self.fields, self.extras, self.computed, self.config, self.base, self.name = kind, fields, extras, computed, config, base, name
        bases = (base.cls,) if base else ()
        ns = {c.name: property(lambda self, v=v: v) for c, v in computed}
        if kind == 'dataclass': self.cls = dataclasses.make_dataclass(name, [f.name for f in fields if not base or f.name not in {g.name for g in base.fields}], bases=bases, namespace=ns)
        elif kind == 'typed_dict': self.cls = dict
        else: self.cls = type(name, bases or (Model,), {'__slots__': (), **ns})
        self._schema = None
        if self.cls is not dict:
            BYCLS[self.cls] = self
            self.cls.__pydantic_serializer__ = SchemaSerializer(self.schema())

    def schema(self):
        if self._schema is None: self._schema = self.mk()
        return self._schema

    def mk(self):
        comp = [cs.computed_field(c.name, schema_of(c.node), alias=c.alias) for c, _ in self.computed]
        kw = {}
        if comp: kw['computed_fields'] = comp
        if self.extras is not None: kw['extra_behavior'] = 'allow'
        if isinstance(self.extras, tuple): kw['extras_schema'] = schema_of(self.extras)
        fl = lambda f: dict(serialization_alias=f.alias, serialization_exclude=f.excl or None)
        k = self.kind
        if k == 'model':
            s = cs.model_fields_schema({f.name: cs.model_field(schema_of(f.node), **fl(f)) for f in self.fields}, **kw)
            return cs.model_schema(self.cls, s, config=self.config, extra_behavior='allow' if self.extras is not None else None)
        if k == 'root': return cs.model_schema(self.cls, schema_of(self.fields[0].node), root_model=True, config=self.config)
        if k == 'dataclass':
            return cs.dataclass_schema(self.cls, cs.dataclass_args_schema(self.name, [cs.dataclass_field(f.name, schema_of(f.node), **fl(f)) for f in self.fields], **({'computed_fields': comp} if comp else {})), [f.name for f in self.fields], config=self.config)
        return cs.typed_dict_schema({f.name: cs.typed_dict_field(schema_of(f.node), required=False, **fl(f)) for f in self.fields}, config=self.config, **{('extras_schema' if x == 'extras_schema' else x): y for x, y in kw.items() if x != 'computed_fields'})

    def make(self, values, fset=None, extra=None):
        if self.kind == 'typed_dict': return {**values, **(extra or {})}
        if self.kind == 'dataclass':
            o = self.cls.__new__(self.cls)
            o.__dict__.update(values)
            return o
        o = self.cls.__new__(self.cls)
        object.__setattr__(o, '__dict__', dict(values))
        object.__setattr__(o, '__pydantic_fields_set__', set(values if fset is None else fset))
        object.__setattr__(o, '__pydantic_extra__', extra)
        object.__setattr__(o, '__pydantic_private__', None)
        return o


BYCLS = {}
DEFS = [0]


def schema_of(n):
    if isinstance(n, Obj): return n.schema()
    k = n[0]
    if k == 'int': return cs.int_schema()
    if k == 'date': return cs.date_schema()
    if k == 'any': return cs.any_schema()
    if k == 'nullable': return cs.nullable_schema(schema_of(n[1]))
    if k == 'default': return cs.with_default_schema(schema_of(n[1]), default=n[2])
    if k == 'factory': return cs.with_default_schema(schema_of(n[1]), default_factory=lambda: n[2])
    if k == 'list': return cs.list_schema(schema_of(n[1]))
    if k == 'tuple': return cs.tuple_schema([schema_of(n[1])], variadic_item_index=0)
    if k == 'dict': return cs.dict_schema(cs.str_schema(), schema_of(n[1]))
    if k == 'union': return cs.union_schema([schema_of(x) for x in n[1]])
    if k == 'wrap': return cs.no_info_wrap_validator_function(lambda v, h: h(v), schema_of(n[1]))
    if k == 'after': return cs.no_info_after_validator_function(lambda v: v, schema_of(n[1]))
    if k == 'serwrap': return {**schema_of(n[1]), 'serialization': cs.wrap_serializer_function_ser_schema(lambda v, h: h(v))}
    if k == 'def':
        DEFS[0] += 1
        r = f'd{DEFS[0]}'
        return cs.definitions_schema(cs.definition_reference_schema(r), [{**schema_of(n[1]), 'ref': r}])
    raise KeyError(k)


class Warn(list): pass


def dump(n, v, fl, mode, w):
    """the reference; w collects mismatches"""
    js = mode != 'python'
    if fl.get('serialize_as_any') and type(v) in BYCLS and (isinstance(n, Obj) or n[0] != 'any'):
        # every schema for an instance of a class with its own serializer hands over to it
        if isinstance(n, Obj): n = BYCLS[type(v)]
    if isinstance(n, Obj): return dump_obj(n, v, fl, mode, w)
    k = n[0]
    if k == 'any': return infer(v, fl, mode, w)
    if k in ('nullable',): return None if v is None else dump(n[1], v, fl, mode, w)
    if k in ('default', 'factory', 'wrap', 'after', 'serwrap', 'def'): return dump(n[1], v, fl, mode, w)
    if k == 'list' and type(v) is list: return [dump(n[1], x, fl, mode, w) for x in v]
    if k == 'tuple' and type(v) is tuple: return (list if js else tuple)(dump(n[1], x, fl, mode, w) for x in v)
    if k == 'dict' and type(v) is dict: return {x: dump(n[1], y, fl, mode, w) for x, y in v.items()}
    if k == 'union':
        for x in n[1]:
            if isinstance(x, Obj) and type(v) is x.cls or x == ('int',) and type(v) is int: return dump(x, v, fl, mode, w)
        for x in n[1]:
            if isinstance(x, Obj) and isinstance(v, x.cls): return dump(x, v, fl, mode, w)
        return infer(v, fl, mode, w)
    if k == 'int' and type(v) is int: return v
    if k == 'date' and type(v) is datetime.date: return v.isoformat() if js else v
    w.append((k, v))
    return infer(v, fl, mode, w)


def infer(v, fl, mode, w):
    js = mode != 'python'
    t = type(v)
    if t in BYCLS: return dump_obj(BYCLS[t], v, fl, mode, w)
    if t is list: return [infer(x, fl, mode, w) for x in v]
    if t is tuple: return (list if js else tuple)(infer(x, fl, mode, w) for x in v)
    if t is dict: return {x: infer(y, fl, mode, w) for x, y in v.items()}
    if t is datetime.date and js: return v.isoformat()
    return v


def default_of(n):
    """the value exclude_defaults compares with"""
    if isinstance(n, Obj): return NO
    if n[0] in ('default', 'factory'): return n[2]
    if n[0] in ('wrap', 'after', 'serwrap', 'def'): return default_of(n[1]) if n[0] == 'def' else default_of(n[1])
    return NO


def dump_obj(d, v, fl, mode, w):
    if d.kind == 'root': return dump(d.fields[0].node, v.__dict__['root'], fl, mode, w)
    if d.kind == 'typed_dict':
        if type(v) is not dict:
            if not fl.get('serialize_as_any'): w.append((d.name, v))
            return infer(v, fl, mode, w)
        items = list(v.items())
    elif not isinstance(v, d.cls):
        if not fl.get('serialize_as_any'): w.append((d.name, v))  # then objects are for inference to look at
        return infer(v, fl, mode, w)
    elif d.kind == 'dataclass':
        items = [(f.name, getattr(v, f.name)) for f in d.fields]
    else:
        items = list(v.__dict__.items())
        if fl.get('exclude_unset'): items = [(k, x) for k, x in items if k in v.__pydantic_fields_set__]
    alias = fl.get('by_alias')
    if alias is None: alias = (d.config or {}).get('serialize_by_alias', False)
    fs = {f.name: f for f in d.fields}
    out = {}
    for k, x in items:
        f = fs.get(k)
        if x is None and fl.get('exclude_none'): continue
        if f is None:
            if d.kind == 'typed_dict' and d.extras is not None: out[k] = dump(d.extras, x, fl, mode, w) if isinstance(d.extras, tuple) else infer(x, fl, mode, w)
            continue
        if f.excl: continue
        if fl.get('exclude_defaults'):
            df = default_of(f.node)
            if df is not NO and df == x: continue
        out[f.alias if alias and f.alias else k] = dump(f.node, x, fl, mode, w)
    if d.kind == 'model' and d.extras is not None:
        for k, x in (v.__pydantic_extra__ or {}).items():
            if x is None and fl.get('exclude_none'): continue
            out[k] = dump(d.extras, x, fl, mode, w) if isinstance(d.extras, tuple) else infer(x, fl, mode, w)
    if not fl.get('round_trip'):
        for c, _ in d.computed:
            x = getattr(v, c.name)
            if x is None and fl.get('exclude_none'): continue
            out[c.alias if alias and c.alias else c.name] = dump(c.node, x, fl, mode, w)
    return out


# --------------------------------------------------------------------------- checking
FLAGS = [dict(x for x in (('by_alias', a), ('exclude_unset', u), ('exclude_defaults', d), ('exclude_none', n), ('round_trip', r)) if x[1] is not NO)
         for a in (NO, True, False) for u in (NO, True) for d in (NO, True) for n in (NO, True) for r in (NO, True)]
MODES = ('python', 'json', 'to_json')


def pairs(x): return x if len(x) == len(dict(x)) else ('duplicate keys', x)


def hooked(s):
    return json.loads(s, object_pairs_hook=lambda p: dict(p) if len(dict(p)) == len(p) else {'DUPLICATE': p})


def ordered(x):
    if type(x) is dict: return ('dict',) + tuple((k, ordered(v)) for k, v in x.items())
    if type(x) in (list, tuple): return (type(x).__name__,) + tuple(ordered(i) for i in x)
    return (type(x).__name__, x if not hasattr(x, '__dict__') else id(x))


def run(s, v, fl, mode):
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter('always')
        try:
            if mode == 'to_json': r = hooked(s.to_json(v, **fl))
            else: r = s.to_python(v, mode=mode, **fl)
        except Exception as e:
            guard(e, (v, fl, mode))
            return ('exc', type(e).__name__, str(e)[:200]), False
    return r, bool(ws)


def check(ctx, key, s, node, v, fl, state, nt=True):
    for mode in MODES:
        w = Warn()
        want = dump(node, v, fl, mode, w)
        got, warned = run(s, v, fl, mode)
        ctx.case(key, state, str(fl), mode)
        ok = ordered(got) == ordered(want)
        if not ok: ctx.fail(f'dump | {key} | {mode}', state=state, flags=str(fl), want=want, got=got)
        if ok and warned != bool(w): ctx.fail(f'warning | {key} | {mode}', state=state, flags=str(fl), want=str(w), got=str(warned))
        ctx.ev(f'{mode} {len(want) if hasattr(want, "__len__") else "scalar"}', (key, state, str(fl), mode) if nt else None)


I = ('int',)
D1, D2 = datetime.date(2020, 1, 2), datetime.date(2021, 3, 4)
KINDS = {
    'int': (F('i', I), [1]),
    'nullable': (F('n', ('nullable', I)), [2, None]),
    'default': (F('d', ('default', I, 7)), [7, 8]),
    'alias': (F('a', ('date',), alias='A1'), [D1]),
    'excluded': (F('x', ('default', I, 5), excl=True), [5, 6]),
    'default none': (F('dn', ('default', ('nullable', I), None), alias='DN'), [None, 3]),
    'factory': (F('df', ('factory', I, 9)), [9]),
    'mutable default': (F('md', ('default', ('list', I), [1])), [[1], [2]]),
    'default alias': (F('da', ('default', ('date',), D1), alias='DA'), [D1, D2]),
}
RED = ('nullable', 'default', 'alias', 'excluded', 'default none')


def states(kind, vals):
    if kind == 'model': return [(x, s) for x in vals for s in (True, False)] + [(NO, False)]
    if kind == 'dataclass': return [(x, True) for x in vals]
    return [(x, True) for x in vals] + [(NO, True)]


def flat(ctx, kind, names):
    fs = [KINDS[n] for n in names]
    d = Obj(kind, [f for f, _ in fs])
    s = SchemaSerializer(d.schema())
    for st in itertools.product(*[states(kind, vals) for _, vals in fs]):
        vals = {f.name: x for (f, _), (x, _) in zip(fs, st) if x is not NO}
        v = d.make(vals, {f.name for (f, _), (_, isset) in zip(fs, st) if isset})
        stn = str([('-' if x is NO else x, u) for x, u in st])
        for fl in FLAGS: check(ctx, f'{kind}: {" + ".join(names)}', s, d, v, fl, stn)


EXTRAS = {'none': (None, [None]), 'allow': (True, [{}, {'e': 1, 'f': None}, {'e': D1}]), 'schema': (('nullable', ('date',)), [{'e': D1, 'f': None}])}
COMPUTED = {'none': (), 'one': ((F('c', ('date',), alias='CA'), D2),), 'two': ((F('c', ('nullable', I)), None), (F('c2', I, alias='C2'), 4))}
CONFIGS = {'none': None, 'by alias': {'serialize_by_alias': True}, 'not by alias': {'serialize_by_alias': False}}
PAIRS = (('int', 'alias'), ('default', 'nullable'), ('excluded', 'default none'), ('mutable default', 'default alias'), ('alias', 'excluded'), ('factory', 'default none'))


def rich(ctx, kind, names, ex, co, cf):
    if kind == 'dataclass' and ex != 'none' or kind == 'typed_dict' and co != 'none': return
    fs = [KINDS[n] for n in names]
    d = Obj(kind, [f for f, _ in fs], EXTRAS[ex][0], COMPUTED[co], CONFIGS[cf])
    s = SchemaSerializer(d.schema())
    for extra in EXTRAS[ex][1]:
        for st in itertools.product(*[states(kind, vals) for _, vals in fs]):
            vals = {f.name: x for (f, _), (x, _) in zip(fs, st) if x is not NO}
            v = d.make(vals, {f.name for (f, _), (_, isset) in zip(fs, st) if isset} | set(extra or ()), extra)
            stn = str([('-' if x is NO else x, u) for x, u in st] + [extra])
            for fl in FLAGS: check(ctx, f'{kind}: {" + ".join(names)} | extras {ex} | computed {co} | config {cf}', s, d, v, fl, stn)


# --------------------------------------------------------------------------- nesting
def family(kind, level=0):
    """an object, a subclass with more, a subclass of that; and instances"""
    a = Obj(kind, [F('p', ('default', I, 1)), F('q', ('nullable', ('date',)), alias='Q')], name=f'{kind}A{level}')
    b = Obj(kind, a.fields + [F('r', ('default', I, 3), alias='R')], computed=((F('cb', I, alias='CB'), 11),), base=a, name=f'{kind}B{level}')
    c = Obj(kind, b.fields + [F('s', ('nullable', I)), F('t', ('default', I, 0), excl=True)], computed=((F('cc', ('nullable', I)), None),), base=b, config={'serialize_by_alias': True}, name=f'{kind}C{level}')
    return a, b, c


def insts(fam):
    a, b, c = fam
    vals = {'p': 1, 'q': D1}
    yield 'exact', a.make(vals, {'q'})
    yield 'exact none', a.make({'p': 2, 'q': None}, {'p'})
    if fam[0].kind != 'typed_dict':
        yield 'subclass', b.make({**vals, 'r': 3}, {'q', 'r'})
        yield 'subsubclass', c.make({**vals, 'r': 4, 's': None, 't': 1}, {'q', 's'})
        yield 'dict', {'p': 1, 'zz': D1}
    else:
        yield 'more keys', {**vals, 'zz': 1}


WRAPS = {
    'direct': (lambda n: n, lambda v: v), 'list': (lambda n: ('list', n), lambda v: [v, v]), 'tuple': (lambda n: ('tuple', n), lambda v: (v,)), 'dict': (lambda n: ('dict', n), lambda v: {'k': v}), 'nullable': (lambda n: ('nullable', n), lambda v: v),
    'default': (lambda n: ('default', n, None), lambda v: v), 'any': (lambda n: ('any',), lambda v: v), 'any list': (lambda n: ('list', ('any',)), lambda v: [v]), 'union': (lambda n: ('union', [I, n]), lambda v: v), 'after': (lambda n: ('after', n), lambda v: v), 'serwrap': (lambda n: ('serwrap', n), lambda v: v),
    'def': (lambda n: ('def', n), lambda v: v), 'root': (lambda n: Obj('root', [F('root', n)], name='Root'), None),
}


def nest(ctx, okind, ikind, wname, wname2=None):
    """outer object of one kind with a field, wrapped, of another kind"""
    fam = family(ikind)
    node = fam[0]
    mk, mkv = WRAPS[wname]
    inner = mk(node)
    if wname2:
        mid = Obj('model' if wname2[0] == 'm' else 'dataclass' if wname2[0] == 'd' else 'typed_dict', [F('m', inner), F('o', ('nullable', I), alias='O')], name='Mid')
        midsub = mid
        if mid.kind != 'typed_dict': midsub = Obj(mid.kind, mid.fields + [F('more', ('default', I, 2))], base=mid, name='MidSub')
        target = mid
    else: target = inner
    if okind == 'top': outer, key = target, f'{ikind} in {wname}'
    else: outer, key = Obj(okind, [F('f', target, alias='FF'), F('g', ('default', I, 1))], name='Outer'), f'{ikind} in {wname} in {okind}'
    if wname2: key += f' through {wname2}'
    s = SchemaSerializer(schema_of(outer))
    # how much of a typed dict's schema serialize_as_any leaves in effect is not specified
    typed = 'typed_dict' in (okind, ikind) or wname2 == 't'
    for iname, iv in insts(fam):
        if iname == 'dict' and wname == 'union': continue
        wv = inner.make({'root': iv}) if mkv is None else mkv(iv)
        mids = [('', wv)]
        if wname2: mids = [(' mid', mid.make({'m': wv, 'o': None}))] + ([(' midsub', midsub.make({'m': wv, 'o': 1, 'more': 2}))] if midsub is not mid else [])
        for mname, mv in mids:
            v = mv if okind == 'top' else outer.make({'f': mv, 'g': 1}, {'f'})
            for fl in FLAGS if not wname2 else FLAGS[::5]:
                for saa in (NO,) if typed else (NO, True):
                    check(ctx, key, s, outer, v, {**fl, **({'serialize_as_any': True} if saa is True else {})}, iname + mname)


def explore(ctx):
    def jobs():
        for kind in ('model', 'dataclass', 'typed_dict'):
            for n in KINDS: yield flat, kind, (n,)
            for p in itertools.permutations(KINDS, 2): yield flat, kind, p
            for p in PAIRS:
                for ex in EXTRAS:
                    for co in COMPUTED:
                        for cf in CONFIGS: yield rich, kind, p, ex, co, cf
            for p in itertools.permutations(RED, 3) if ctx.quick else itertools.permutations(KINDS, 3):
                if not ctx.quick or kind == 'dataclass' and p[0] < p[1]: yield flat, kind, p
        for ikind in ('model', 'dataclass', 'typed_dict'):
            for okind in ('top', 'model', 'dataclass', 'typed_dict'):
                for w in WRAPS:
                    yield nest, okind, ikind, w
                    for m in ('m', 'd', 't'):
                        if not ctx.quick or okind != 'typed_dict' : yield nest, okind, ikind, w, m
    for f, *a in ctx.split(jobs()): f(ctx, *a)
    ctx.sample('fields', list(KINDS), 'wraps', list(WRAPS))
