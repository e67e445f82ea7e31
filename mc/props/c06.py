"""C06: field lookup, defaults, extras, fields-set and error reporting of typed-dict, model-fields and
dataclass-args schemas against a small reference interpreter."""
import json, itertools
from mc.lib import *
from mc.zoo import Attr

LEVEL = 'exploration'
RULE = ('schemas (kind x alias form x default x extra behaviour x loc_by_alias x by_alias/by_name in config and at runtime) x every combination of '
        'absent/valid/invalid for each relevant key x input form (dict, mapping, JSON, JSON with duplicate keys, attributes, object with kwargs, strings, ArgsKwargs); '
        'non-trivial: at least one key is present')
ASSUME = ['attributes input contributes no extras (the documented behaviour of from_attributes)', 'non-string leaves in strings mode only for typed dicts and models with extra=ignore']
BOUNDS = {'quick': '1-3 fields, 6 alias forms, 4 extra modes, 9 flag settings on a subset, all value combinations',
          'thorough': 'as quick with all flag settings for every schema and 4-field products'}
ALIASES = [None, 'A', ['p', 'q'], [['p', 'q'], ['A'], ['l', 0]], [['l', -1]], [['A'], ['p', 'r', 1]]]
PATHS = {None: []}


def paths_of(alias):
    if alias is None:
        return None
    if isinstance(alias, str):
        return [(alias,)]
    if isinstance(alias[0], str):
        return [tuple(alias)]
    return [tuple(p) for p in alias]


class F:
    __slots__ = ('name', 'alias', 'dflt', 'required', 'omit', 'kw_only', 'init', 'init_only')

    def __init__(self, name, alias=None, dflt=None, required=None, omit=False, kw_only=True, init=True, init_only=False):
        self.name, self.alias, self.dflt, self.required, self.omit, self.kw_only, self.init, self.init_only = name, alias, dflt, required, omit, kw_only, init, init_only

    def schema(self, kind):
        s = cs.int_schema()
        if self.omit:
            s = cs.with_default_schema(s, on_error='omit', **({'default': self.dflt} if self.dflt is not None else {}))
        elif self.dflt is not None:
            s = cs.with_default_schema(s, default=self.dflt)
        kw = {} if self.alias is None else {'validation_alias': self.alias}
        if kind == 'td':
            return cs.typed_dict_field(s, **kw, **({} if self.required is None else {'required': self.required}))
        if kind == 'mf':
            return cs.model_field(s, **kw)
        return cs.dataclass_field(self.name, s, kw_only=self.kw_only, init=self.init, init_only=self.init_only, **kw)

    def __repr__(self):
        return f'{self.name}:{self.alias}' + (f'={self.dflt}' if self.dflt is not None else '') + ('' if self.required is None else f' req={self.required}') + (' omit' if self.omit else '') + ('' if self.kw_only else ' pos') + ('' if self.init else ' noinit')


def build(kind, fields, extra, loc_by_alias, cfg_alias, cfg_name, extras_schema=False, from_attributes=False, total=None):
    cfg = {}
    if loc_by_alias is not None:
        cfg['loc_by_alias'] = loc_by_alias
    if cfg_alias is not None:
        cfg['validate_by_alias'] = cfg_alias
    if cfg_name is not None:
        cfg['validate_by_name'] = cfg_name
    kw = {'extra_behavior': extra}
    if extras_schema:
        kw['extras_schema'] = cs.int_schema()
    if kind == 'td':
        if total is not None:
            kw['total'] = total
        return SchemaValidator(cs.typed_dict_schema({f.name: f.schema(kind) for f in fields}, config=cfg, **kw))
    if kind == 'mf':
        if from_attributes:
            kw['from_attributes'] = True
        return SchemaValidator(cs.model_fields_schema({f.name: f.schema(kind) for f in fields}, **kw), config=cfg)
    return SchemaValidator(cs.dataclass_args_schema('D', [f.schema(kind) for f in fields], collect_init_only=any(f.init_only for f in fields), **kw), config=cfg)


MISS = object()


class Exc(Exception):
    pass


def step(v, k, form):
    if form == 'json':
        if isinstance(v, dict):
            return v.get(k, MISS) if isinstance(k, str) else MISS
        if isinstance(v, list) and isinstance(k, int) and -len(v) <= k < len(v):
            return v[k]
        return MISS
    if form == 'attr' and isinstance(k, str) and not isinstance(v, dict):
        return getattr(v, k, MISS)
    if isinstance(v, str):
        return MISS
    try:
        return v[k]
    except Exception:
        return MISS


def follow(data, path, form):
    v = step(data, path[0], form)
    for k in path[1:]:
        if v is MISS:
            break
        v = step(v, k, form)
    return v


def int_val(v, strict=False):
    """(ok, value) | (err, type)"""
    if type(v) is int:
        return True, v
    if isinstance(v, str):
        if strict:
            return False, 'int_type'
        try:
            return True, int(v)
        except ValueError:
            return False, 'int_parsing'
    return False, 'int_type'


def reference(kind, fields, extra, loc_by_alias, by_alias, by_name, extras_schema, data, form, top, args=(), kwargs_obj=None, total=True):
    """top: the input object errors at the top refer to.  returns ('ok', value) | ('err', [(type, loc, input)])"""
    out, extras, fset, errors, used = {}, {}, [], [], set()
    init_only = [] if any(f.init_only for f in fields) else None
    data_is_attr = form == 'attr'
    npos = 0

    def put(f, v):
        if f.init_only:
            init_only.append(v)
        else:
            out[f.name] = v
    for f in fields:
        if kind == 'da' and not f.init:
            if f.dflt is not None:
                put(f, f.dflt)
            continue
        if not by_alias and not by_name:
            return ('exc',)
        ap = paths_of(f.alias)
        sel = ([] if ap is None or not by_alias else list(ap))
        if not sel or by_name:
            sel.append((f.name,))
        pos = MISS
        if kind == 'da' and not f.kw_only:
            idx = npos
            npos += 1
            if idx < len(args):
                pos = args[idx]
        v = MISS
        for p in sel:
            if kwargs_obj is not None:
                v = follow(kwargs_obj, p, 'dict')
                if v is not MISS:
                    break
        if v is MISS and data is not None:
            for p in sel:
                v = follow(data, p, form)
                if v is not MISS:
                    break
        loc = p if loc_by_alias else (f.name,)
        if v is not MISS:
            used.add(p[0])
        if v is not MISS and pos is not MISS:
            errors.append(('multiple_argument_values', (f.name,), v))
            continue
        if pos is not MISS:
            v, loc = pos, (idx,)
        if v is not MISS:
            ok, r = int_val(v)
            if ok:
                put(f, r)
                fset.append(f.name)
            elif f.omit:
                pass
            else:
                errors.append((r, loc, v))
            continue
        if f.dflt is not None:
            put(f, f.dflt)
        elif kind == 'td' and not (total if f.required is None else f.required):
            pass
        else:
            errors.append(('missing', sel[0] if loc_by_alias else (f.name,), top))
    if kind == 'da' and len(args) > npos:
        for i in range(npos, len(args)):
            errors.append(('unexpected_positional_argument', (i,), args[i]))
    if (extra != 'ignore' or kind == 'da') and not data_is_attr and data is not None:
        for k in data:
            if not isinstance(k, str):
                errors.append(('invalid_key', (k,) if isinstance(k, (int, str)) else (str(k),), k))
                continue
            if k in used:
                continue
            v = data[k]
            if extra == 'ignore':
                continue
            if extra == 'forbid':
                errors.append(('unexpected_keyword_argument' if kind == 'da' else 'extra_forbidden', (k,), v))
            elif extras_schema:
                ok, r = int_val(v)
                if ok:
                    extras[k] = r
                else:
                    errors.append((r, (k,), v))
            else:
                extras[k] = v
    if errors:
        return ('err', tuple((t, l, canon(v)) for t, l, v in errors))
    if kind == 'td':
        return ('ok', canon({**out, **extras}))
    if kind == 'mf':
        return ('ok', canon((out, extras if extra == 'allow' else None, set(fset) | set(extras))))
    return ('ok', canon(({**out, **extras}, None if init_only is None else tuple(init_only))))


class Map(collections.abc.Mapping):
    def __init__(self, d):
        self.d = d

    def __getitem__(self, k):
        return self.d[k]

    def __iter__(self):
        return iter(self.d)

    def __len__(self):
        return len(self.d)


def dup_dumps(x):
    if isinstance(x, dict):
        return '{' + ', '.join([f'{json.dumps(k)}: {json.dumps({"q": 77, "r": [7, 78]} if isinstance(v, dict) else 79)}' for k, v in x.items()] + [f'{json.dumps(k)}: {dup_dumps(v)}' for k, v in x.items()]) + '}'
    return json.dumps(x)


def run(ctx, tag, v, refargs, data, forms, rt, nontriv):
    """data: plain dict; forms: the ways to give it to the validator"""
    kind, fields, extra, lba, by_alias, by_name, exs, kwextra = refargs
    for form in forms:
        a, kwobj = (), None
        if form == 'dict':
            inp, d, rf = data, data, 'dict'
        elif form == 'map':
            inp = d = Map(data)
            rf = 'dict'
        elif form == 'json':
            inp = json.dumps(data)
            d, rf = data, 'json'
        elif form == 'jsondup':
            # every key preceded by a duplicate with another value: the last one counts
            if extra != 'ignore' or not data:
                continue
            inp = dup_dumps(data)
            d, rf = data, 'json'
        elif form == 'attr':
            if any(not isinstance(k, str) for k in data):
                continue
            inp = d = Attr(**data)
            rf = 'attr'
        elif form == 'attrkw':
            if any(not isinstance(k, str) for k in data):
                continue
            items = list(data.items())
            d = Attr(**dict(items[::2]))
            kwobj = dict(items[1::2])
            inp = (d, kwobj)
            rf = 'attr'
        elif form == 'ak':
            inp = ArgsKwargs((), data)
            d, rf = data, 'dict'
        if form in ('json', 'jsondup'):
            g = outcome(v.validate_json, inp, with_input=True, **rt)
            top = data
        elif form in ('attr', 'attrkw'):
            g = outcome(v.validate_python, inp, with_input=True, from_attributes=True, **rt)
            top = inp
        else:
            g = outcome(v.validate_python, inp, with_input=True, **rt)
            top = inp
        w = reference(kind, fields, extra, lba, by_alias, by_name, exs, d, rf, top, kwargs_obj=kwobj, **kwextra)
        if w[0] == 'exc':
            ok = g[0] == 'exc'
        else:
            ok = g == w
        if not ok:
            ctx.fail(f'{tag} {form} {data} {rt}', got=g, want=w, fields=fields, extra=extra)
        ctx.ev(f'{kind}-{w[0]}', (tag, form, repr(data), repr(rt)) if nontriv else None)


VALS = {'a': [MISS, 1, 'x'], 'A': [MISS, '2', 'y'], 'b': [MISS, 5, 'x'], 'z': [MISS, 7, 'q'],
        'p': [MISS, {'q': 3}, {'q': 'x'}, {}, 'str', {'r': [0, 6]}, {'r': [0]}], 'l': [MISS, [4], ['x'], [], [8, 9], 3]}
PLAIN = {'p': [MISS, {'q': 3}, {'q': 'x'}, {}, 'str'], 'l': [MISS, [4], ['x'], []]}


def keys_of(alias):
    ks = ['a']
    if alias is not None:
        for p in paths_of(alias):
            if p[0] not in ks:
                ks.append(p[0])
    return ks + ['b', 'z']


def inputs(keys, small):
    axes = []
    for k in keys:
        vs = VALS[k] if not small else PLAIN.get(k, VALS[k])
        axes.append([(k, x) for x in vs])
    for combo in itertools.product(*axes):
        yield {k: x for k, x in combo if x is not MISS}


def eff(rt, cfg, default):
    return rt if rt is not None else cfg if cfg is not None else default


FLAGS = [(None, None, None, None), (True, True, None, None), (False, True, None, None), (None, None, True, True), (None, None, False, True),
         (True, None, False, None), (False, True, True, False), (None, True, None, None), (None, None, False, None)]
ALLFLAGS = list(itertools.product((None, True, False), repeat=4))


DEEP = [['p', 'q', 's'], ['p', 0, 'q', -1], [['p', 'q', 's', 't'], ['u', 'q']], [['p', 'q'], ['u', 1, 'w']]]


def cut(p):
    """how far the data follows the path and what stands there"""
    yield 0, MISS
    for n in range(1, len(p)):
        for leaf in ('str', 5, None, [], {}):
            yield n, leaf
    yield len(p), 7
    yield len(p), 'x'


def put(data, p, n, leaf):
    if n == 0:
        return
    x = leaf
    for step in reversed(p[1:n]):
        x = {step: x} if isinstance(step, str) else ['pad'] * step + [x] if step >= 0 else [x] + ['pad'] * (-step - 1)
    data[p[0]] = x


def explore(ctx):
    q = ctx.quick
    # A: one focus field 'a' with every alias form, a plain field b, one extra key
    for kind, alias, (dflt, required, omit), extra, exs, lba in ctx.split(
            (k, a, d, e, x, l) for k in ('td', 'mf', 'da') for a in ALIASES
            for d in ((None, None, False), (11, None, False), (None, False, False), (None, None, True), (11, False, True), (None, False, True))
            for e, x in (('ignore', False), ('allow', False), ('allow', True), ('forbid', False)) for l in (None, False)):
        if (exs and kind == 'da') or (required is not None and kind != 'td') or (omit and kind == 'da') or (kind == 'td' and omit and required is None):
            continue
        fields = [F('a', alias, dflt, required, omit), F('b', None, 22)]
        inp_keys = keys_of(alias)
        small = q and alias is not None and len(paths_of(alias)) > 2
        flags = (ALLFLAGS if len(inp_keys) <= 4 else FLAGS[:5]) if not q else FLAGS if extra == 'forbid' and not small else FLAGS[:3]
        forms = {'td': ['dict', 'map', 'json', 'jsondup'], 'mf': ['dict', 'map', 'json', 'jsondup', 'attr', 'attrkw'], 'da': ['dict', 'ak', 'json', 'jsondup']}[kind]
        for ca, cn, ra, rn in flags:
            try:
                v = build(kind, fields, extra, lba, ca, cn, exs)
            except SchemaError as e:
                ctx.check(ca is False and cn is not True, f'build {kind} {fields}', err=str(e))
                continue
            ba, bn = eff(ra, ca, True), eff(rn, cn, False)
            rt = {k: x for k, x in (('by_alias', ra), ('by_name', rn)) if x is not None}
            tag = f'A {kind} {fields} {extra}{"+s" if exs else ""} lba={lba} cfg={ca},{cn}'
            for data in inputs(keys_of(alias), small):
                run(ctx, tag, v, (kind, fields, extra, lba is not False, ba, bn, exs, {}), data, forms, rt, bool(data))
    # A": alias paths of three and more steps, with the data cut off or of the wrong kind at every step
    for kind, alias, (dflt, required), lba in ctx.split(itertools.product(('td', 'mf', 'da'), DEEP, ((None, None), (11, None), (None, False)), (None, False))):
        if required is not None and kind != 'td':
            continue
        fields = [F('a', alias, dflt, required), F('b', None, 22)]
        forms = {'td': ['dict', 'map', 'json', 'jsondup'], 'mf': ['dict', 'map', 'json', 'jsondup', 'attr', 'attrkw'], 'da': ['dict', 'ak', 'json', 'jsondup']}[kind]
        for ca, cn, ra, rn in FLAGS:
            try:
                v = build(kind, fields, 'forbid' if kind == 'mf' else 'ignore', lba, ca, cn)
            except SchemaError as e:
                ctx.check(ca is False and cn is not True, f'build {kind} {fields}', err=str(e))
                continue
            ba, bn = eff(ra, ca, True), eff(rn, cn, False)
            rt = {k: x for k, x in (('by_alias', ra), ('by_name', rn)) if x is not None}
            ps = paths_of(alias)
            for cuts in itertools.product(*[cut(p) for p in ps]):
                for byname in (MISS, 5):
                    data = {}
                    for p, (n, leaf) in zip(ps, cuts):
                        put(data, p, n, leaf)
                    if byname is not MISS:
                        data.setdefault('a', byname)
                    run(ctx, f'A" {kind} {fields} lba={lba} cfg={ca},{cn}', v, (kind, fields, 'forbid' if kind == 'mf' else 'ignore', lba is not False, ba, bn, False, {}), data, forms, rt, bool(data))
    # A': two fields sharing alias keys, fields whose name is another's alias
    for kind, (a1, a2), extra in ctx.split((k, a, e) for k in ('td', 'mf', 'da') for a in
                                           ((('A', 'A')), (('b', 'a')), (('A', ['A', 'q'])), ((['p', 'q'], ['p', 'r', 1])), (([['p', 'q'], ['b']], None)), (('a', None)), (([['a'], ['A']], [['A'], ['a']])))
                                           for e in ('ignore', 'allow', 'forbid')):
        fields = [F('a', a1), F('b', a2, 22)]
        forms = {'td': ['dict', 'map', 'json', 'jsondup'], 'mf': ['dict', 'map', 'json', 'jsondup', 'attr', 'attrkw'], 'da': ['dict', 'ak', 'json', 'jsondup']}[kind]
        for ca, cn, ra, rn in FLAGS[:6]:
            v = build(kind, fields, extra, None, ca, cn)
            ba, bn = eff(ra, ca, True), eff(rn, cn, False)
            rt = {k: x for k, x in (('by_alias', ra), ('by_name', rn)) if x is not None}
            for combo in itertools.product([MISS, 1, 'x'], [MISS, 2, 'y', {'q': 4}], [MISS, 5, 'w'], [MISS, {'q': 3, 'r': [0, 6]}, {'q': 'x'}]):
                data = {k: x for k, x in zip(('a', 'A', 'b', 'p'), combo) if x is not MISS}
                run(ctx, f"A' {kind} {fields} {extra} cfg={ca},{cn}", v, (kind, fields, extra, True, ba, bn, False, {}), data, forms, rt, bool(data))
    # B: products of plain fields, several errors and extras in every order of the input keys
    nf = 3 if q else 4
    for kind, dk, extra, exs in ctx.split((k, d, e, x) for k in ('td', 'mf', 'da') for d in itertools.product((0, 1), repeat=nf)
                                          for e, x in (('ignore', False), ('allow', False), ('allow', True), ('forbid', False))):
        if exs and kind == 'da':
            continue
        names = 'cabd'[:nf]
        fields = [F(n, None, 10 + i if d else None) for i, (n, d) in enumerate(zip(names, dk))]
        v = build(kind, fields, extra, None, None, None, exs)
        forms = {'td': ['dict', 'map', 'json', 'jsondup'], 'mf': ['dict', 'map', 'json', 'jsondup', 'attr', 'attrkw'], 'da': ['dict', 'ak', 'json', 'jsondup']}[kind]
        for combo in itertools.product(*([[MISS, 1, 'x']] * (nf + 2))):
            data = {k: x for k, x in zip(list(names) + ['y', 'z'], combo) if x is not MISS}
            ds = [data, dict(reversed(list(data.items())))]
            ks = list(data)
            ds.append({k: data[k] for k in ks[1::2] + ks[::2]})
            for d in ds:
                run(ctx, f'B {kind} {fields} {extra}{exs}', v, (kind, fields, extra, True, True, False, exs, {}), d, forms, {}, bool(d))
        # keys that are no strings
        if extra != 'ignore' or True:
            for bad in (1, 2.5, None, b'a', (1,)):
                for val in (1, 'x'):
                    d = {names[0]: 1, bad: val, names[1]: 'x'}
                    w = reference(kind, fields, extra, True, True, False, exs, d, 'dict', d)
                    g = outcome(v.validate_python, d, with_input=False)
                    ww = ('err', tuple((t, l) for t, l, _ in w[1])) if w[0] == 'err' else w
                    if w[0] == 'err':
                        # the rendering of an odd key in a location is not part of the contract, its position and type are
                        norm = lambda r: tuple((t, l if all(isinstance(x, (str, int)) for x in l) and t != 'invalid_key' else '?') for t, l in r)
                        ok = g[0] == 'err' and norm(g[1]) == norm(ww[1])
                    else:
                        ok = g == w
                    ctx.check(ok, f'B key {kind} {extra} {bad!r}', got=g, want=ww)
                    ctx.ev('badkey', (kind, dk, extra, exs, repr(bad), val))
    # C: dataclass positional / keyword / init / init_only
    for flags, nargs in ctx.split((f, n) for f in itertools.product(((True, True, False), (False, True, False), (False, False, False), (False, True, True), (True, False, False), (True, True, True)), repeat=3) for n in (0, 1, 2, 3, 4)):
        for dk in itertools.product((0, 1), repeat=3):
            fields = [F(n, None, 10 + i if d else None, kw_only=k, init=ini, init_only=io) for i, (n, d, (k, ini, io)) in enumerate(zip('abc', dk, flags))]
            for extra in ('ignore', 'allow', 'forbid'):
                v = build('da', fields, extra, None, None, None)
                argss = [[1] * nargs] + [[1] * i + ['x'] + [1] * (nargs - i - 1) for i in range(nargs)]
                for args in argss:
                    for present in itertools.product((0, 1), repeat=3):
                        kws = {n: 30 + i for i, (n, p) in enumerate(zip('abc', present)) if p}
                        for more in ({}, {'z': 9}):
                            kw = {**kws, **more}
                            inp = ArgsKwargs(tuple(args), kw)
                            w = reference('da', fields, extra, True, True, False, False, kw, 'dict', inp, args=tuple(args))
                            g = outcome(v.validate_python, inp, with_input=True)
                            if g != w:
                                ctx.fail(f'C {fields} {extra} {inp}', got=g, want=w)
                            ctx.ev('da-pos-' + w[0], (str(fields), extra, str(inp)))
    # D: strings mode
    for kind, extra, dk in ctx.split((k, e, d) for k in ('td', 'mf', 'da') for e in ('ignore', 'allow', 'forbid') for d in itertools.product((0, 1), repeat=2)):
        for alias in ALIASES[:3]:
            fields = [F('a', alias, 11 if dk[0] else None), F('b', None, 22 if dk[1] else None)]
            v = build(kind, fields, extra, None, None, None)
            for combo in itertools.product([MISS, '1', 'x', 5, None, {'q': '1'}], [MISS, '2', 'y', 6.5], [MISS, {'q': '3'}, {'q': 'x'}, {}, {'q': 1}], [MISS, '5', 'x', 7], [MISS, '7', 'q']):
                data = {k: x for k, x in zip(('a', 'A', 'p', 'b', 'z'), combo) if x is not MISS}
                strs = all(isinstance(x, str) or isinstance(x, dict) and all(isinstance(y, str) for y in x.values()) for x in data.values())
                if not strs and (extra != 'ignore' or kind == 'da'):
                    continue
                if extra == 'allow' and kind != 'ignore' and any(isinstance(x, dict) for x in data.values()):
                    continue
                w = reference(kind, fields, extra, True, True, False, False, data, 'dict', data)
                if w[0] == 'err':
                    # in strings mode a leaf that is no string is a string_type error, under the field name
                    ww = []
                    for f in fields:
                        sel = paths_of(f.alias) or [(f.name,)]
                        x = follow(data, sel[0], 'dict')
                        if x is MISS:
                            if f.dflt is None:
                                ww.append(('missing', sel[0]))
                        elif isinstance(x, str):
                            ok, r = int_val(x)
                            if not ok:
                                ww.append((r, sel[0]))
                        elif isinstance(x, dict):
                            ww.append(('int_type', sel[0]))
                        else:
                            ww.append(('string_type', (f.name,)))
                    ww += [(t, l) for t, l, _ in w[1] if t in ('extra_forbidden', 'unexpected_keyword_argument')]
                    w = ('err', tuple(ww))
                elif not strs:
                    ww = [('string_type', (f.name,)) for f in fields if not (isinstance(follow(data, (paths_of(f.alias) or [(f.name,)])[0], 'dict'), str) or follow(data, (paths_of(f.alias) or [(f.name,)])[0], 'dict') is MISS)]
                    if ww:
                        w = ('err', tuple(ww))
                g = outcome(v.validate_strings, data)
                if g != w:
                    ctx.fail(f'D {kind} {fields} {extra} {data}', got=g, want=w)
                ctx.ev('str-' + w[0], (kind, str(fields), extra, str(data)))
    # E: attributes that raise, from_attributes settings, mapping and strict rules
    class Prop:
        def __init__(self, a, b):
            self._a, self._b = a, b

        def _get(self, x):
            if isinstance(x, BaseException):
                raise x
            return x

        a = property(lambda self: self._get(self._a))
        b = property(lambda self: self._get(self._b))
    opts = [1, 'x', AttributeError('no'), RuntimeError('boom'), ValueError('v'), KeyError('k')]
    for av, bv in ctx.split(itertools.product(opts, repeat=2)):
        for dk in itertools.product((0, 1), repeat=2):
            fields = [F('a', None, 11 if dk[0] else None), F('b', None, 22 if dk[1] else None)]
            for cfg, rt in ((True, None), (False, True), (True, False), (False, None), (False, False)):
                v = build('mf', fields, 'forbid', None, None, None, from_attributes=cfg)
                for nest in (0, 1):
                    o = Prop(av, bv)
                    active = rt if rt is not None else cfg
                    g = outcome(v.validate_python, o, **({} if rt is None else {'from_attributes': rt}))
                    if not active:
                        w = ('err', (('model_type', ()),))
                    else:
                        er, out, fs = [], {}, set()
                        for f, x in zip(fields, (av, bv)):
                            if isinstance(x, AttributeError):
                                if f.dflt is None:
                                    er.append(('missing', (f.name,)))
                                else:
                                    out[f.name] = f.dflt
                            elif isinstance(x, BaseException):
                                er.append(('get_attribute_error', (f.name,)))
                            elif x == 'x':
                                er.append(('int_parsing', (f.name,)))
                            else:
                                out[f.name] = x
                                fs.add(f.name)
                        w = ('err', tuple(er)) if er else ('ok', canon((out, None, fs)))
                    ctx.check(g == w, f'E {av!r} {bv!r} {dk} {cfg} {rt}', got=g, want=w)
                    ctx.ev('attr-' + w[0], (repr(av), repr(bv), dk, cfg, rt))
    # F: what counts as a mapping or an object
    good = {'a': 1, 'b': 2}
    cases = [(good, 'dict'), (Map(good), 'map'), (types.MappingProxyType(good), 'map'), (collections.OrderedDict(good), 'dict'), (collections.ChainMap(good), 'map'), (collections.UserDict(good), 'map'),
             (Attr(**good), 'attr'), (types.SimpleNamespace(**good), 'ns'), ([('a', 1)], 'no'), ('a', 'no'), (None, 'no'), (1, 'no'), ({'a', 'b'}, 'no'), (good.items(), 'no'), (b'{}', 'no'), ((Attr(**good), {}), 'attr'), ((1, {}), 'no'), ((Attr(**good), 1), 'no')]
    for kind, (inp, c) in ctx.split(itertools.product(('td', 'mf'), cases)):
        for strict in (None, False, True):
            for fa in (None, True, False):
                fields = [F('a'), F('b')]
                v = build(kind, fields, 'ignore', None, None, None)
                g = outcome(v.validate_python, inp, **{k: x for k, x in (('strict', strict), ('from_attributes', fa)) if x is not None})
                okk = c == 'dict' or (c == 'map' and not strict) or (fa and kind == 'mf' and c in ('attr', 'ns', 'map'))
                if kind == 'mf' and c == 'map' and fa and strict:
                    # a mapping in strict mode is read through its attributes (or refused)
                    ctx.ev('mapping-attr')
                    continue
                if c == 'ns' and fa:
                    # SimpleNamespace lives in 'types'
                    pass
                if okk:
                    w = canon({'a': 1, 'b': 2} if kind == 'td' else ({'a': 1, 'b': 2}, None, {'a', 'b'}))
                    ctx.check(g == ('ok', w), f'F {kind} {inp!r} strict={strict} fa={fa}', got=g, want=w)
                else:
                    t = 'dict_type' if kind == 'td' else 'model_attributes_type' if fa else 'model_type'
                    ctx.check(g == ('err', ((t, ()),)), f'F {kind} {inp!r} strict={strict} fa={fa}', got=g, want=t)
                ctx.ev('type', (kind, repr(inp), strict, fa))
