"""C07: explicit-state exploration of assignment histories.  The model is a plain record (fields, extras,
fields-set); every transition (assign name:=value under runtime settings) is taken on the real instance and
on the record, and the two are compared after each step, from every reachable state and along every
history up to the depth bound."""
import dataclasses, itertools
from mc.lib import *
from mc.zoo import mk, Attr

LEVEL = 'model_checking'
RULE = ('breadth-first over assignment operations from every initial instance, on the real object and on a reference record, for every schema '
        'configuration; non-trivial: histories with at least one successful and one failing assignment, and failing assignments from every state')
ASSUME = ['the key order of __dict__ is not part of the state', 'key validation of extras (extras_keys_schema) on assignment is not judged']
BOUNDS = {'quick': 'BFS over all reachable states to depth 3 with de-duplication, plus all histories of length <= 2 without, ~19 operations, 40 configurations',
          'thorough': 'BFS to depth 5, histories of length <= 3 without de-duplication'}


class MA(Model):
    pass


class MIn(Model):
    pass


class MR(Model):
    __slots__ = ()


class Boom(Exception):
    pass


def inner_schema():
    return cs.model_schema(MIn, cs.model_fields_schema({'v': cs.model_field(cs.int_schema())}))


def after_b(v, info):
    if v == 'bad':
        raise ValueError('bad b')
    if v == 'boom':
        raise Boom('boom')
    SEEN.append((dict(info.data), info.field_name, info.context))
    return v


SEEN = []


def field_schemas(kind):
    f = {
        'a': (cs.int_schema(), False),
        'b': (cs.with_default_schema(cs.with_info_after_validator_function(after_b, cs.str_schema()), default='dft'), False),
        'c': (cs.int_schema(), True),
        'd': (cs.list_schema(cs.int_schema()), False),
        'm': (cs.nullable_schema(inner_schema()), False),
    }
    return f


# values per field: (input, ok?, result or error list(relative loc))
def valid_int(v, strict):
    if type(v) is int:
        return True, v
    if isinstance(v, str):
        if strict:
            return False, [('int_type', ())]
        try:
            return True, int(v)
        except ValueError:
            return False, [('int_parsing', ())]
    return False, [('int_type', ())]


def ref_value(name, v, strict):
    """(ok, value|errors) ; errors None means: the callback's exception propagates"""
    if name in ('a', 'c', 'v', 'z', 'y'):
        return valid_int(v, strict)
    if name == 'b':
        if not isinstance(v, str):
            return False, [('string_type', ())]
        if v == 'bad':
            return False, [('value_error', ())]
        if v == 'boom':
            return False, None
        return True, v
    if name in ('d', 'root'):
        if isinstance(v, tuple) and not strict:
            v = list(v)
        if not isinstance(v, list):
            return False, [('list_type', ())]
        er, out = [], []
        for i, x in enumerate(v):
            ok, r = valid_int(x, strict)
            if ok:
                out.append(r)
            else:
                er += [(t, (i,) + l) for t, l in r]
        return (False, er) if er else (True, out)
    if name == 'm':
        if v is None:
            return True, None
        if isinstance(v, MIn):
            return True, v
        if isinstance(v, dict):
            if 'v' not in v:
                return False, [('missing', ('v',))]
            ok, r = valid_int(v['v'], strict)
            return (True, mk(MIn, v=r)) if ok else (False, [(t, ('v',) + l) for t, l in r])
        return False, [('model_type', ())]
    raise AssertionError(name)


def ops(q):
    o = [('a', 1), ('a', '2'), ('a', 'x'), ('b', 's'), ('b', 'bad'), ('b', 'boom'), ('b', 5), ('c', 9), ('c', 'x'), ('d', [1]), ('d', (2, '3')), ('d', [1, 'x', 'y']), ('d', 5),
         ('m', {'v': 1}), ('m', {'v': 'x'}), ('m', None), ('z', 4), ('z', 'q'), ('y', 'w'), ('root', [1])]
    return o


class Rec:
    """the reference object"""

    def __init__(self, fields, extra, fset):
        self.fields, self.extra, self.fset = dict(fields), None if extra is None else dict(extra), None if fset is None else set(fset)

    def copy(self):
        return Rec(self.fields, self.extra, self.fset)

    def canon(self):
        return (tuple(sorted((k, canon(v)) for k, v in self.fields.items())), None if self.extra is None else tuple(sorted((k, canon(v)) for k, v in self.extra.items())),
                None if self.fset is None else tuple(sorted(self.fset)))


def read(o, kind, names):
    if kind == 'dc_slots':
        return (tuple(sorted((k, canon(getattr(o, k))) for k in names if hasattr(o, k))), None, None)
    if kind == 'root':
        return (tuple(sorted((k, canon(v)) for k, v in o.__dict__.items())), None, tuple(sorted(o.__pydantic_fields_set__)))
    if kind.startswith('dc'):
        return (tuple(sorted((k, canon(v)) for k, v in o.__dict__.items())), None, None)
    ex = o.__pydantic_extra__
    return (tuple(sorted((k, canon(v)) for k, v in o.__dict__.items())), None if ex is None else tuple(sorted((k, canon(v)) for k, v in ex.items())), tuple(sorted(o.__pydantic_fields_set__)))


def clone(o, kind, names):
    n = type(o).__new__(type(o))
    if kind == 'dc_slots':
        for k in names:
            if hasattr(o, k):
                object.__setattr__(n, k, getattr(o, k))
        return n
    object.__setattr__(n, '__dict__', dict(o.__dict__))
    if not kind.startswith('dc'):
        object.__setattr__(n, '__pydantic_fields_set__', set(o.__pydantic_fields_set__))
        object.__setattr__(n, '__pydantic_extra__', None if o.__pydantic_extra__ is None else dict(o.__pydantic_extra__))
        object.__setattr__(n, '__pydantic_private__', o.__pydantic_private__)
    return n


class Config:
    """one schema configuration"""

    def __init__(self, kind, extra='ignore', exs=False, frozen=False, wrap=None, freeze_field=True, cfg_strict=False):
        self.kind, self.extra, self.exs, self.frozen, self.wrap, self.freeze_field, self.cfg_strict = kind, extra, exs, frozen, wrap, freeze_field, cfg_strict
        self.names = ['root'] if kind == 'root' else list(field_schemas(kind))

    def __repr__(self):
        return f'{self.kind} extra={self.extra}{"+s" if self.exs else ""}{" frozen" if self.frozen else ""}{" strict" if self.cfg_strict else ""} wrap={self.wrap}'

    def validator(self):
        fs = field_schemas(self.kind)
        kw = {'extra_behavior': self.extra}
        if self.exs:
            kw['extras_schema'] = cs.int_schema()
        cfg = {'strict': True} if self.cfg_strict else {}
        if self.kind == 'root':
            self.cls = MR
            inner = cs.list_schema(cs.int_schema())
        elif self.kind == 'model':
            self.cls = MA
            inner = cs.model_fields_schema({n: cs.model_field(s, frozen=fz) for n, (s, fz) in fs.items()}, **kw)
        else:
            if self.kind == 'dc_slots':
                self.cls = dataclasses.make_dataclass('DSl', list(fs), slots=True)
            else:
                self.cls = dataclasses.make_dataclass('DC', list(fs))
            inner = cs.dataclass_args_schema('DC', [cs.dataclass_field(n, s, frozen=fz) for n, (s, fz) in fs.items()], **kw)
        w = self.wrap
        if w == 'inner-after':
            inner = cs.no_info_after_validator_function(self._noop, inner)
        elif w == 'inner-wrap':
            inner = cs.no_info_wrap_validator_function(lambda v, h: h(v), inner)
        elif w == 'inner-before':
            inner = cs.no_info_before_validator_function(self._noop, inner)
        elif w == 'inner-after-fail':
            inner = cs.no_info_after_validator_function(self._fail13_fields, inner)
        elif w == 'inner-wrap-fail':
            inner = cs.no_info_wrap_validator_function(lambda v, h: self._fail13_fields(h(v)), inner)
        if self.kind == 'root':
            s = cs.model_schema(MR, inner, root_model=True, frozen=self.frozen, config=cfg)
        elif self.kind == 'model':
            s = cs.model_schema(MA, inner, frozen=self.frozen, config=cfg)
        else:
            s = cs.dataclass_schema(self.cls, inner, list(fs), frozen=self.frozen, slots=self.kind == 'dc_slots', config=cfg)
        if w == 'after':
            s = cs.no_info_after_validator_function(self._noop, s)
        elif w == 'wrap':
            s = cs.no_info_wrap_validator_function(lambda v, h: h(v), s)
        elif w == 'before':
            s = cs.no_info_before_validator_function(self._noop, s)
        elif w == 'before-fail':
            s = cs.no_info_before_validator_function(self._fail13_inst, s)
        elif w == 'wrap-fail-before':
            s = cs.no_info_wrap_validator_function(lambda v, h: h(self._fail13_inst(v)), s)
        elif w == 'after-fail':
            s = cs.no_info_after_validator_function(self._fail13_inst, s)
        elif w == 'wrap-fail-after':
            s = cs.no_info_wrap_validator_function(lambda v, h: self._fail13_inst(h(v)), s)
        elif w == 'defs':
            s['ref'] = 'X'
            s = cs.definitions_schema(cs.definition_reference_schema('X'), [s])
        elif w == 'before+after+wrap':
            s = cs.no_info_wrap_validator_function(lambda v, h: h(v), cs.no_info_after_validator_function(self._noop, cs.no_info_before_validator_function(self._noop, s)))
        return SchemaValidator(s)

    def _noop(self, v):
        return v

    def _fail13_fields(self, v):
        d = v[0] if isinstance(v, tuple) else v
        if isinstance(d, dict) and d.get('a') == 1 or isinstance(d, list) and d == [1]:
            raise ValueError('one')
        return v

    def _one(self, f):
        return f.get('root') == [1] if self.kind == 'root' else f.get('a') == 1

    def _fail13_inst(self, v):
        if (getattr(v, 'root', None) == [1] if self.kind == 'root' else getattr(v, 'a', None) == 1):
            raise ValueError('one')
        return v

    def initials(self):
        """(instance, record)"""
        k = self.kind
        if k == 'root':
            for r, fs in (([0], ['root']), ([0], []), ([1], ['root'])):
                yield mk(MR, fs=fs, root=list(r)), Rec({'root': list(r)}, None, fs)
            return
        full = {'a': 0, 'b': 'b', 'c': 3, 'd': [5], 'm': None}
        part = {'a': 0, 'c': 3}
        one = {'a': 1, 'b': 'b', 'c': 3, 'd': [5], 'm': mk(MIn, v=7)}
        if k == 'model':
            ex = {'y': 'old'} if self.extra == 'allow' and not self.exs else {'y': 8} if self.extra == 'allow' else None
            for d, e, fs in ((full, ex, {'a', 'c'}), (full, {} if self.extra == 'allow' else None, set()), (one, ex, set(one)), (part, ex, {'a'}), ({**full, 'cached': object}, ex, {'a'})):
                yield mk(MA, extra=None if e is None else dict(e), fs=set(fs), **dict(d)), Rec(d, e, fs)
        else:
            for d in (full, one) + (({**full, 'note': 'n'},) if k == 'dc' else ()):
                o = self.cls.__new__(self.cls)
                for n, v in d.items():
                    object.__setattr__(o, n, v)
                yield o, Rec(d, None, None)

    def step(self, rec, name, v, strict):
        """('ok', newrec) | ('err', errors, rec) | ('boom', rec)"""
        st = strict if strict is not None else self.cfg_strict
        is1 = self._one(rec.fields)
        if self.wrap in ('before-fail', 'wrap-fail-before') and is1:
            return ('err', (('value_error', ()),), rec)
        if self.frozen:
            return ('err', (('frozen_instance', ()),), rec)
        new = rec.copy()
        if self.kind == 'root':
            if name != 'root':
                return ('err', (('no_such_attribute', (name,)),), rec)
            ok, r = ref_value('root', v, st)
            if not ok:
                return ('err', tuple(r), rec)
            new.fields['root'] = r
            new.fset.add('root')
        elif name in self.names:
            if field_schemas(self.kind)[name][1]:
                return ('err', (('frozen_field', (name,)),), rec)
            ok, r = ref_value(name, v, bool(strict) if name == 'm' else st)  # a nested model has its own config
            if not ok:
                return ('boom', rec) if r is None else ('err', tuple((t, (name,) + l) for t, l in r), rec)
            new.fields[name] = r
            if new.fset is not None:
                new.fset.add(name)
        elif self.extra == 'allow':
            if self.exs:
                ok, r = valid_int(v, st)
                if not ok:
                    return ('err', tuple((t, (name,) + l) for t, l in r), rec)
            else:
                r = v
            if self.kind == 'model':
                new.extra[name] = r
                new.fset.add(name)
            else:
                new.fields[name] = r
        else:
            return ('err', (('no_such_attribute', (name,)),), rec)
        n1 = self._one(new.fields)
        if n1 and self.wrap in ('inner-after-fail', 'inner-wrap-fail', 'after-fail', 'wrap-fail-after'):
            return ('err', (('value_error', ()),), rec)
        return ('ok', new)


def do(v, o, name, val, rt):
    try:
        r = v.validate_assignment(o, name, val, **rt)
    except ValidationError as e:
        return ('err', errs(e))
    except Boom:
        return ('boom',)
    except Exception as e:
        guard(e, (name, val))
        return ('exc', repr(e))
    return ('ok', r)


def one(ctx, cfg, v, o, rec, name, val, strict, path):
    """take one transition on a clone of o; returns the new (instance, record)"""
    n = clone(o, cfg.kind, cfg.names)
    before = read(n, cfg.kind, cfg.names)
    ident = None if cfg.kind == 'dc_slots' else n.__dict__
    SEEN.clear()
    context = object()
    rt = {'context': context, **({} if strict is None else {'strict': strict})}
    want = cfg.step(rec, name, val, strict)
    got = do(v, n, name, val, rt)
    after = read(n, cfg.kind, cfg.names)
    ctx.step()
    k = f'{cfg} {path + [(name, val, strict)]}'
    if cfg.wrap in ('after-fail', 'wrap-fail-after') and want[0] == 'err' and want[1] == (('value_error', ()),):
        k = 'outer function fails after the inner assignment: ' + k
    if want[0] == 'ok':
        if got[0] != 'ok':
            ctx.fail(k, got=got, want='ok')
        else:
            if got[1] is not n:
                ctx.fail(k + ' result is another object', got=got)
            if after != want[1].canon():
                ctx.fail(k, got=after, want=want[1].canon())
            if name == 'b':
                exp = [({f: x for f, x in [*rec.fields.items(), *(rec.extra or {}).items()] if f != 'b'}, 'b', context)]
                if len(SEEN) != 1 or {f: canon(x) for f, x in SEEN[0][0].items()} != {f: canon(x) for f, x in exp[0][0].items() if f in cfg.names or cfg.kind == 'model'} or SEEN[0][1] != 'b' or SEEN[0][2] is not context:
                    ctx.fail(k + ' info', got=SEEN, want=exp)
        ctx.ev('ok')
        return n, want[1]
    if want[0] == 'boom':
        if got[0] != 'boom':
            ctx.fail(k, got=got, want='the exception of the callback')
    elif got != ('err', want[1]):
        ctx.fail(k, got=got, want=want)
    if after != before or (ident is not None and n.__dict__ is not ident):
        ctx.fail(k + ' changed the instance', before=before, after=after)
    ctx.ev('fail-' + want[0], (repr(cfg), before, name, repr(val), strict))
    return n, rec


def explore(ctx):
    q = ctx.quick
    cfgs = []
    wraps = [None, 'inner-after', 'inner-wrap', 'inner-before', 'inner-after-fail', 'inner-wrap-fail', 'after', 'wrap', 'before', 'before-fail', 'wrap-fail-before', 'after-fail', 'wrap-fail-after', 'defs', 'before+after+wrap']
    for kind in ('model', 'dc', 'dc_slots', 'root'):
        for extra, exs in (('ignore', False), ('allow', False), ('allow', True), ('forbid', False)):
            if (exs and kind != 'model') or (kind == 'root' and extra != 'ignore') or (kind == 'dc_slots' and extra == 'allow'):
                continue
            for w in wraps:
                if kind == 'root' and w in ('inner-after', 'inner-wrap', 'inner-before', 'inner-after-fail', 'inner-wrap-fail'):
                    continue
                cfgs.append(Config(kind, extra, exs, False, w))
            cfgs.append(Config(kind, extra, exs, True))
            cfgs.append(Config(kind, extra, exs, False, None, cfg_strict=True))
    O = ops(q)
    depth = 3 if q else 5
    for cfg, i0 in ctx.split((c, i) for c in cfgs for i in range(5)):
        v = cfg.validator()
        ini = list(cfg.initials())
        if i0 >= len(ini):
            continue
        o, rec = ini[i0]
        ctx.case(cfg, i0)
        seen = set()
        frontier = [(o, rec, [])]
        seen.add(rec.canon())
        for d in range(depth):
            nxt = []
            for o1, r1, path in frontier:
                for name, val in O:
                    for strict in (None, True, False) if (d < 2 or not q) else (None,):
                        o2, r2 = one(ctx, cfg, v, o1, r1, name, val, strict, path)
                        c = r2.canon()
                        ctx.state((repr(cfg), c))
                        if c not in seen:
                            seen.add(c)
                            nxt.append((o2, r2, path + [(name, val, strict)]))
                            ctx.trace_done()
            frontier = nxt
        # histories on one and the same instance, without de-duplication
        L = 2 if q else 3
        for hist in itertools.product(O, repeat=L):
            o1, r1 = clone(o, cfg.kind, cfg.names), rec
            bad = False
            for name, val in hist:
                want = cfg.step(r1, name, val, None)
                got = do(v, o1, name, val, {})
                if want[0] == 'ok':
                    r1 = want[1]
                elif cfg.wrap in ('after-fail', 'wrap-fail-after') and want[0] == 'err' and want[1] == (('value_error', ()),):
                    bad = True  # judged (and known) in the single step exploration
                    break
                ctx.step()
                if got[0] != want[0] or (want[0] == 'err' and got[1] != want[1]):
                    ctx.fail(f'history {cfg} {hist}', got=got, want=want)
            if not bad:
                a = read(o1, cfg.kind, cfg.names)
                if a != r1.canon():
                    ctx.fail(f'history {cfg} {hist} final', got=a, want=r1.canon())
            ctx.ev('history', (repr(cfg), i0, repr(hist)))
            ctx.trace_done()
        ctx.sample(repr(cfg), rec.canon(), O[:3])
    # model-fields / dataclass-args validators alone: a failed assignment leaves the given dict as it was
    for kind in ctx.split(('mf', 'da')):
        fs = field_schemas('model')
        for extra in ('ignore', 'allow', 'forbid'):
            if kind == 'mf':
                v = SchemaValidator(cs.model_fields_schema({n: cs.model_field(s, frozen=fz) for n, (s, fz) in fs.items()}, extra_behavior=extra))
            else:
                v = SchemaValidator(cs.dataclass_args_schema('DC', [cs.dataclass_field(n, s, frozen=fz) for n, (s, fz) in fs.items()], extra_behavior=extra))
            cfg = Config('model' if kind == 'mf' else 'dc', extra)
            for name, val in O:
                d = {'a': 0, 'b': 'b', 'c': 3, 'd': [5], 'm': None, **({'y': 'old'} if extra == 'allow' else {})}
                before = canon(d)
                rec = Rec({k: x for k, x in d.items() if k != 'y'}, {'y': 'old'} if extra == 'allow' else None, set()) if kind == 'mf' else Rec(d, None, None)
                want = cfg.step(rec, name, val, None)
                got = do(v, d, name, val, {})
                if want[0] == 'ok':
                    w = want[1]
                    if got[0] == 'ok':
                        if kind == 'mf':
                            g = (canon(dict(sorted(got[1][0].items()))), canon(got[1][1]), got[1][2])
                            e = (canon(dict(sorted(w.fields.items()))), canon(w.extra), {name})
                        else:
                            g, e = canon(dict(sorted(got[1][0].items()))), canon(dict(sorted(w.fields.items())))
                        ctx.check(g == e, f'{kind} {extra} {name}={val!r}', got=g, want=e)
                    else:
                        ctx.fail(f'{kind} {extra} {name}={val!r}', got=got)
                else:
                    ctx.check(got == want[:len(got)], f'{kind} {extra} {name}={val!r}', got=got, want=want)
                    ctx.check(canon(d) == before, f'{kind} {extra} {name}={val!r} changed the dict', got=d)
                ctx.ev('fields', (kind, extra, name, repr(val)))
