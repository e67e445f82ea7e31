"""C21: union serialization.  Exhaustive: every union of two or three branches from an alphabet of branches with distinguishable
output (each marks what it serialized), in every order and nesting position, on matching, subclassed, mixed and non-matching values,
against a reference which looks for the strictest matching branch; warnings exactly when nothing matches, in every warnings mode."""
import itertools, json
from pydantic_core import PydanticSerializationUnexpectedValue
from mc.lib import *
from mc.zoo import *

LEVEL = 'exploration'
RULE = ('ordered unions of branches (leaves, containers, models and subclasses, dataclasses, typed dicts, root models, nested and tagged unions) x position x values x output mode x warnings mode: '
        'result and presence of warnings equal the reference (strict pass, lax pass, inference with warning); non-trivial: a branch other than the first is used')
ASSUME = ['None is serialized as None by every built-in leaf without a warning (documented special case)', 'outside unions a model serializer takes any object with __dict__ (duck typing, without warning)',
          'a lazily serialized generator matches a generator branch', 'a typed-dict branch matches strictly only a dict without undeclared keys (in the lax pass that is not judged)', 'a tuple branch takes a longer tuple in the lax pass, with a warning (as tested)',
          'outside unions a literal serializer does not check its value']
BOUNDS = {'quick': 'pairs of 26 branches and triples of 11, 14 positions, 40 values', 'thorough': 'triples of 18 branches, pairs in two nested positions'}


class A(Model):
    pass


class ASub(A):
    pass


class B(Model):
    pass


class RI(Model):
    __slots__ = ()


class RL(Model):
    __slots__ = ()


@dataclasses.dataclass
class DA:
    a: object


@dataclasses.dataclass
class DB:
    a: object


@dataclasses.dataclass
class DASub(DA):
    b: object = 2


class TagM(Model):
    pass


class TagN(Model):
    pass


class Mis(Exception):
    pass


# --- types of the reference: (schema, strict/lax/none serializer)
class T:
    name = '?'

    def schema(self):
        raise NotImplementedError

    def ser(self, v, lvl, md, warn):
        """lvl 2 strict, 1 lax, 0 none"""
        raise NotImplementedError

    def miss(self, v, lvl, md, warn):
        if v is None:
            return None
        if lvl:
            raise Mis()
        warn.append(self.name)
        return infer(v, md)


class Leaf(T):
    def __init__(self, name, mk, types, sub=()):
        self.name, self.mk, self.types, self.sub = name, mk, types, sub

    def schema(self):
        return self.mk()

    def ser(self, v, lvl, md, warn):
        if type(v) in self.types:
            return jv(v) if md else v
        if isinstance(v, self.types + self.sub) and not (bool in self.types and type(v) is not bool) and not isinstance(v, enum.Enum) and not (self.name == 'date' and isinstance(v, DT)) :
            if lvl == 2:
                if not self.subok():
                    raise Mis()
            if md:
                return float(v) if self.name == 'float' else int(v) if self.name == 'int' else jv(v)
            return infer(v, md)
        return self.miss(v, lvl, md, warn)

    def subok(self):
        """a subclass instance matches strictly"""
        return self.name in ('bytes', 'date', 'decimal')


class Mark(T):
    def __init__(self, inner, m):
        self.inner, self.m = inner, m
        self.name = f'{m}:{inner.name}'

    def schema(self):
        m = self.m
        return cs.any_schema(serialization=cs.wrap_serializer_function_ser_schema(lambda v, h: {m: h(v)}, schema=self.inner.schema()))

    def ser(self, v, lvl, md, warn):
        r = {self.m: self.inner.ser(v, lvl, md, warn)}
        return jinfer(r) if md else r


class Seq(T):
    def __init__(self, item, kind):
        self.item, self.kind = item, kind
        self.name = f'{kind.__name__}[{item.name}]'

    def schema(self):
        s = self.item.schema()
        return {list: cs.list_schema, set: cs.set_schema, frozenset: cs.frozenset_schema}[self.kind](s) if self.kind is not tuple else cs.tuple_variable_schema(s)

    def ser(self, v, lvl, md, warn):
        if not isinstance(v, self.kind):
            return self.miss(v, lvl, md, warn)
        r = [self.item.ser(x, lvl, md, warn) for x in v]
        return r if md else self.kind(r)


class Tup(T):
    def __init__(self, items):
        self.items = items
        self.name = 'tuple[' + ','.join(i.name for i in items) + ']'

    def schema(self):
        return cs.tuple_schema([i.schema() for i in self.items])

    def ser(self, v, lvl, md, warn):
        if not isinstance(v, tuple):
            return self.miss(v, lvl, md, warn)
        if len(v) != len(self.items) and lvl == 2:
            raise Mis()
        r = [i.ser(x, lvl, md, warn) for i, x in zip(self.items, v)]
        if len(v) > len(self.items):
            warn.append('extra items')
            r += [infer(x, md) for x in v[len(self.items):]]
        return r if md else tuple(r)


class Skip(Exception):
    pass


class Dict(T):
    def __init__(self, k, val):
        self.k, self.val = k, val
        self.name = f'dict[{k.name},{val.name}]'

    def schema(self):
        return cs.dict_schema(self.k.schema(), self.val.schema())

    def ser(self, v, lvl, md, warn):
        if not isinstance(v, dict):
            return self.miss(v, lvl, md, warn)
        return {(jkey(self.k.ser(k, lvl, md, warn)) if md else self.k.ser(k, lvl, md, warn)): self.val.ser(x, lvl, md, warn) for k, x in v.items()}


class Fields(T):
    def __init__(self, fields, allow=False):
        self.fields, self.allow = fields, allow  # name -> (T, required)
        self.name = 'td{' + ','.join(fields) + '}'

    def schema(self):
        return cs.typed_dict_schema({k: cs.typed_dict_field(t.schema(), required=r) for k, (t, r) in self.fields.items()}, extra_behavior='allow' if self.allow else 'ignore')

    def ser(self, v, lvl, md, warn):
        if not isinstance(v, dict):
            return self.miss(v, lvl, md, warn)
        if not all(isinstance(k, str) for k in v):
            raise Mis() if lvl else Skip()
        if lvl == 1 and not self.allow and any(k not in self.fields for k in v):
            raise Skip()
        return self.items(v, lvl, md, warn)

    def items(self, v, lvl, md, warn):
        out = {}
        for k, x in v.items():
            if k in self.fields:
                out[k] = self.fields[k][0].ser(x, lvl, md, warn)
            elif self.allow:
                out[k] = infer(x, md)
            elif lvl == 2:
                raise Mis()
        if lvl and any(r and k not in v for k, (t, r) in self.fields.items()):
            raise Mis()
        return out


class Mod(T):
    def __init__(self, cls, fields, alias):
        self.cls, self.fields, self.alias = cls, Fields(fields), alias
        self.name = cls.__name__

    def schema(self):
        al = self.alias
        return cs.model_schema(self.cls, cs.model_fields_schema({k: cs.model_field(t.schema(), serialization_alias=f'{al}_{k}') for k, (t, r) in self.fields.fields.items()}))

    def ser(self, v, lvl, md, warn):
        ok = type(v) is self.cls if lvl == 2 else isinstance(v, self.cls) if lvl == 1 else hasattr(v, '__dict__')
        if not ok:
            return self.miss(v, lvl, md, warn)
        if lvl == 0 and not isinstance(v, self.cls):
            raise Skip()
        return {f'{self.alias}_{k}': x for k, x in self.fields.items(v.__dict__, lvl, md, warn).items()}


class Root(T):
    def __init__(self, cls, inner):
        self.cls, self.inner, self.name = cls, inner, cls.__name__

    def schema(self):
        return cs.model_schema(self.cls, self.inner.schema(), root_model=True)

    def ser(self, v, lvl, md, warn):
        ok = type(v) is self.cls if lvl == 2 else isinstance(v, self.cls)
        if not ok and lvl:
            raise Mis()
        if not ok:
            raise Skip()
        return self.inner.ser(v.root, lvl, md, warn)


class DC(T):
    def __init__(self, cls, fields, alias):
        self.cls, self.fields, self.alias, self.name = cls, Fields(fields), alias, cls.__name__

    def schema(self):
        al = self.alias
        return cs.dataclass_schema(self.cls, cs.dataclass_args_schema(self.cls.__name__, [cs.dataclass_field(k, t.schema(), serialization_alias=f'{al}_{k}') for k, (t, r) in self.fields.fields.items()]), list(self.fields.fields))

    def ser(self, v, lvl, md, warn):
        ok = type(v) is self.cls if lvl == 2 else isinstance(v, self.cls) if lvl == 1 else dataclasses.is_dataclass(v)
        if not ok:
            return self.miss(v, lvl, md, warn)
        if lvl == 0 and not isinstance(v, self.cls):
            raise Skip()
        return {f'{self.alias}_{k}': x for k, x in self.fields.items({k: getattr(v, k) for k in self.fields.fields}, lvl, md, warn).items()}


class Nul(T):
    def __init__(self, inner):
        self.inner, self.name = inner, f'nullable[{inner.name}]'

    def schema(self):
        return cs.nullable_schema(self.inner.schema())

    def ser(self, v, lvl, md, warn):
        return None if v is None else self.inner.ser(v, lvl, md, warn)


class Wrapped(T):
    """indirection which changes nothing"""

    def __init__(self, inner, how):
        self.inner, self.how, self.name = inner, how, f'{how}[{inner.name}]'
    n = itertools.count()

    def schema(self):
        s = self.inner.schema()
        if self.how == 'default':
            return cs.with_default_schema(s, default=None)
        if self.how == 'defs':
            r = f'W{next(Wrapped.n)}'
            return cs.definitions_schema(cs.definition_reference_schema(r), [{**s, 'ref': r}])
        if self.how == 'jop':
            return cs.json_or_python_schema(s, self.inner.schema())
        if self.how == 'los':
            return cs.lax_or_strict_schema(s, self.inner.schema())
        if self.how == 'after':
            return cs.no_info_after_validator_function(lambda v: v, s)
        if self.how == 'chain':
            return cs.chain_schema([cs.any_schema(), s])
        if self.how == 'custom':
            return cs.custom_error_schema(s, 'x', custom_error_message='m')

    def ser(self, v, lvl, md, warn):
        return self.inner.ser(v, lvl, md, warn)


class Uni(T):
    def __init__(self, choices):
        self.choices = choices
        self.name = 'U[' + ', '.join(c.name for c in choices) + ']'

    def schema(self):
        return cs.union_schema([c.schema() for c in self.choices])

    def ser(self, v, lvl, md, warn):
        return union(self.choices, v, lvl, md, warn, self.name)


def union(choices, v, lvl, md, warn, name):
    for lv in ((2,) if lvl == 2 else (2, 1)):
        for c in choices:
            w = []
            try:
                r = c.ser(v, lv, md, w)
                warn.extend(w)
                return r
            except Mis:
                pass
    if lvl:
        raise Mis()
    warn.append(name)
    return infer(v, md)


class Tag(T):
    def __init__(self, choices, disc='k'):
        self.choices, self.disc = choices, disc
        self.name = 'Tag[' + ', '.join(choices) + ']'

    def schema(self):
        return cs.tagged_union_schema({k: t.schema() for k, t in self.choices.items()}, self.disc)

    def ser(self, v, lvl, md, warn):
        if callable(self.disc):
            try:
                tag = self.disc(v)
            except Exception:
                tag = NotImplemented
        else:
            tag = v.get('k', NotImplemented) if isinstance(v, dict) else getattr(v, 'k', NotImplemented)
        if tag is not NotImplemented:
            c = next((t for k, t in self.choices.items() if k == str(tag)), None)
            if c is not None:
                for lv in (2, 1):
                    w = []
                    try:
                        r = c.ser(v, lv, md, w)
                        warn.extend(w)
                        return r
                    except Mis:
                        pass
        elif lvl == 0:
            warn.append('discriminator')
        return union(list(self.choices.values()), v, lvl, md, warn, self.name)


class AnyT(T):
    name = 'any'

    def schema(self):
        return cs.any_schema()

    def ser(self, v, lvl, md, warn):
        return infer(v, md)


class Lit(T):
    def __init__(self, vals):
        self.vals, self.name = vals, f'literal{vals}'

    def schema(self):
        return cs.literal_schema(self.vals)

    def ser(self, v, lvl, md, warn):
        if not lvl:
            return infer(v, md)
        if isinstance(v, (int, str)) and not isinstance(v, enum.Enum) and any(type(v) is type(x) and v == x for x in self.vals):
            return v
        if isinstance(v, (int, str)) and any(v == x for x in self.vals):
            raise Skip()
        return self.miss(v, lvl, md, warn)


class EnumT(T):
    name = 'Color'

    def schema(self):
        return cs.enum_schema(Color, list(Color.__members__.values()))

    def ser(self, v, lvl, md, warn):
        if isinstance(v, Color):
            return v.value if md else v
        return self.miss(v, lvl, md, warn)


def jv(v):
    if isinstance(v, bool):
        return v
    for t in (int, str, float):
        if isinstance(v, t):
            return t(v)
    if isinstance(v, bytes):
        return v.decode()
    if isinstance(v, (date, DT)):
        return v.isoformat()
    if isinstance(v, Decimal):
        return str(v)
    return v


def jkey(v):
    return v if isinstance(v, str) else 'None' if v is None else {True: 'true', False: 'false'}[v] if isinstance(v, bool) else str(v)


def jinfer(v):
    return infer(v, True)


def infer(v, md):
    if isinstance(v, enum.Enum):
        return v.value if md else v
    if isinstance(v, dict):
        return {(jkey(infer(k, md)) if md else infer(k, md)): infer(x, md) for k, x in v.items()}
    if isinstance(v, (list, tuple, set, frozenset)):
        b = next(t for t in (list, tuple, set, frozenset) if isinstance(v, t))
        r = [infer(x, md) for x in v]
        return r if md else b(r)
    if isinstance(v, DA) or isinstance(v, DB):
        return {f.name: infer(getattr(v, f.name), md) for f in dataclasses.fields(v)}
    if isinstance(v, Model):
        r = {'own': type(v).__name__}
        r.update({k: infer(x, md) for k, x in v.__dict__.items()})
        return r
    return jv(v) if md else v


def own_ser(cls):
    # every class has its own serializer, whose output says so
    cls.__pydantic_serializer__ = SchemaSerializer(cs.any_schema(serialization=cs.plain_serializer_function_ser_schema(lambda m: {'own': type(m).__name__, **m.__dict__})))


for _c in (A, ASub, B, RI, RL, TagM, TagN):
    own_ser(_c)


def leaves():
    L = Leaf
    return dict(
        int=L('int', cs.int_schema, (int,)), str=L('str', cs.str_schema, (str,)), float=L('float', cs.float_schema, (float,), (int,)), bool=L('bool', cs.bool_schema, (bool,)),
        bytes=L('bytes', cs.bytes_schema, (bytes,)), date=L('date', cs.date_schema, (date,)), decimal=L('decimal', cs.decimal_schema, (Decimal,)))


def l_int():
    return leaves()['int']


def branches():
    l = leaves()
    i, s, f, b = Mark(l['int'], 'i'), Mark(l['str'], 's'), Mark(l['float'], 'f'), Mark(l['bool'], 'b')
    a = Mod(A, {'a': (i, True)}, 'A')
    asub = Mod(ASub, {'a': (i, True), 'b': (s, True)}, 'AS')
    bb = Mod(B, {'a': (i, True)}, 'B')
    return [
        a, asub, bb, i, s, f, b,
        Seq(a, list), Seq(i, list), Dict(l['str'], a), Fields({'a': (a, True)}), Root(RI, i), Root(RL, Mark(l['int'], 'rl')), DC(DA, {'a': (i, True)}, 'DA'), DC(DB, {'a': (i, True)}, 'DB'),
        Tup([i, a]), Nul(a), Uni([bb, i]), Lit(['x', 1]), EnumT(), Tag({'m': Mod(TagM, {'k': (s, True), 'v': (i, True)}, 'TM'), 'n': Mod(TagN, {'k': (s, True), 'v': (i, True)}, 'TN')}),
        Seq(s, list), Fields({'a': (i, True), 'b': (s, False)}), Fields({'a': (i, True)}, allow=True), Dict(l['int'], l['float']), Seq(i, set), Mark(l['date'], 'd'), Mark(l['decimal'], 'dec'),
        Seq(Uni([a, bb]), list), Wrapped(a, 'jop'), Wrapped(bb, 'defs'), Seq(l['int'], frozenset), Seq(l['float'], tuple), Seq(l['int'], set)]


def values():
    A1, AS1, B1 = mk(A, a=1), mk(ASub, a=1, b='x'), mk(B, a=1)
    return [1, SInt(2), True, 'x', 'y', SStr('q'), 1.5, SFloat(2.5), None, b'b', date(2020, 1, 1), Decimal('1.5'),
            A1, AS1, B1, mk(A, a='bad'), mk(A), mk(A, a=1, zz=2), mk(ASub, a='bad', b=1), [A1], [AS1], [A1, AS1], [B1, A1], [A1, 1], [], [1], [SInt(1)], ['x'], ['x', 1], {'k': A1}, {'k': AS1}, {'k': B1}, {}, {'a': A1}, {'a': AS1}, {'a': 1}, {'a': 1, 'b': 'x'}, {'a': 1, 'z': 1}, {'a': 'bad'}, {1: 1.5}, {1: 1}, {'q': 1.5},
            mk(RI, root=1), mk(RL, root=1), mk(RI, root='bad'), DA(1), DB(1), DASub(1, 2), DA('bad'), (1, A1), (1, AS1), ('x', A1), (1,), (1.5, 2), (1.5, SFloat(1)), Color.red, mk(TagM, k='m', v=1), mk(TagN, k='n', v=1), mk(TagN, k='m', v=1), mk(TagM, k='zz', v=1), mk(TagM, k='m', v='bad'), {'k': 'm', 'v': 1},
            {1}, {SInt(1)}, {'x'}, frozenset([1]), frozenset([SInt(3)]), object]


HASHABLE = (int, str, float, bool, type(None), bytes, date, Decimal, tuple, Color)


def positions():
    l = leaves()['str']
    yield 'top', lambda u: u, lambda v: v
    yield 'list', lambda u: Seq(u, list), lambda v: [v, v]
    yield 'dict value', lambda u: Dict(l, u), lambda v: {'k': v}
    yield 'tuple', lambda u: Tup([u, l]), lambda v: (v, 'x')
    yield 'model field', lambda u: Mod(PM, {'u': (u, True)}, 'PM'), lambda v: mk(PM, u=v)
    yield 'typed dict', lambda u: Fields({'u': (u, True)}), lambda v: {'u': v}
    yield 'dataclass', lambda u: DC(PD, {'u': (u, True)}, 'PD'), lambda v: PD(v)
    yield 'nullable', lambda u: Nul(u), lambda v: v
    yield 'union of', lambda u: Uni([u, Mark(l, 'outer')]), lambda v: v
    yield 'union after', lambda u: Uni([Mark(leaves()['bytes'], 'outer'), u]), lambda v: v
    yield 'default', lambda u: Wrapped(u, 'default'), lambda v: v
    yield 'defs', lambda u: Wrapped(u, 'defs'), lambda v: v
    yield 'jop', lambda u: Wrapped(u, 'jop'), lambda v: v
    yield 'after', lambda u: Wrapped(u, 'after'), lambda v: v
    yield 'wrap fn', lambda u: Mark(u, 'w'), lambda v: v
    yield 'root', lambda u: Root(PR, u), lambda v: mk(PR, root=v)
    yield 'list in union', lambda u: Uni([Mark(l, 'outer'), Seq(u, list)]), lambda v: [v]
    yield 'dict in union', lambda u: Uni([Mark(l, 'outer'), Dict(l, u)]), lambda v: {'k': v}
    yield 'td in union', lambda u: Uni([Mark(l, 'outer'), Fields({'u': (u, True)})]), lambda v: {'u': v}
    yield 'model in union', lambda u: Uni([Mark(l, 'outer'), Mod(PM, {'u': (u, True)}, 'PM')]), lambda v: mk(PM, u=v)


class PM(Model):
    pass


class PR(Model):
    __slots__ = ()


@dataclasses.dataclass
class PD:
    u: object


own_ser(PM)
own_ser(PR)


def run(fn):
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        try:
            return 'ok', fn(), len(w)
        except Exception as e:
            guard(e, 'union ser')
            return 'exc', e, len(w)


def same(a, b):
    return canon(a) == canon(b)


def want_of(t, v, md):
    w = []
    try:
        return t.ser(v, 0, md, w), bool(w)
    except Skip:
        return Skip, None
    except TypeError:
        return Skip, None


def check(ctx, t, pos, pv, vals, deep=True):
    ser = SchemaSerializer(t.schema())
    ctx.state(t.name + pos)
    for v in vals:
        try:
            val = pv(v)
        except TypeError:
            continue
        for md in (False, True):
            want, warned = want_of(t, val, md)
            ctx.step()
            if want is Skip:
                ctx.ev('skip', None)
                continue
            mode = 'json' if md else 'python'
            info = dict(union=t.name, value=rep(val), mode=mode, position=pos)
            # warn
            r = run(lambda: ser.to_python(val, by_alias=True, mode=mode))
            ctx.ev('warned' if warned else 'quiet', (t.name if len(t.name) < 40 else pos, type(v).__name__))
            if r[0] != 'ok' or not same(r[1], want):
                if r[0] == 'exc' and 'unhashable' in str(r[1]) or r[0] == 'exc' and md and v is object:
                    continue
                ctx.fail(f'output: {pos}', got=rep(r), want=rep(want), **info)
                continue
            ctx.check(bool(r[2]) == warned, 'warned for a matching branch' if r[2] else 'no warning for a mismatch', got=rep(r), **info)
            for wm in (False, 'none'):
                r2 = run(lambda: ser.to_python(val, by_alias=True, mode=mode, warnings=wm))
                ctx.check(r2[0] == 'ok' and same(r2[1], want) and not r2[2], f'warnings={wm!r}', got=rep(r2), **info)
            for wm in (True, 'warn') if deep else ():
                r2 = run(lambda: ser.to_python(val, by_alias=True, mode=mode, warnings=wm))
                ctx.check(r2[0] == 'ok' and same(r2[1], want) and bool(r2[2]) == warned, f'warnings={wm!r}', got=rep(r2), **info)
            r3 = run(lambda: ser.to_python(val, by_alias=True, mode=mode, warnings='error'))
            ctx.check((r3[0] == 'exc' and type(r3[1]).__name__ == 'PydanticSerializationError') if warned else r3[0] == 'ok' and same(r3[1], want), "warnings='error'", got=rep(r3), **info)
            if md:
                r4 = run(lambda: ser.to_json(val, by_alias=True))
                ctx.check(r4[0] == 'ok' and same(json.loads(r4[1]), json.loads(json.dumps(want))) and bool(r4[2]) == warned, 'to_json', got=rep(r4), want=rep(want), warned=warned, **info)
                r5 = run(lambda: ser.to_json(val, by_alias=True, warnings='error'))
                ctx.check((r5[0] == 'exc') == warned, "to_json warnings='error'", got=rep(r5), **info)


def explore(ctx):
    br = branches()
    vals = values()
    pos = list(positions())
    # each alone, then all ordered pairs and triples
    for t in ctx.split(br):
        for p, ps, pv in pos:
            check(ctx, ps(t), p, pv, vals)
        ctx.trace_done()
    for x, y in ctx.split(list(itertools.permutations(br, 2))):
        for p, ps, pv in pos if not ctx.quick or (br.index(x) + br.index(y)) % 4 == 0 else pos[:1] + [pos[8], pos[(br.index(x) * 7 + br.index(y)) % len(pos)]]:
            check(ctx, ps(Uni([x, y])), p, pv, vals, deep=False)
        ctx.sample(x.name, y.name)
        ctx.trace_done()
    k = 11 if ctx.quick else 20
    for c in ctx.split(list(itertools.permutations(br[:k], 3))):
        p, ps, pv = pos[0]
        check(ctx, Uni(list(c)), p, pv, vals, deep=False)
        # nested in every way
        check(ctx, Uni([c[0], Uni(c[1:])]), 'nested right', pv, vals, deep=False)
        if not ctx.quick:
            check(ctx, Uni([Uni(c[:2]), c[2]]), 'nested left', pv, vals, deep=False)
        ctx.trace_done()
    # tagged unions with a function discriminator, of any branches
    tagf = lambda v: type(v).__name__
    for x, y in ctx.split(list(itertools.permutations(br[:16], 2))):
        for names in (('A', 'int'), ('ASub', 'A'), ('int', 'str'), ('list', 'dict'), ('q', 'r')):
            t = Tag(dict(zip(names, (x, y))), tagf)
            check(ctx, t, 'tagged', lambda v: v, vals, deep=False)
            check(ctx, Seq(t, list), 'tagged in list', lambda v: [v], vals, deep=False)
        ctx.trace_done()
    # branches which warn and are rejected later leave no warning
    i = Mark(l_int(), 'i')
    tb = [Seq(Tup([i]), list), Seq(Uni([br[2], Seq(l_int(), tuple)]), list), Seq(Uni([br[0], Tup([i, br[0]])]), list), Tup([Tup([i]), br[2]]), Tup([Seq(l_int(), tuple), br[2]]), Seq(Tup([br[0]]), list), Fields({'p': (Tup([i]), True), 'q': (br[2], True)})]
    els = [(1,), (1, 2), (1, mk(A, a=1)), (1, mk(ASub, a=1, b='x')), mk(B, a=1), mk(A, a=1), mk(ASub, a=1, b='x'), 'x']
    tv = [[x, y] for x in els for y in els] + [(x, y) for x in els for y in els] + [{'p': x, 'q': y} for x in els for y in els]
    for n in (2, 3):
        for c in ctx.split(list(itertools.permutations(tb, n))):
            check(ctx, Uni(list(c)), 'tuples', lambda v: v, tv if n == 2 or not ctx.quick else tv[::3], deep=False)
            if n == 2:
                check(ctx, Tag(dict(zip(('list', 'tuple'), c)), lambda v: type(v).__name__), 'tuples tagged', lambda v: v, tv, deep=False)
            ctx.trace_done()
    # one place alone needs the lax pass: a subclass instance there, and everywhere else branches which never do
    l = leaves()
    no = l['bool']
    es = [(l['int'], 1, SInt(2)), (l['str'], 'x', SStr('q')), (br[0], mk(A, a=1), mk(ASub, a=1, b='x')), (br[13], DA(1), DASub(1, 2))]
    wraps = [
        (lambda t: Seq(t, list), lambda v: [v]), (lambda t: Seq(t, set), lambda v: {v}), (lambda t: Seq(t, frozenset), lambda v: frozenset([v])), (lambda t: Dict(t, no), lambda v: {v: True}), (lambda t: Dict(no, t), lambda v: {True: v}),
        (lambda t: Dict(l['bytes'], t), lambda v: {b'k': v}), (lambda t: Fields({'p': (no, True), 'q': (t, True)}), lambda v: {'p': True, 'q': v}), (lambda t: Fields({'q': (t, False)}), lambda v: {'q': v}), (Nul, lambda v: v),
        (lambda t: Tup([no, t]), lambda v: (True, v)), (lambda t: Mod(PM, {'u': (t, True)}, 'PM'), lambda v: mk(PM, u=v)), (lambda t: Uni([no, t]), lambda v: v), (lambda t: Mark(t, 'w'), lambda v: v)]
    wraps += [(lambda t, k=k: Wrapped(t, k), lambda v: v) for k in ('jop', 'defs', 'default', 'after')]
    for (e, v1, v2), (w1, p1), (w2, p2) in ctx.split(list(itertools.product(es, wraps, wraps + [(lambda t: t, lambda v: v)]))):
        try:
            vs = [p2(p1(v1)), p2(p1(v2)), [p2(p1(v2))], p2(p1(True)), p2(p1(b'no')), True]
        except TypeError:  # unhashable
            continue
        if w2 is wraps[3][0] and (not isinstance(p1(v1), (int, str)) or w1 is wraps[12][0]) or w1 is wraps[3][0] and not isinstance(v1, (int, str)):  # not a key in JSON
            continue
        if wraps[3][0] in (w1, w2):  # True as the key of an int branch is not judged
            del vs[3]
        t = w2(w1(e))
        for n, u in enumerate((Uni([t, no]), Uni([no, t]), Uni([t, l['bytes'], no]), Seq(Uni([t, no]), list), Tag({'A': t, 'B': no}, lambda v: 'B' if v is True else 'A'))):
            check(ctx, u, 'lax', lambda v: v, vs, deep=False)
        ctx.trace_done()
    # no warning of one value leaks to the next: sequences of values in one call and on one serializer
    l = leaves()
    u = Uni([br[0], br[3], Seq(br[3], list)])
    t = Seq(u, list)
    ser = SchemaSerializer(t.schema())
    vs = [v for v in vals if want_of(u, v, False)[0] is not Skip][:30]
    for a, b in ctx.split(list(itertools.product(vs, vs))):
        for md in (False, True):
            want, warned = want_of(t, [a, b, a], md)
            if want is Skip:
                continue
            r = run(lambda: ser.to_python([a, b, a], by_alias=True, mode='json' if md else 'python'))
            ctx.ev('seq', None)
            if a is object or b is object:
                continue
            ctx.check(r[0] == 'ok' and same(r[1], want) and bool(r[2]) == warned, 'sequence', got=rep(r), want=rep(want), warned=warned, value=rep([a, b, a]))
