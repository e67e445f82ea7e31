"""C19: to_json agrees with to_python(mode='json').  Exhaustive product of serializers (every schema of the zoo, every serialization
form, containers and key positions around them) x values of every type x option sets: both raise or both give the same data with
the same warnings; layout options change only the layout."""
import collections, enum, itertools, json, math, re
from pydantic_core import to_json, to_jsonable_python
from mc.lib import *
from mc.zoo import *
from mc import zoo

LEVEL = 'exploration'
RULE = ('serializer (zoo schema or serialization form, bare and inside list / dict value / dict key / tuple / nullable / union / model field / extras) x value (every good value '
        'and every other type) x option set, also values which carry their own serializer inside any / fallback positions: json.loads(to_json) == to_python(mode=json), same warnings, both raise or neither; non-trivial: serialization succeeded')
ASSUME = ['a str with a lone surrogate has no JSON text: only mode=json accepts it', 'a non-finite float is compared by its JSON spelling under the ser_json_inf_nan setting (mode=json keeps the float itself, as tested)',
          'dict keys which become equal strings: the last one wins in both']
BOUNDS = {'quick': 'all zoo schemas and 40 serialization forms x 230 values x 12 option sets; positions x good values; configs 3 x 3 x 3',
          'thorough': 'all option subsets, positions x all values'}


def spell(x, mode, names=True):
    """the JSON spelling of non-finite floats"""
    if isinstance(x, float) and not math.isfinite(x):
        if mode == 'null':
            return None
        if mode == 'strings':
            return 'NaN' if math.isnan(x) else 'Infinity' if x > 0 else '-Infinity'
        return x
    t = type(x)
    if t is list or t is tuple:
        return [spell(i, mode) for i in x]
    if t is dict:
        return {k: spell(v, mode) for k, v in x.items()}
    return x


def noaddr(x):
    if type(x) is str:
        return ADDR.sub('0x', x) if '0x' in x else x
    if type(x) is list:
        return [noaddr(i) for i in x]
    if type(x) is dict:
        return {noaddr(k): noaddr(v) for k, v in x.items()}
    return x


def jcanon(x):
    """order of keys kept, ints and floats told apart"""
    if isinstance(x, dict):
        return {k: jcanon(v) for k, v in x.items()}
    if isinstance(x, list):
        return [jcanon(i) for i in x]
    if isinstance(x, float):
        return ('float', repr(x))
    return (type(x).__name__, x)


PRE = 'Error serializing to JSON: PydanticSerializationError: '
ADDR = re.compile(r'0x[0-9a-f]+')


def run(fn):
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        try:
            r = ('ok', fn())
        except Exception as e:
            guard(e, 'serialize')
            r = ('exc', type(e).__name__, str(e))
    return r, [ADDR.sub('0x', str(x.message)) for x in w]


def ordered(a, b):
    if isinstance(a, dict):
        return list(a) == list(b) and all(ordered(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return all(ordered(x, y) for x, y in zip(a, b))
    return True


def compare(ctx, name, ser, mkv, opts, inf='null', key=None):
    a, wa = run(lambda: ser.to_python(mkv(), mode='json', **opts))
    b, wb = run(lambda: ser.to_json(mkv(), **opts))
    ctx.step()
    info = dict(value=rep(mkv()), opts=repr(opts), python=repr(a)[:300], json=repr(b)[:300])
    if a[0] != b[0]:
        ctx.ev('differ', None)
        if b[0] == 'exc' and 'surrogates not allowed' in b[2]:
            return None
        ctx.fail(f'one raises: {name}', **info)
        return None
    if a[0] == 'exc':
        ctx.ev('exc', None)
        if 'error' == opts.get('warnings') and 'warnings' in a[2] and 'surrogates' not in b[2] and ADDR.sub('', a[2]).replace(PRE, '') not in ADDR.sub('', b[2]).replace(PRE, ''):
            ctx.fail(f'warning errors differ: {name}', **info)
        return None
    try:
        j = json.loads(ADDR.sub('0x', b[1].decode()))
    except ValueError as e:
        ctx.ev('invalid', None)
        ctx.fail(f'invalid JSON: {name}', **info)
        return None
    want = spell(noaddr(a[1]), inf)
    ctx.ev('ok', (name, key if key is not None else type(want).__name__, tuple(sorted(opts))))
    if jcanon(j) != jcanon(want):
        ctx.fail(f'data: {name}', want=repr(want)[:300], **info)
    elif not ordered(j, want):
        ctx.fail(f'order: {name}', want=repr(want)[:300], **info)
    if wa != wb:
        ctx.fail(f'warnings: {name}', wa=repr(wa)[:400], wb=repr(wb)[:400], **info)
    return b[1]


def forms():
    """serialization forms beyond the plain schema types"""
    i, s, fl = cs.int_schema, cs.str_schema, cs.float_schema
    yield 'format .2f', lambda: cs.float_schema(serialization=cs.format_ser_schema('.2f'))
    yield 'format int', lambda: cs.int_schema(serialization=cs.format_ser_schema('d', when_used='unless-none'))
    for wu in ('always', 'unless-none', 'json', 'json-unless-none'):
        yield f'to-string {wu}', lambda wu=wu: cs.any_schema(serialization=cs.to_string_ser_schema(when_used=wu))
        yield f'plain {wu}', lambda wu=wu: cs.any_schema(serialization=cs.plain_serializer_function_ser_schema(lambda v: ['f', v], when_used=wu))
        yield f'plain str {wu}', lambda wu=wu: cs.any_schema(serialization=cs.plain_serializer_function_ser_schema(lambda v: repr(v)[:5], when_used=wu, return_schema=cs.str_schema()))
        yield f'wrap {wu}', lambda wu=wu: cs.nullable_schema(cs.int_schema(), serialization=cs.wrap_serializer_function_ser_schema(lambda v, h: [h(v)], schema=cs.nullable_schema(cs.int_schema()), when_used=wu))
        yield f'wrap info {wu}', lambda wu=wu: cs.any_schema(serialization=cs.wrap_serializer_function_ser_schema(
            lambda v, h, info: {'m': info.mode, 'v': h(v), 'd': [info.exclude_none, info.by_alias, info.round_trip]}, schema=cs.any_schema(), when_used=wu, info_arg=True))
    yield 'plain int wrong return', lambda: cs.any_schema(serialization=cs.plain_serializer_function_ser_schema(lambda v: 'x', return_schema=cs.int_schema()))
    yield 'simple int', lambda: cs.any_schema(serialization=cs.simple_ser_schema('int'))
    for t in ('none', 'bool', 'str', 'float', 'bytes', 'datetime', 'date', 'time', 'timedelta', 'url', 'multi-host-url', 'uuid', 'decimal', 'set', 'frozenset', 'list', 'tuple', 'dict', 'generator', 'any', 'complex'):
        try:
            SchemaSerializer(cs.any_schema(serialization={'type': t}))
        except Exception:
            continue
        yield f'simple {t}', lambda t=t: cs.any_schema(serialization={'type': t})
    yield 'model ser', lambda: cs.any_schema(serialization=cs.model_ser_schema(M1, cs.model_fields_schema({'a': cs.model_field(cs.int_schema()), 'b': cs.model_field(cs.str_schema())})))
    yield 'union mixed', lambda: cs.union_schema([cs.int_schema(), cs.float_schema(), cs.bool_schema(), cs.date_schema(), cs.dict_schema(cs.str_schema(), cs.int_schema())])
    yield 'union models', lambda: cs.union_schema([zoo.m1s(), zoo.mxs(), zoo.tds(), zoo.d1s()])
    yield 'union subclass', lambda: cs.union_schema([cs.str_schema(), cs.int_schema(), cs.list_schema(cs.union_schema([cs.int_schema(), cs.none_schema()]))])
    yield 'set of tuples', lambda: cs.set_schema(cs.tuple_schema([cs.int_schema(), cs.any_schema()]))
    yield 'list of unions', lambda: cs.list_schema(cs.union_schema([cs.int_schema(), cs.str_schema()]))
    yield 'extras schema td', lambda: cs.typed_dict_schema({'a': cs.typed_dict_field(cs.int_schema())}, extra_behavior='allow', extras_schema=cs.date_schema())
    yield 'extras schema fn', lambda: cs.typed_dict_schema({'a': cs.typed_dict_field(cs.int_schema())}, extra_behavior='allow', extras_schema=cs.any_schema(
        serialization=cs.plain_serializer_function_ser_schema(lambda v: f'<{v}>')))
    yield 'literal bytes', lambda: cs.literal_schema([b'a', 1, 'x', True])
    yield 'literal enum', lambda: cs.literal_schema([Color.red, Num.one])
    yield 'enum plain', lambda: cs.enum_schema(Color, list(Color.__members__.values()))
    yield 'nullable dict', lambda: cs.nullable_schema(cs.dict_schema(cs.int_schema(), cs.nullable_schema(cs.int_schema())))
    yield 'tagged models', tagged_models
    yield 'default model', lambda: cs.with_default_schema(zoo.m1s(), default=None)


def tagged_models():
    return cs.tagged_union_schema({'a': cs.typed_dict_schema({'k': cs.typed_dict_field(cs.literal_schema(['a'])), 'n': cs.typed_dict_field(cs.int_schema())}),
                                   'b': zoo.m1s()}, discriminator='k')


class DM:
    __slots__ = Model.__slots__
    def __init__(self):
        pass

    @property
    def cc(self):
        return self.__dict__.get('c', None)

    @property
    def cn(self):
        return None

    @property
    def craise(self):
        raise ValueError('prop')


def rich_model(**kw):
    """every kind of field: default, default factory, alias, excluded, nested, nullable, functions; computed fields; extras"""
    F = cs.model_field
    i = cs.int_schema
    return cs.model_schema(DM, cs.model_fields_schema({
        'a': F(cs.with_default_schema(i(), default=1), serialization_alias='A'),
        'b': F(cs.with_default_schema(cs.list_schema(i()), default_factory=list)),
        'c': F(cs.nullable_schema(cs.date_schema())),
        'd': F(cs.with_default_schema(i(), default=5), serialization_exclude=True),
        'e': F(cs.any_schema(serialization=cs.plain_serializer_function_ser_schema(lambda m, v, info: [info.field_name, type(m).__name__, v], is_field_serializer=True, info_arg=True))),
        'f': F(cs.with_default_schema(cs.any_schema(serialization=cs.wrap_serializer_function_ser_schema(lambda m, v, h, info: h(v), is_field_serializer=True, info_arg=True, schema=cs.any_schema(), when_used='json')), default=None)),
        'g': F(cs.with_default_schema(cs.float_schema(), default=1.0)),
    }, computed_fields=[cs.computed_field('cc', cs.any_schema(), alias='CC'), cs.computed_field('cn', cs.nullable_schema(i())),
                        cs.computed_field('cc', cs.any_schema(serialization=cs.plain_serializer_function_ser_schema(lambda v: None)), alias='C2')][:2],
        extra_behavior='allow', **kw), extra_behavior='allow')


def rich_values():
    for a, b, c, e, g in itertools.product((1, 2), ([], [3]), (None, date(2020, 1, 1)), (None, 4), (1.0, 1, 2.5)):
        for unset in ((), ('a', 'b'), ('c', 'g')):
            for ex in ({}, {'x': None, 'y': {'z': None}}):
                yield dict(a=a, b=b, c=c, d=5, e=e, f=None, g=g), unset, ex


def rich_value(d, unset, ex):
    m = DM()
    m.__dict__.update(d)
    object.__setattr__(m, '__pydantic_fields_set__', (set(d) | set(ex)) - set(unset))
    object.__setattr__(m, '__pydantic_extra__', dict(ex))
    object.__setattr__(m, '__pydantic_private__', None)
    return m


def fallback(v):
    return f'fb:{type(v).__name__}'


OPTS = [{}, dict(exclude_unset=True), dict(exclude_defaults=True), dict(exclude_none=True), dict(by_alias=True), dict(by_alias=False), dict(round_trip=True), dict(serialize_as_any=True),
        dict(fallback=fallback), dict(warnings='error'), dict(warnings=False), dict(context={'c': 1}), dict(exclude_none=True, serialize_as_any=True), dict(round_trip=True, exclude_none=True, by_alias=True)]


def positions():
    yield 'list', lambda s: cs.list_schema(s), lambda v: [v]
    yield 'list2', lambda s: cs.list_schema(cs.list_schema(s)), lambda v: [[v], []]
    yield 'dict value', lambda s: cs.dict_schema(cs.str_schema(), s), lambda v: {'k': v}
    yield 'dict key', lambda s: cs.dict_schema(s, cs.any_schema()), lambda v: {v: 1}
    yield 'any dict key', lambda s: cs.dict_schema(cs.any_schema(), s), lambda v: {v: v}
    yield 'tuple', lambda s: cs.tuple_schema([s, cs.int_schema()]), lambda v: (v, 1)
    yield 'tuple var', lambda s: cs.tuple_variable_schema(s), lambda v: (v, v)
    yield 'tuple key', lambda s: cs.dict_schema(cs.tuple_schema([s, cs.int_schema()]), cs.any_schema()), lambda v: {(v, 1): 1}
    yield 'set', lambda s: cs.set_schema(s), lambda v: {v}
    yield 'frozenset', lambda s: cs.frozenset_schema(s), lambda v: frozenset([v])
    yield 'nullable', lambda s: cs.nullable_schema(s), lambda v: v
    yield 'union', lambda s: cs.union_schema([cs.none_schema(), s]), lambda v: v
    yield 'union2', lambda s: cs.union_schema([s, cs.complex_schema(), cs.any_schema()]), lambda v: v
    yield 'default', lambda s: cs.with_default_schema(s, default=None), lambda v: v
    yield 'key nullable', lambda s: cs.dict_schema(cs.nullable_schema(s), cs.any_schema()), lambda v: {v: 1}
    yield 'key union', lambda s: cs.dict_schema(cs.union_schema([cs.none_schema(), s]), cs.any_schema()), lambda v: {v: 1}
    yield 'key default', lambda s: cs.dict_schema(cs.with_default_schema(s, default=None), cs.any_schema()), lambda v: {v: 1}
    yield 'key defs', lambda s: cs.definitions_schema(cs.dict_schema(cs.definition_reference_schema('R'), cs.any_schema()), [{**s, 'ref': 'R'}]), lambda v: {v: 1}
    yield 'key wrap', lambda s: cs.dict_schema(cs.any_schema(serialization=cs.wrap_serializer_function_ser_schema(lambda v, h: h(v), schema=s)), cs.any_schema()), lambda v: {v: 1}
    yield 'key plain', lambda s: cs.dict_schema(cs.any_schema(serialization=cs.plain_serializer_function_ser_schema(lambda v: v, return_schema=s)), cs.any_schema()), lambda v: {v: 1}
    yield 'wrap', lambda s: cs.any_schema(serialization=cs.wrap_serializer_function_ser_schema(lambda v, h: [h(v)], schema=s)), lambda v: v
    yield 'plain return', lambda s: cs.any_schema(serialization=cs.plain_serializer_function_ser_schema(lambda v: [v], return_schema=cs.list_schema(s))), lambda v: v
    yield 'jop', lambda s: cs.json_or_python_schema(s, cs.any_schema()), lambda v: v
    yield 'los', lambda s: cs.lax_or_strict_schema(cs.any_schema(), s), lambda v: v
    yield 'gen', lambda s: cs.generator_schema(s), lambda v: iter([v])
    yield 'json', lambda s: cs.json_schema(s), lambda v: v
    yield 'typed dict', lambda s: cs.typed_dict_schema({'a': cs.typed_dict_field(s)}), lambda v: {'a': v}
    yield 'td extras', lambda s: cs.typed_dict_schema({}, extra_behavior='allow', extras_schema=s), lambda v: {'q': v}
    yield 'model', lambda s: cs.model_schema(Model1, cs.model_fields_schema({'a': cs.model_field(s)})), lambda v: mk(Model1, a=v)
    yield 'model extras', lambda s: cs.model_schema(Model1, cs.model_fields_schema({}, extra_behavior='allow', extras_schema=s), extra_behavior='allow'), lambda v: mk(Model1, extra={'q': v})
    yield 'model computed', lambda s: cs.model_schema(Model1, cs.model_fields_schema({}, computed_fields=[cs.computed_field('cc', s)])), lambda v: mk(Model1, _c=v)
    yield 'root', lambda s: cs.model_schema(Model1, s, root_model=True), lambda v: mk(Model1, root=v)
    yield 'dataclass', lambda s: cs.dataclass_schema(DC1, cs.dataclass_args_schema('DC1', [cs.dataclass_field('a', s)]), ['a']), lambda v: DC1(v)
    yield 'dc computed', lambda s: cs.dataclass_schema(DC1, cs.dataclass_args_schema('DC1', [], computed_fields=[cs.computed_field('cc', s)]), []), lambda v: DC1(v)
    yield 'any', lambda s: cs.any_schema(), lambda v: v
    yield 'any list', lambda s: cs.any_schema(), lambda v: [v]
    yield 'any key', lambda s: cs.any_schema(), lambda v: {v: 1}


class Model1:
    __slots__ = Model.__slots__

    @property
    def cc(self):
        return self._c


@dataclasses.dataclass
class DC1:
    a: object

    @property
    def cc(self):
        return self.a


ITERS = (types.GeneratorType, map, type(iter([])))


def values():
    """value factories: iterators are made anew for every call"""
    for k, v in enumerate(py_inputs()):
        if isinstance(v, ITERS):
            yield lambda k=k: py_inputs()[k]
        else:
            yield lambda v=v: v


def sers():
    for z in ZOO:
        if z.ser:
            yield z.name, z.schema, list(z.good)
    for n, f in forms():
        yield n, f, []


CONFIGS = [dict(ser_json_timedelta=t, ser_json_bytes=b, ser_json_inf_nan=i) for t in ('iso8601', 'float') for b in ('utf8', 'base64', 'hex') for i in ('null', 'constants', 'strings')]
CFG_VALUES = [float('inf'), float('nan'), -0.0, 1.5, timedelta(1), timedelta(-1, 5, 7), timedelta.max, timedelta.min, timedelta(microseconds=-1), b'', b'\xff', b'abc', b'\xc3\xa9' * 3, bytearray(b'ab\xfe'), SBytes(b'zz'), SFloat('inf')]
CFG_SCHEMAS = [('any', cs.any_schema), ('float', cs.float_schema), ('timedelta', cs.timedelta_schema), ('bytes', cs.bytes_schema), ('list', lambda: cs.list_schema()),
               ('union', lambda: cs.union_schema([cs.float_schema(), cs.timedelta_schema(), cs.bytes_schema()])), ('nullable', lambda: cs.nullable_schema(cs.bytes_schema()))]


def subsets(full):
    names = [('exclude_unset', True), ('exclude_defaults', True), ('exclude_none', True), ('by_alias', True), ('round_trip', True), ('serialize_as_any', True)]
    for r in range(len(names) + 1):
        for c in itertools.combinations(names, r):
            yield dict(c)


class EnumD(enum.Enum):
    """a member whose value is a container"""
    M = [{'a': 1, 'b': [1, 2]}]


def selections(ctx):
    """include and exclude over two levels of containers, with a schema or inferred: both routes have to make the same of them"""
    m1 = lambda s: cs.model_schema(Model1, cs.model_fields_schema({'a': cs.model_field(s), 'b': cs.model_field(cs.any_schema())}))
    dc = lambda s: cs.dataclass_schema(DC1, cs.dataclass_args_schema('DC1', [cs.dataclass_field('a', s)]), ['a'])
    kinds = [('list', cs.list_schema, lambda v: [v(), v()], [0, -1]), ('tuple', lambda s: cs.tuple_schema([s, s]), lambda v: (v(), v()), [0, -1]),
             ('tuple var', cs.tuple_variable_schema, lambda v: (v(), v()), [0, -1]), ('gen', cs.generator_schema, lambda v: (v() for _ in range(2)), [0, 1, -1]), ('map', cs.generator_schema, lambda v: map(lambda _: v(), range(2)), [0, 1]),
             ('dict', lambda s: cs.dict_schema(cs.any_schema(), s), lambda v: {'a': v(), 0: v()}, ['a', 0]), ('td', lambda s: cs.typed_dict_schema({'a': cs.typed_dict_field(s), 'b': cs.typed_dict_field(cs.any_schema())}), lambda v: {'a': v(), 'b': v()}, ['a', 'b']),
             ('model', m1, lambda v: mk(Model1, a=v(), b=v()), ['a', 'b']), ('dataclass', dc, lambda v: DC1(v()), ['a']), ('root', lambda s: cs.model_schema(Model1, cs.list_schema(s), root_model=True), lambda v: mk(Model1, root=[v(), v()]), [0, -1]),
             ('enum', None, lambda v: EnumD.M, [0]), ('nullable', lambda s: cs.nullable_schema(cs.list_schema(s)), lambda v: [v(), v()], [0, -1]), ('union', lambda s: cs.union_schema([cs.int_schema(), cs.list_schema(s)]), lambda v: [v(), v()], [0, -1]),
             ('wrap', lambda s: cs.any_schema(serialization=cs.wrap_serializer_function_ser_schema(lambda v, h: h(v), schema=cs.list_schema(s))), lambda v: [v(), v()], [0, 1]), ('json', lambda s: cs.json_schema(cs.list_schema(s)), lambda v: [v(), v()], [0, -1]),
             ('jop', lambda s: cs.json_or_python_schema(cs.list_schema(s), cs.list_schema(s)), lambda v: [v(), v()], [0, 1]), ('chain', lambda s: cs.chain_schema([cs.any_schema(), cs.list_schema(s)]), lambda v: [v(), v()], [0, 1]),
             ('defs', lambda s: cs.definitions_schema(cs.definition_reference_schema('L'), [cs.list_schema(s, ref='L')]), lambda v: [v(), v()], [0, 1]), ('serializable', None, lambda v: ser_model(v()), ['a', 'b'])]
    S1 = SchemaSerializer(m1(cs.any_schema()))

    def ser_model(v):
        m = mk(Model2, a=v, b=v)
        return m
    Model2.__pydantic_serializer__ = S1
    leaf = lambda: {'a': 1, 'b': [1, 2], 'c': {'a': 5}}
    leafsel = [{'a'}, {'b': {0}}, {'b': {'__all__'}}, {'c': {'a'}, 'a': True}, {'zz'}]
    sel1 = lambda ks, subs: [{k: x} for k in [*ks, '__all__'] for x in subs] + [{k} for k in ks] + [{ks[0]: True, '__all__': subs[0]}]
    for (n1, s1, v1, k1), (n2, s2, v2, k2) in ctx.split(itertools.product(kinds, kinds)):
        if n1 == 'enum' and n2 != 'list' or n2 == 'defs' and n1 in ('tuple', 'jop', 'defs'):
            continue
        inner = (s2 or (lambda s: cs.any_schema()))(cs.any_schema())
        schemas = {'any': cs.any_schema()}
        if s1:
            schemas['typed'] = s1(inner)
            if s2:
                schemas['outer'] = s1(cs.any_schema())
        mkv = lambda: v1(lambda: v2(leaf))
        sub = sel1(k2, leafsel) if n1 != 'enum' else leafsel
        if ctx.quick:
            sub = sub[::2]
        sels = sel1(k1, sub)
        for sn, sch in schemas.items():
            ser = SchemaSerializer(sch)
            for sel in sels:
                for kw in (dict(include=sel), dict(exclude=sel)):
                    compare(ctx, f'selection {n1} of {n2} {sn}', ser, mkv, kw, key=repr(kw))
            for a, b in itertools.product(sels[::5], sels[::7]):
                compare(ctx, f'selection {n1} of {n2} {sn}', ser, mkv, dict(include=a, exclude=b), key=repr((a, b)))
        # the functions infer too
        for sel in sels:
            for kw in (dict(include=sel), dict(exclude=sel)):
                a, b = run(lambda: to_json(mkv(), **kw))[0], run(lambda: to_jsonable_python(mkv(), **kw))[0]
                ctx.step()
                ctx.check(a[0] == b[0] and (a[0] != 'ok' or jcanon(json.loads(a[1])) == jcanon(b[1])), f'selection {n1} of {n2} functions {kw}', to_json=repr(a), jsonable=repr(b))
        ctx.trace_done()


class Model2(Model1):
    __slots__ = ()


class DMI(DM):
    pass


def instances(ctx):
    """instances which carry a serializer of their own, where only their type tells: they are dumped by it, by both routes, with every option"""
    own = SchemaSerializer({**rich_model(), 'cls': DMI})
    DMI.__pydantic_serializer__ = own

    def mk(d, unset, ex):
        m = DMI()
        r = rich_value(d, unset, ex)
        for k in ('__dict__', '__pydantic_fields_set__', '__pydantic_extra__', '__pydantic_private__'):
            object.__setattr__(m, k, getattr(r, k))
        return m
    A = cs.any_schema()
    wraps = {
        'any': (A, lambda v: v, lambda j: j), 'list of any': (cs.list_schema(A), lambda v: [1, v], lambda j: [1, j]), 'a list': (A, lambda v: [v, v], lambda j: [j, j]), 'a tuple': (A, lambda v: (v,), lambda j: [j]),
        'a dict': (A, lambda v: {'k': v}, lambda j: {'k': j}), 'a value of any': (cs.dict_schema(A, A), lambda v: {'k': v}, lambda j: {'k': j}), 'a generator': (A, lambda v: (x for x in [v]), lambda j: [j]),
        'field of any': (cs.typed_dict_schema({'q': cs.typed_dict_field(A)}), lambda v: {'q': v}, lambda j: {'q': j}), 'extra': (cs.typed_dict_schema({}, extra_behavior='allow'), lambda v: {'q': v}, lambda j: {'q': j}),
        'function': (cs.int_schema(serialization=cs.plain_serializer_function_ser_schema(lambda v: v)), lambda v: v, lambda j: j), 'nullable': (cs.nullable_schema(A), lambda v: v, lambda j: j),
        'tuple of any': (cs.tuple_schema([A, A], variadic_item_index=1), lambda v: (1, v, v), lambda j: [1, j, j]),
    }
    vals = list(rich_values())
    vals = vals[::11] if ctx.quick else vals
    vals.append((vals[0][0], (), {'u': DM.__init__}))    # of a type unknown
    more = [{}, dict(context={'c': 1}), dict(fallback=fallback), dict(warnings='error'), dict(include={'a', 'c', 'x'}), dict(exclude={'a', 'e'})]
    for (wn, (ws, wv, wj)), opts in ctx.split(list(itertools.product(wraps.items(), list(subsets(True))))):
        ser = SchemaSerializer(ws)
        for mo in more:
            o = {**opts, **mo}
            if wn not in ('any', 'nullable') and ('include' in o or 'exclude' in o):
                continue
            for d, unset, ex in vals:
                compare(ctx, f'instance in {wn}', ser, lambda: wv(mk(d, unset, ex)), o, key=(len(d), unset, bool(ex), repr(sorted(o))))
                a, _ = run(lambda: own.to_python(mk(d, unset, ex), mode='json', **o))
                b, _ = run(lambda: ser.to_python(wv(mk(d, unset, ex)), mode='json', **o))
                if a[0] == 'ok':
                    ctx.check(b[0] == 'ok' and canon(b[1]) == canon(wj(a[1])), f'instance in {wn}: not as its own serializer does', opts=repr(o), got=repr(b)[:300], own=repr(a)[:300])
                    if wn in ('any', 'nullable', 'function'):
                        a, _ = run(lambda: own.to_python(mk(d, unset, ex), **o))
                        b, _ = run(lambda: ser.to_python(wv(mk(d, unset, ex)), **o))
                        ctx.check(b[0] == a[0] == 'ok' and canon(b[1]) == canon(a[1]), f'instance in {wn}: not as its own serializer does in python', opts=repr(o), got=repr(b)[:300], own=repr(a)[:300])
        ctx.trace_done()


def explore(ctx):
    vals = list(values())
    allopts = OPTS if ctx.quick else OPTS + [o for o in subsets(True) if o not in OPTS]
    for name, mks, good in ctx.split(sers()):
        ser = SchemaSerializer(mks())
        ctx.state(name)
        vs = vals + [lambda g=g: g for g in good]
        for opts in allopts:
            for mkv in vs:
                compare(ctx, name, ser, mkv, opts)
        ctx.sample(name, len(vs), len(allopts))
        ctx.trace_done()

    # positions
    def work():
        for pname, ps, pv in positions():
            for name, mks, good in sers():
                yield pname, ps, pv, name, mks, good
    for pname, ps, pv, name, mks, good in ctx.split(work()):
        try:
            ser = SchemaSerializer(ps(mks()))
        except Exception as e:
            guard(e, 'build')
            continue
        ctx.state((pname, name))
        vs = [lambda g=g: pv(g) for g in good]
        vs += [lambda v=v: pv(v()) for v in (vals if not ctx.quick else vals[::7] + vals[-30:])]
        for opts in ({}, dict(exclude_none=True), dict(serialize_as_any=True)) if ctx.quick else OPTS:
            for mkv in vs:
                try:
                    mkv()
                except TypeError:
                    continue  # unhashable
                compare(ctx, f'{pname} of {name}', ser, mkv, opts)
        ctx.trace_done()

    # configs
    def work():
        for cfg in CONFIGS:
            for name, mks in CFG_SCHEMAS:
                yield cfg, name, mks
    for cfg, name, mks in ctx.split(work()):
        ser = SchemaSerializer(mks(), cfg)
        kser = SchemaSerializer(cs.dict_schema(mks(), mks()), cfg)
        anyv = SchemaSerializer(cs.any_schema(), cfg)
        fn = dict(timedelta_mode=cfg['ser_json_timedelta'], bytes_mode=cfg['ser_json_bytes'], inf_nan_mode=cfg['ser_json_inf_nan'])
        for v in CFG_VALUES:
            for w in ([v], v) if name == 'list' else (v,):
                compare(ctx, f'config {name}', ser, lambda: w, {}, cfg['ser_json_inf_nan'], key=repr(cfg))
            try:
                hash(v)
                compare(ctx, f'config keys {name}', kser, lambda: {v: v}, {}, cfg['ser_json_inf_nan'], key=repr(cfg))
            except TypeError:
                pass
            # the functions and the any schema take the same settings
            rs = [run(lambda: anyv.to_json([v, {'k': v}]))[0], run(lambda: to_json([v, {'k': v}], **fn))[0]]
            ctx.ev('fn', None)
            ctx.check(rs[0][:1] == rs[1][:1] and (rs[0][0] != 'ok' or rs[0] == rs[1]), 'to_json function and any serializer differ', cfg=repr(cfg), got=repr(rs))
            rs = [run(lambda: anyv.to_python([v, {'k': v}], mode='json'))[0], run(lambda: to_jsonable_python([v, {'k': v}], **fn))[0]]
            ctx.check(rs[0][:1] == rs[1][:1] and (rs[0][0] != 'ok' or canon(rs[0]) == canon(rs[1])), 'to_jsonable_python and any serializer differ', cfg=repr(cfg), got=repr(rs))

    # the rich model under every subset of the exclude options
    for opts in ctx.split(subsets(True)):
        for cfg in ({}, {'serialize_by_alias': True}):
            ser = SchemaSerializer(rich_model(), cfg)
            for d, unset, ex in rich_values():
                compare(ctx, 'rich model', ser, lambda: rich_value(d, unset, ex), opts, key=(len(d), unset, bool(ex), repr(sorted(opts))))
                compare(ctx, 'rich model excluded', ser, lambda: rich_value(d, unset, ex), dict(opts, exclude={'e', 'cc'}))
        ctx.trace_done()

    instances(ctx)
    selections(ctx)

    # layout: indent changes only white space
    for name, mks, good in ctx.split(sers()):
        ser = SchemaSerializer(mks())
        for mkv in [lambda g=g: g for g in good] + vals:
            a, _ = run(lambda: ser.to_json(mkv(), warnings=False))
            for ind in (0, 1, 2, 4, 7):
                b, _ = run(lambda: ser.to_json(mkv(), indent=ind, warnings=False))
                ctx.step()
                if a[0] != b[0]:
                    ctx.fail(f'indent: one raises: {name}', value=rep(mkv()), indent=ind, a=repr(a), b=repr(b))
                    continue
                if a[0] == 'exc':
                    ctx.ev('exc', None)
                    continue
                ctx.ev('ok', None)
                try:
                    x, y = noaddr(json.loads(a[1])), noaddr(json.loads(b[1]))
                except ValueError:
                    continue  # reported above
                ctx.check(jcanon(x) == jcanon(y), f'indent changes the data: {name}', value=rep(mkv()), indent=ind, a=repr(a), b=repr(b))
                if ind and isinstance(y, (list, dict)):
                    want = json.dumps(y, indent=ind, ensure_ascii=False)
                    # float spelling and escapes are serde's, so compare the white space skeleton
                    sk = lambda t: [len(l) - len(l.lstrip()) for l in t.split('\n')]
                    ctx.check(sk(b[1].decode()) == sk(want), f'indent layout: {name}', value=rep(mkv()), indent=ind, got=repr(b[1]), want=want)
