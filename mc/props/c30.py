"""C30: cyclic garbage with validators and serializers is collected, what is in use is not, and
reference counts are balanced.  Every schema kind which can hold a Python object (leaf) inside every
position of every schema kind which can hold a schema (container), once and twice nested, closed into a
cycle through that object; after every history of calls; with every one of the objects involved kept
alive on the stack alone.  Reference counts: every catalogue schema x input x entry point."""
import dataclasses, decimal, enum, gc, re, sys, weakref
from mc.lib import *
from mc.zoo import *
from pydantic_core import PydanticCustomError, PydanticKnownError, PydanticSerializationUnexpectedValue, Some

LEVEL = 'exploration'
RULE = ('every (leaf, container path, history) of the product; a case is non-trivial when the cycle was closed through an object of the schema and the collector '
        'ran with nothing else referring to it (or, for the liveness half, with exactly one object referred to from the stack)')
BOUNDS = {'quick': 'every leaf in every container (paths of length 0 and 1), 4 histories, every object of the leaf; paths of length 2 with one history (4 leaves: all); reference counts for every catalogue schema x input',
          'thorough': 'paths of length 2 for every leaf; reference counts with more options'}
ASSUME = ['CPython with the GIL: weak references die with their object, sys.getrefcount is exact',
          'handlers, iterators and info objects kept by the user are judged while their SchemaValidator or SchemaSerializer is alive or part of the same garbage, or when a single one is left']


class Leaf:
    def __init__(self, schema, objs, good=1, bad='bad', out=1, json='1'):
        self.schema, self.objs, self.good, self.bad, self.out, self.json = schema, objs, good, bad, out, json


def f1():
    def f(v): return v
    return f


def f2():
    def f(v, i): return v
    return f


def wrap1():
    def f(v, h): return h(v)
    return f


def wrap2():
    def f(v, h, i): return h(v)
    return f


def const(x):
    def f(*a): return x
    return f


def klass(name='K', bases=(), **ns): return type(name, bases, ns)


class Obj:
    """an object with attributes and identity equality"""


class HObj:
    __hash__ = object.__hash__
    def __eq__(self, o): return self is o


class UObj:
    __hash__ = None
    def __eq__(self, o): return self is o


def enum_cls():
    class E(enum.Enum):
        a = 1
        b = 2
    return E


def slot_model(**ns):
    return type('Mo', (), {'__slots__': ('__dict__', '__pydantic_fields_set__', '__pydantic_extra__', '__pydantic_private__', '__weakref__'), **ns})


def mf(**f): return cs.model_fields_schema({k: cs.model_field(v) for k, v in f.items()})


def minst(C, d, extra=None, fs=None):
    m = C.__new__(C)
    m.__dict__.update(d)
    object.__setattr__(m, '__pydantic_extra__', extra); object.__setattr__(m, '__pydantic_fields_set__', fs if fs is not None else set(d)); object.__setattr__(m, '__pydantic_private__', None)
    return m


def dc_cls(names=('x',)):
    return dataclasses.make_dataclass('DC', list(names))


class IntSub(int): pass
class StrSub(str): pass
class DecSub(decimal.Decimal): pass


INT = cs.int_schema


def lv_model(C):
    return cs.model_schema(C, mf(x=INT()))


def leaves():
    """name -> function creating fresh objects"""
    out = {}
    def leaf(f): out[f.__name__] = f
    def leafs(**k): out.update(k)
    # ---- validator functions
    leafs(before=lambda: (lambda f: Leaf(cs.no_info_before_validator_function(f, INT()), [f]))(f1()),
          before_info=lambda: (lambda f: Leaf(cs.with_info_before_validator_function(f, INT()), [f]))(f2()),
          after=lambda: (lambda f: Leaf(cs.no_info_after_validator_function(f, INT()), [f]))(f1()),
          after_info=lambda: (lambda f: Leaf(cs.with_info_after_validator_function(f, INT(), field_name='zz'), [f]))(f2()),
          wrap=lambda: (lambda f: Leaf(cs.no_info_wrap_validator_function(f, INT()), [f]))(wrap1()),
          wrap_info=lambda: (lambda f: Leaf(cs.with_info_wrap_validator_function(f, INT()), [f]))(wrap2()),
          plain=lambda: (lambda f: Leaf(cs.no_info_plain_validator_function(f), [f]))(f1()),
          plain_info=lambda: (lambda f: Leaf(cs.with_info_plain_validator_function(f), [f]))(f2()))
    # ---- callables which are no functions
    @leaf
    def bound_method():
        K = klass('K', f=lambda self, v: v)
        o = K()
        return Leaf(cs.no_info_after_validator_function(o.f, INT()), [o, K])
    @leaf
    def callable_object():
        K = klass('K', __call__=lambda self, v: v)
        o = K()
        return Leaf(cs.no_info_before_validator_function(o, INT()), [o, K])
    # ---- defaults
    @leaf
    def default():
        o = Obj()
        return Leaf(cs.with_default_schema(INT(), default=o), [o])
    @leaf
    def default_copy():
        o = Obj()
        return Leaf({**cs.with_default_schema(INT(), default=o, on_error='default'), 'copy_default': True}, [o], bad=None)
    @leaf
    def default_factory():
        f = const(3)
        return Leaf(cs.with_default_schema(INT(), default_factory=f), [f])
    @leaf
    def default_factory_data():
        f = const(3)
        return Leaf(cs.with_default_schema(INT(), default_factory=f, default_factory_takes_data=True), [f])
    # ---- classes
    @leaf
    def model():
        C = slot_model()
        return Leaf(lv_model(C), [C], {'x': 1}, {'x': 'q'}, minst(C, {'x': 1}), '{"x": 1}')
    @leaf
    def model_origin():
        C, G = slot_model(), slot_model()
        return Leaf(cs.model_schema(C, mf(x=INT()), generic_origin=G), [C, G], {'x': 1}, {'x': 'q'}, minst(C, {'x': 1}), '{"x": 1}')
    @leaf
    def model_root():
        C = slot_model()
        return Leaf(cs.model_schema(C, INT(), root_model=True), [C], 1, 'q', minst(C, {'root': 1}), '1')
    @leaf
    def model_custom_init():
        C = slot_model()
        box = []
        def __init__(self, **k): box[0].validate_python(k, self_instance=self)
        C.__init__ = __init__
        s = cs.model_schema(C, mf(x=INT()), custom_init=True, post_init='pi')
        C.pi = lambda self, c: None
        box.append(SchemaValidator(s))
        return Leaf(s, [C, __init__], {'x': 1}, {'x': 'q'}, minst(C, {'x': 1}), '{"x": 1}')
    @leaf
    def model_config():
        C, o = slot_model(), Obj()
        return Leaf(cs.model_schema(C, mf(x=INT()), config={'strict': False, 'title': 'T', 'odd': o}), [C, o], {'x': 1}, {'x': 'q'}, minst(C, {'x': 1}), '{"x": 1}')
    # functions with an info argument keep the configuration they were built with
    for kind in ('before', 'after', 'wrap', 'plain', 'plain_no_info', 'default_factory'):
        @leafs_named(out, f'config_of_{kind}')
        def _(kind=kind):
            C, o = slot_model(), Obj()
            fs = {'before': lambda: cs.with_info_before_validator_function(f2(), INT()), 'after': lambda: cs.with_info_after_validator_function(f2(), INT()),
                  'wrap': lambda: cs.with_info_wrap_validator_function(wrap2(), INT()), 'plain': lambda: cs.with_info_plain_validator_function(lambda v, i: v + 0),
                  'plain_no_info': lambda: cs.no_info_plain_validator_function(lambda v: v + 0), 'default_factory': lambda: cs.with_default_schema(INT(), default_factory=const(3))}[kind]()
            return Leaf(cs.model_schema(C, mf(x=fs), config={'title': 'T', 'odd': o}), [C, o], {'x': 1}, {'x': 'q'}, minst(C, {'x': 1}), '{"x": 1}')
    @leaf
    def dataclass_():
        D = dc_cls()
        return Leaf(cs.dataclass_schema(D, cs.dataclass_args_schema('DC', [cs.dataclass_field('x', INT())]), ['x']), [D], {'x': 1}, {'x': 'q'}, D(1), '{"x": 1}')
    @leaf
    def dataclass_origin():
        D, G = dc_cls(), dc_cls()
        return Leaf(cs.dataclass_schema(D, cs.dataclass_args_schema('DC', [cs.dataclass_field('x', INT())]), ['x'], generic_origin=G), [D, G], {'x': 1}, {'x': 'q'}, D(1), '{"x": 1}')
    @leaf
    def typed_dict_cls():
        T = klass('TD')
        return Leaf(cs.typed_dict_schema({'x': cs.typed_dict_field(INT())}, cls=T), [T], {'x': 1}, {'x': 'q'}, {'x': 1}, '{"x": 1}')
    @leaf
    def is_instance():
        C = klass('C')
        return Leaf(cs.is_instance_schema(C), [C], C(), 'q', C(), None)
    @leaf
    def is_instance_tuple():
        C, D = klass('C'), klass('D')
        return Leaf(cs.is_instance_schema((C, D)), [C, D], C(), 'q', C(), None)
    @leaf
    def is_subclass():
        C = klass('C')
        return Leaf(cs.is_subclass_schema(C), [C], C, 'q', C, None)
    @leaf
    def enum_():
        E = enum_cls()
        return Leaf(cs.enum_schema(E, list(E.__members__.values())), [E, E.a], 1, 'q', E.a, '1')
    @leaf
    def enum_missing():
        E, f = enum_cls(), const(None)
        return Leaf(cs.enum_schema(E, list(E.__members__.values()), missing=f), [E, E.b, f], 1, 'q', E.a, '1')
    for sub, base in (('int', int), ('str', str), ('float', float)):
        @leafs_named(out, f'enum_{sub}')
        def _(sub=sub, base=base):
            E = enum.Enum('E', {'a': base(1), 'b': base(2)}, type=base)
            return Leaf(cs.enum_schema(E, list(E.__members__.values()), sub_type=sub), [E, E.a], base(1), 'q', E.a, '"1"' if sub == 'str' else '1')
    # ---- literals
    @leaf
    def literal_object():
        o = HObj()
        return Leaf(cs.literal_schema([o, 1]), [o], o, 'q', o, '1')
    @leaf
    def literal_unhashable():
        o = UObj()
        return Leaf(cs.literal_schema([o, 'x']), [o], 'x', 'q', 'x', '"x"')
    @leaf
    def literal_enum():
        E = enum_cls()
        return Leaf(cs.literal_schema([E.a]), [E, E.a], E.a, 'q', E.a, None)
    @leaf
    def literal_int_enum():
        E = enum.IntEnum('E', {'a': 1, 'b': 2})
        return Leaf(cs.literal_schema([E.a, 5]), [E, E.a], 1, 'q', E.a, '1')
    @leaf
    def literal_str_enum():
        E = enum.Enum('E', {'a': 'x', 'b': 'y'}, type=str)
        return Leaf(cs.literal_schema([E.a, 5]), [E, E.a], 'x', 'q', E.a, '"x"')
    @leaf
    def literal_subclass():
        o = IntSub(4)
        return Leaf(cs.literal_schema([o, 'x']), [o], 4, 'q', 4, '4')
    # ---- others
    @leaf
    def decimal_bounds():
        a, b = DecSub('0.5'), DecSub(10)
        return Leaf(cs.decimal_schema(ge=a, le=b, multiple_of=a), [a, b], 1, 'q', decimal.Decimal(1), '1')
    @leaf
    def decimal_bounds2():
        a, b = DecSub('0.5'), DecSub(10)
        return Leaf(cs.decimal_schema(gt=a, lt=b), [a, b], 1, 'q', decimal.Decimal(1), '1')
    @leaf
    def call():
        f = const(1)
        return Leaf(cs.call_schema(cs.arguments_schema([cs.arguments_parameter('x', INT())]), f), [f], ArgsKwargs((1,)), 'q', 1, '{"x": 1}')
    @leaf
    def discriminator():
        f = const('t')
        return Leaf(cs.tagged_union_schema({'t': INT(), 'u': cs.str_schema()}, f), [f])
    @leaf
    def discriminator_enum_tags():
        E = enum.Enum('E', {'a': 'x', 'b': 'y'}, type=str)
        return Leaf(cs.tagged_union_schema({E.a: cs.typed_dict_schema({'k': cs.typed_dict_field(cs.any_schema())}), 'u': cs.typed_dict_schema({})}, 'k'), [E, E.a], {'k': 'x'}, {'k': 'q'}, {'k': 'x'}, '{"k": "x"}')
    @leaf
    def custom_error():
        o = Obj()
        return Leaf(cs.custom_error_schema(INT(), 'my_type', custom_error_message='{x} is odd', custom_error_context={'x': 'y', 'o': o}), [o])
    @leaf
    def metadata():
        o = Obj()
        return Leaf(cs.int_schema(metadata={'o': o, 'l': [o]}), [o])
    # ---- serializers
    leafs(ser_plain=lambda: (lambda f: Leaf(INT(serialization=cs.plain_serializer_function_ser_schema(f)), [f]))(f1()),
          ser_plain_info=lambda: (lambda f: Leaf(INT(serialization=cs.plain_serializer_function_ser_schema(f, info_arg=True, return_schema=INT())), [f]))(f2()),
          ser_plain_json=lambda: (lambda f: Leaf(INT(serialization=cs.plain_serializer_function_ser_schema(f, when_used='json-unless-none')), [f]))(f1()),
          ser_wrap=lambda: (lambda f: Leaf(INT(serialization=cs.wrap_serializer_function_ser_schema(f)), [f]))(wrap1()),
          ser_wrap_info=lambda: (lambda f: Leaf(INT(serialization=cs.wrap_serializer_function_ser_schema(f, info_arg=True, schema=cs.str_schema(), return_schema=cs.any_schema())), [f]))(wrap2()))
    @leaf
    def ser_model():
        C = slot_model()
        return Leaf(INT(serialization=cs.model_ser_schema(C, mf(x=INT()))), [C], out=minst(C, {'x': 1}))
    @leaf
    def ser_return_fn():
        f, g = f1(), f1()
        return Leaf(INT(serialization=cs.plain_serializer_function_ser_schema(f, return_schema=INT(serialization=cs.plain_serializer_function_ser_schema(g)))), [f, g])
    @leaf
    def ser_default_object():
        o = Obj()
        return Leaf(cs.with_default_schema(cs.any_schema(serialization=cs.to_string_ser_schema()), default=o), [o])
    @leaf
    def computed():
        C = slot_model(c=property(lambda self: 1))
        f = f1()
        return Leaf(cs.model_schema(C, cs.model_fields_schema({'x': cs.model_field(INT())}, computed_fields=[cs.computed_field('c', INT(serialization=cs.plain_serializer_function_ser_schema(f)))])), [C, f], {'x': 1}, {'x': 'q'}, minst(C, {'x': 1}), '{"x": 1}')
    # ---- model behind a completed class (prebuilt)
    @leaf
    def prebuilt():
        C = slot_model()
        s = lv_model(C)
        C.__pydantic_validator__, C.__pydantic_serializer__, C.__pydantic_complete__ = SchemaValidator(s), SchemaSerializer(s), True
        return Leaf(s, [C], {'x': 1}, {'x': 'q'}, minst(C, {'x': 1}), '{"x": 1}')
    return out


def leafs_named(out, name):
    def deco(f): out[name] = f
    return deco


R = cs.definition_reference_schema


class Con:
    """a schema kind with a schema position: schema(s, kept) -> schema; inp/out/js wrap values (None: not applicable)"""
    def __init__(self, name, schema, inp=None, out=None, js=None):
        self.name, self.schema, self.inp, self.out, self.js = name, schema, inp, out, js


def ident(x): return x


def keeping(kept, fn=None):
    """wrap function which keeps its handler (and info)"""
    def f(v, h, *i):
        kept.append(h); kept.extend(i)
        return h(v)
    return f


def keeping_plain(kept):
    def f(v, *i):
        kept.extend(i)
        return v
    return f


def M(make):
    """model container: make(C, s, kept) -> schema; the class is fresh"""
    def schema(s, kept):
        C = slot_model()
        kept_cls[0] = C
        return make(C, s, kept)
    return schema


kept_cls = [None]


def containers():
    A = cs.any_schema
    T = cs.typed_dict_field
    def mo(x): return minst(kept_cls[0], {'f': x})
    def mox(x): return minst(kept_cls[0], {}, {'k': x})
    def dcm(make, names=('f',)):
        def schema(s, kept):
            D = dc_cls(names)
            kept_cls[0] = D
            return make(D, s)
        return schema
    def dargs(s, **k): return cs.dataclass_args_schema('DC', [cs.dataclass_field('f', s, **k)])
    obj = lambda j: '{"f": %s}' % j
    arr = lambda j: f'[{j}]'
    C = [
        Con('list', lambda s, k: cs.list_schema(s), lambda x: [x], lambda x: [x], arr),
        Con('set', lambda s, k: cs.set_schema(s), lambda x: [x], None, arr),
        Con('frozenset', lambda s, k: cs.frozenset_schema(s), lambda x: [x], None, arr),
        Con('generator', lambda s, k: cs.generator_schema(s), lambda x: [x, x], lambda x: (i for i in [x, x]), arr),
        Con('tuple', lambda s, k: cs.tuple_schema([INT(), s]), lambda x: (1, x), lambda x: (1, x), lambda j: f'[1, {j}]'),
        Con('tuple variadic', lambda s, k: cs.tuple_schema([INT(), s, INT()], variadic_item_index=1), lambda x: (1, x, 2), lambda x: (1, x, 2), None),
        Con('dict key', lambda s, k: cs.dict_schema(s, INT()), lambda x: {x: 1}, lambda x: {x: 1}, None),
        Con('dict value', lambda s, k: cs.dict_schema(cs.str_schema(), s), lambda x: {'k': x}, lambda x: {'k': x}, obj),
        Con('nullable', lambda s, k: cs.nullable_schema(s), ident, ident, ident),
        Con('default', lambda s, k: cs.with_default_schema(s, default=None), ident, ident, ident),
        Con('default factory', lambda s, k: cs.with_default_schema(s, default_factory=list), ident, ident, ident),
        Con('union', lambda s, k: cs.union_schema([cs.none_schema(), s]), ident, ident, ident),
        Con('union ltr', lambda s, k: cs.union_schema([(s, 'L'), (cs.none_schema(), 'N')], mode='left_to_right', custom_error_type='e', custom_error_message='m'), ident, ident, ident),
        Con('tagged', lambda s, k: cs.tagged_union_schema({'t': cs.typed_dict_schema({'k': T(cs.str_schema()), 'f': T(s)}), 'u': cs.typed_dict_schema({})}, 'k'), lambda x: {'k': 't', 'f': x}, lambda x: {'k': 't', 'f': x}, lambda j: '{"k": "t", "f": %s}' % j),
        Con('chain first', lambda s, k: cs.chain_schema([s, A()]), ident, ident, ident),
        Con('chain last', lambda s, k: cs.chain_schema([A(), s]), ident, ident, ident),
        Con('lax', lambda s, k: cs.lax_or_strict_schema(s, cs.int_schema()), ident, ident, ident),
        Con('strict', lambda s, k: cs.lax_or_strict_schema(cs.any_schema(), s), ident, ident, ident),
        Con('json side', lambda s, k: cs.json_or_python_schema(s, A()), ident, ident, ident),
        Con('python side', lambda s, k: cs.json_or_python_schema(A(), s), ident, ident, ident),
        Con('json', lambda s, k: cs.json_schema(s), None, ident, None),
        Con('before inner', lambda s, k: cs.no_info_before_validator_function(f1(), s), ident, ident, ident),
        Con('after inner', lambda s, k: cs.with_info_after_validator_function(keeping_plain(k), s), ident, ident, ident),
        Con('wrap inner', lambda s, k: cs.with_info_wrap_validator_function(keeping(k), s), ident, ident, ident),
        Con('plain json schema', lambda s, k: cs.no_info_plain_validator_function(f1(), json_schema_input_schema=s), ident, ident, ident),
        Con('typed dict', lambda s, k: cs.typed_dict_schema({'f': T(s)}), lambda x: {'f': x}, lambda x: {'f': x}, obj),
        Con('typed dict extras', lambda s, k: cs.typed_dict_schema({}, extras_schema=s, extra_behavior='allow'), lambda x: {'f': x}, lambda x: {'f': x}, obj),
        Con('model', M(lambda C, s, k: cs.model_schema(C, mf(f=s))), lambda x: {'f': x}, mo, obj),
        Con('model extras', M(lambda C, s, k: cs.model_schema(C, cs.model_fields_schema({}, extras_schema=s, extra_behavior='allow'), extra_behavior='allow')), lambda x: {'k': x}, mox, obj),
        Con('model extra keys', M(lambda C, s, k: cs.model_schema(C, cs.model_fields_schema({}, extras_keys_schema=cs.chain_schema([cs.lax_or_strict_schema(cs.str_schema(), s), cs.str_schema()]), extra_behavior='allow'), extra_behavior='allow')), lambda x: {'k': x}, mox, obj),
        Con('model root', M(lambda C, s, k: cs.model_schema(C, s, root_model=True)), ident, lambda x: minst(kept_cls[0], {'root': x}), ident),
        Con('model computed', M(lambda C, s, k: (setattr(C, 'c', property(lambda self: 1)), cs.model_schema(C, cs.model_fields_schema({'f': cs.model_field(A())}, computed_fields=[cs.computed_field('c', s)])))[1]), lambda x: {'f': x}, mo, obj),
        Con('model wrap', M(lambda C, s, k: cs.model_schema(C, cs.with_info_wrap_validator_function(keeping(k), mf(f=s)))), lambda x: {'f': x}, mo, obj),
        Con('dataclass', dcm(lambda D, s: cs.dataclass_schema(D, dargs(s), ['f'])), lambda x: {'f': x}, lambda x: kept_cls[0](x), obj),
        Con('dataclass init only', dcm(lambda D, s: cs.dataclass_schema(D, dargs(s, init_only=True), ['f'], post_init=False)), lambda x: {'f': x}, None, obj),
        Con('dataclass extras', dcm(lambda D, s: cs.dataclass_schema(D, cs.dataclass_args_schema('DC', [], extra_behavior='allow'), []), ()), lambda x: {'f': x}, None, obj),
        Con('arguments', lambda s, k: cs.arguments_schema([cs.arguments_parameter('f', s)]), lambda x: ArgsKwargs((x,)), None, obj),
        Con('var args', lambda s, k: cs.arguments_schema([], var_args_schema=s), lambda x: ArgsKwargs((x,)), None, arr),
        Con('var kwargs', lambda s, k: cs.arguments_schema([], var_kwargs_schema=s), lambda x: ArgsKwargs((), {'f': x}), None, obj),
        Con('arguments v3', lambda s, k: cs.arguments_v3_schema([cs.arguments_v3_parameter('f', s)]), lambda x: {'f': x}, None, obj),
        Con('call', lambda s, k: cs.call_schema(cs.arguments_schema([cs.arguments_parameter('f', s)]), const(1)), lambda x: ArgsKwargs((x,)), None, obj),
        Con('call return', lambda s, k: cs.call_schema(cs.arguments_schema([cs.arguments_parameter('f', A())]), f1(), return_schema=s), lambda x: ArgsKwargs((x,)), None, obj),
        Con('custom error', lambda s, k: cs.custom_error_schema(s, 'value_error', custom_error_context={'error': 'x'}), ident, ident, ident),
        Con('def', lambda s, k: cs.definitions_schema(R('a'), [{**s, 'ref': 'a'}]) if not inner_def(s) else None, ident, ident, ident),
        Con('def list', lambda s, k: cs.definitions_schema(cs.list_schema(R('a')), [{**s, 'ref': 'a'}]) if not inner_def(s) else None, lambda x: [x], lambda x: [x], arr),
        Con('def unused', lambda s, k: cs.definitions_schema(A(), [{**s, 'ref': 'u'}]) if not inner_def(s) else None, ident, ident, ident),
        Con('def recursive', lambda s, k: cs.definitions_schema(R('r'), [cs.typed_dict_schema({'f': T(s), 'n': T(cs.nullable_schema(R('r')), required=False)}, ref='r')]) if not inner_def(s) else None, lambda x: {'f': x, 'n': {'f': x}}, lambda x: {'f': x, 'n': {'f': x}}, obj),
        Con('ref', lambda s, k: {**s, 'ref': 'z'} if 'ref' not in s and s['type'] != 'definitions' else None, ident, ident, ident),
        Con('ser wrap schema', lambda s, k: A(serialization=cs.wrap_serializer_function_ser_schema(keeping(k), info_arg=True, schema=s)), ident, ident, ident),
        Con('ser wrap inner', lambda s, k: cs.nullable_schema(s, serialization=cs.wrap_serializer_function_ser_schema(keeping(k), info_arg=True)), ident, ident, ident),
        Con('ser return', lambda s, k: A(serialization=cs.plain_serializer_function_ser_schema(keeping_plain(k), info_arg=True, return_schema=s)), ident, ident, ident),
        Con('ser wrap return', lambda s, k: A(serialization=cs.wrap_serializer_function_ser_schema(keeping(k), info_arg=True, return_schema=s)), ident, ident, ident),
        Con('ser json only', lambda s, k: cs.nullable_schema(s, serialization=cs.plain_serializer_function_ser_schema(keeping_plain(k), info_arg=True, when_used='json')), ident, ident, ident),
        Con('metadata schema', lambda s, k: cs.int_schema(metadata={'s': s})),
    ]
    return C


def inner_def(s): return s['type'] == 'definitions'


HIST = ('none', 'good', 'bad', 'mixed')


class Case:
    """everything made for one case"""
    __slots__ = ('v', 's', 'leaf', 'kept', 'inputs', 'bads', 'outs', 'json', 'cls', 'schema')


def lift(schema_def, s):
    return s


def build(ctx, key, mk_leaf, path):
    c = Case()
    c.leaf, c.kept, c.cls = mk_leaf(), [], []
    s = c.leaf.schema
    good, bad, out, js = c.leaf.good, c.leaf.bad, c.leaf.out, c.leaf.json
    defs = []
    for con in path:
        if con is None: continue
        kept_cls[0] = None
        if s is not None and s['type'] == 'definitions': return None
        s = con.schema(s, c.kept)
        if s is None: return None
        try:
            good = con.inp(good) if con.inp and good is not None else None
            bad = con.inp(bad) if con.inp and bad is not None else None
            out = con.out(out) if con.out and out is not None else None
        except TypeError: good = out = None  # unhashable
        js = con.js(js) if con.js and js is not None else None
    c.inputs, c.bads, c.outs, c.json, c.schema = good, bad, out, js, s
    kept_cls[0] = None
    try: c.v = SchemaValidator(s)
    except SchemaError as e:
        return None
    try: c.s = SchemaSerializer(s)
    except SchemaError: c.s = None
    return c


def run(c, hist):
    """calls; whatever they hand out which is not plain data is kept"""
    k = c.kept
    def keep(r):
        if r[0] == 'ok' and type(r[1]).__name__ in ('ValidatorIterator', 'SerializationIterator'):
            k.append(r[1])
            if hist == 'mixed':
                try: next(r[1])
                except Exception: pass
        elif hist == 'mixed':  # results and errors
            if isinstance(r[1], BaseException): r[1].__traceback__ = None
            k.append(r[1])
    if hist in ('good', 'mixed'):
        if c.inputs is not None:
            keep(raw(c.v.validate_python, c.inputs))
            raw(c.v.isinstance_python, c.inputs)
            keep(raw(c.v.validate_python, c.inputs, strict=True))
            keep(raw(c.v.get_default_value))
        if c.json is not None: keep(raw(c.v.validate_json, c.json))
        if c.s is not None and c.outs is not None:
            keep(raw(c.s.to_python, c.outs, warnings=False))
            if type(c.outs).__name__ != 'generator':
                raw(c.s.to_json, c.outs, warnings=False)
                keep(raw(c.s.to_python, c.outs, mode='json', warnings='error'))
    if hist in ('bad', 'mixed'):
        if c.bads is not None:
            keep(raw(c.v.validate_python, c.bads))
            keep(raw(c.v.validate_python, [c.leaf.objs[0]]))
            keep(raw(c.v.validate_python, ArgsKwargs((c.leaf.objs[0],))))
        keep(raw(c.v.validate_python, object()))
        keep(raw(c.v.validate_json, '[[['))
        if c.s is not None: keep(raw(c.s.to_python, object(), warnings='error'))
    repr(c.v), repr(c.s)


def dead(ctx, key, name, path, hist, i, mk_leaf, split):
    """the cycle through object i of the leaf is collected"""
    c = build(ctx, key, mk_leaf, path)
    if c is None: return None
    run(c, hist)
    o = c.leaf.objs[i]
    w = []
    v = {'both': [c.v, c.s, c.kept], 'validator': [c.v], 'serializer': [c.s, c.kept]}[split]
    try: o.cell = v
    except (AttributeError, TypeError): return None
    for x in c.leaf.objs:
        try: w.append(weakref.ref(x))
        except TypeError: pass
    n = len(c.leaf.objs)
    if i >= len(w): return None
    del c, o, v, x
    gc.collect()
    return [r() is not None for r in w]


def leaks(ctx, name, path, pname, hists=HIST):
    mk_leaf = LEAVES[name]
    for hist in hists:
        for split in ('both',) if hist != 'good' else ('both', 'validator', 'serializer'):
            i = 0
            while True:
                ctx.case('leak', name, pname, hist, split, i)
                r = dead(ctx, (name, pname), name, path, hist, i, mk_leaf, split)
                if r is None:
                    if i == 0: return
                    break
                if any(r):
                    ctx.fail(f'leak | {name} in {pname}', hist=hist, through=i, split=split, alive=str(r))
                    reclaim()
                ctx.ev('collected' if not any(r) else 'leaked', (name, pname, hist, split, i))
                i += 1
                if i >= len(r): break


def reclaim():
    """put leaked objects out of the way of later collections"""
    gc.collect(); gc.freeze()


# --------------------------------------------------------------------------- nothing alive is disturbed
HOLD = ('object', 'validator', 'serializer', 'kept')


def probe(v, s, good, bad, outs, json):
    r = []
    if v is not None:
        if good is not None: r.append(plainout(raw(v.validate_python, good)))
        if bad is not None: r.append(plainout(raw(v.validate_python, bad)))
        r.append(plainout(raw(v.validate_python, 'zz')))
        if json is not None: r.append(plainout(raw(v.validate_json, json)))
    if s is not None and outs is not None and type(outs).__name__ != 'generator':
        r.append(plainout(raw(s.to_python, outs, warnings=False)))
        r.append(plainout(raw(s.to_json, outs, warnings=False)))
    return r


def plainout(r):
    if r[0] == 'ok':
        return ('ok', type(r[1]).__name__) if type(r[1]).__name__ in ('ValidatorIterator', 'SerializationIterator') else ('ok', stable(r[1]))
    if r[0] == 'err': return ('err', tuple(sorted(e['type'] for e in r[1].errors(include_url=False))))
    return ('exc', type(r[1]).__name__, re.sub('0x[0-9a-f]+', '', str(r[1]))[:80])


def stable(x, d=0):
    if type(x) in (list, tuple, set, frozenset): return (type(x).__name__,) + tuple(stable(i, d + 1) for i in x)
    if type(x) is dict: return ('dict',) + tuple((stable(k), stable(v)) for k, v in x.items())
    if type(x) is bytes: return ('bytes', re.sub(rb'0x[0-9a-f]+', b'', x))
    if type(x) is str: return ('str', re.sub('0x[0-9a-f]+', '', x))
    if type(x) in (int, float, bool, type(None)): return (type(x).__name__, x)
    if isinstance(x, ArgsKwargs): return ('AK', stable(x.args), stable(x.kwargs))
    return (type(x).__name__, tuple(sorted(k for k in getattr(x, '__dict__', {}) if k not in ('cell', 'mark'))))


def use_kept(kept):
    r = []
    for k in kept:
        t = type(k).__name__
        if t in ('ValidatorIterator', 'SerializationIterator'):
            for _ in range(3): r.append((t, plainout(raw(next, k))))
        elif t in ('ValidatorCallable', 'SerializationCallable', 'AssignmentValidatorCallable'):
            r.append((t, plainout(raw(k, 1))))
        else:
            x = raw(lambda: repr(k))
            r.append((t, x[0]))
    return r


def alive(ctx, name, path, pname):
    """keep one object on the stack only, the rest refers to each other: all of it stays as it was"""
    mk_leaf = LEAVES[name]
    n = 1
    i = 0
    while i < n:
        for hist in ('none', 'good'):
            for hold in HOLD:
                ctx.case('alive', name, pname, hist, hold, i)
                c = build(ctx, None, mk_leaf, path)
                if c is None: return
                n = len(c.leaf.objs)
                run(c, hist)
                o = c.leaf.objs[i]
                # iterators in kept are used up by the probe: probe a twin which was never collected
                want_c = build(ctx, None, mk_leaf, path)
                run(want_c, hist)
                try: o.cell, o.mark = [c.v, c.s, c.kept], 'mark'
                except (AttributeError, TypeError): break
                good, bad, outs, json = c.inputs, c.bads, c.outs, c.json
                k = use_kept(list(want_c.kept))
                want = probe(want_c.v, want_c.s, want_c.inputs, want_c.bads, want_c.outs, want_c.json), k
                if hold == 'object':
                    del c, want_c
                    gc.collect()
                    ok = getattr(o, 'mark', None) == 'mark' and hasattr(o, 'cell')
                    if not ok:
                        ctx.fail(f'disturbed | {name} in {pname}: the object was cleared', hist=hist, hold=hold, through=i)
                        continue
                    v, s, kept = o.cell
                    k = use_kept(list(kept))
                    got = probe(v, s, good, bad, outs, json), k
                elif hold == 'validator':
                    v = c.v
                    del o, c, want_c
                    gc.collect()
                    got, want = probe(v, None, good, bad, None, json), None if want is None else want[0][:len(probe(v, None, good, bad, None, json))]
                elif hold == 'serializer':
                    if c.s is None: continue
                    s = c.s
                    del o, c, want_c
                    gc.collect()
                    got = probe(None, s, None, None, outs, None)
                    want = want[0][len(want[0]) - len(got):]
                else:
                    kept = list(c.kept)
                    if not kept: continue
                    c.kept.clear()
                    del o, c, want_c
                    good = bad = outs = None
                    gc.collect()
                    got, want = use_kept(kept), want[1]
                o = v = s = kept = None
                ctx.check(got == want, f'disturbed | {name} in {pname}: {hold} held', hist=hist, through=i, want=str(want)[:300], got=str(got)[:300])
                ctx.ev('held ' + hold, (name, pname, hist, hold, i))
        i += 1
    # the object is held by the stack only, everything else is garbage which refers to it
    for hist in ('none', 'good'):
        for j in range(n):
            ctx.case('garbage around', name, pname, hist, j)
            c = build(ctx, None, mk_leaf, path)
            run(c, hist)
            o = c.leaf.objs[j]
            try: o.mark = 'mark'
            except (AttributeError, TypeError): break
            c.kept.append(c.kept)
            ring = [c.v, c.s, c.kept, c.leaf.schema, c.schema]
            ring.append(ring)
            del c, ring
            gc.collect()
            ctx.check(getattr(o, 'mark', None) == 'mark', f'disturbed | {name} in {pname}: cleared while held', hist=hist, through=j)
            ctx.ev('garbage around', (name, pname, hist, j))
            o = None


# --------------------------------------------------------------------------- what is handed out
class Bag(dict): cell = None
class Cell: cell = None
class Src:
    """an iterator which can be part of a cycle"""
    def __init__(self): self.i = iter([1, 2, 3])
    def __iter__(self): return self
    def __next__(self): return next(self.i)


def handed():
    """(name, make): make() -> (object, what refers to it); each time new"""
    out = []
    A, S, I = cs.any_schema, cs.str_schema, cs.int_schema
    MARKS = {
        'context': lambda: Cell(), 'context dict': lambda: Bag(a=1), 'data': lambda: Cell(), 'input': lambda: Cell(), 'self': None,
        'include': lambda: Bag(f=True), 'exclude': lambda: Bag(zz=True), 'include below': lambda: Bag(x=True), 'fallback': lambda: const(1), 'value': lambda: Cell()}

    # validation: every function kind x place x mark x what is kept x how it is called
    def vfn(kind, kept, what):
        def f(*a):
            if kind == 'wrap':
                if 'h' in what: kept.append(a[1])
                if 'i' in what: kept.append(a[2])
                return a[1](a[0])
            kept.append(a[-1])
            return a[0]
        return {'wrap': lambda s: cs.with_info_wrap_validator_function(f, s), 'before': lambda s: cs.with_info_before_validator_function(f, s),
                'after': lambda s: cs.with_info_after_validator_function(f, s), 'plain': lambda s: cs.with_info_plain_validator_function(f)}[kind]

    def validation(kind, what, place, mark, call):
        kept = []
        o = MARKS[mark]() if MARKS[mark] else None
        x = o if mark == 'input' else 1
        inner = vfn(kind, kept, what)(A()) if kind != 'iterator' else cs.generator_schema(vfn('plain', kept, 'i')(A()))
        if kind == 'iterator': x = o if mark == 'input' else [1, 2]
        kw = {'context': o} if mark.startswith('context') else {}
        before = o if mark == 'data' else 5
        if place == 'root': s, val = inner, x
        elif place == 'list': s, val = cs.list_schema(inner), [x]
        elif place == 'union': s, val = cs.union_schema([cs.none_schema(), inner]), x
        elif place == 'definition': s, val = cs.definitions_schema(cs.list_schema(R('d')), [{**inner, 'ref': 'd'}]), [x]
        elif place == 'model':
            C = slot_model()
            s, val = cs.model_schema(C, mf(a=A(), f=inner)), {'a': before, 'f': x}
        elif place == 'whole model':
            C = slot_model()
            s, val = cs.model_schema(C, vfn(kind, kept, what)(mf(a=A(), f=A()))), {'a': before, 'f': x}
        elif place == 'typed dict': s, val = cs.typed_dict_schema({'a': cs.typed_dict_field(A()), 'f': cs.typed_dict_field(inner)}), {'a': before, 'f': x}
        elif place == 'dataclass':
            C = dc_cls(('a', 'f'))
            s, val = cs.dataclass_schema(C, cs.dataclass_args_schema('D', [cs.dataclass_field('a', A()), cs.dataclass_field('f', inner)]), ['a', 'f']), {'a': before, 'f': x}
        v = SchemaValidator(s)
        if call == 'assign':
            m = v.validate_python({'a': before, 'f': [0]}, **kw)
            kept.clear()
            r = raw(v.validate_assignment, m, 'f', x, **kw)
        elif call == 'init':
            m = C.__new__(C)
            if mark == 'self': o = m
            r = raw(v.validate_python, val, self_instance=m, **kw)
        else: r = raw(v.validate_python, val, **kw)
        if kind == 'iterator' and r[0] == 'ok':
            its = []
            def find(y):
                if type(y).__name__ == 'ValidatorIterator': its.append(y)
                elif isinstance(y, list): [find(z) for z in y]
                elif isinstance(y, dict): [find(z) for z in y.values()]
                elif hasattr(y, 'f'): find(y.f)
            find(r[1])
            if what != 'fresh':
                for it in its: raw(next, it)
            if what == 'fresh' or what == 'h': kept[:] = its  # the iterator, without or with having been used
            else: kept.extend(its)
        return o, kept

    for kind in ('plain', 'before', 'after', 'wrap', 'iterator'):
        for what in ({'wrap': ('h', 'i', 'hi'), 'iterator': ('fresh', 'h', 'i')}.get(kind, ('i',))):
            for place in ('root', 'list', 'union', 'definition', 'model', 'whole model', 'typed dict', 'dataclass'):
                if place == 'whole model' and kind in ('iterator', 'plain'): continue
                for mark in ('context', 'context dict', 'data', 'input', 'self'):
                    for call in ('call', 'assign', 'init'):
                        if call != 'call' and place not in ('model', 'whole model', 'dataclass'): continue
                        if mark == 'self' and call != 'init': continue
                        if mark == 'data' and place not in ('model', 'typed dict', 'dataclass'): continue
                        if kind == 'iterator' and mark == 'input':
                            def mk(a=(kind, what, place, mark, call)):
                                old = MARKS['input']
                                MARKS['input'] = Src
                                try: return validation(*a)
                                finally: MARKS['input'] = old
                        else: mk = lambda a=(kind, what, place, mark, call): validation(*a)
                        out.append((f'validation {kind} {what} {place} {mark} {call}', mk))

    # serialization: function kind x place x mark x what is kept x route
    def serialization(kind, what, place, mark, route):
        kept = []
        o = MARKS[mark]()
        def f(*a):
            if place != 'root' and place != 'list': a = a[1:]
            if kind == 'wrap':
                if 'h' in what: kept.append(a[1])
                if 'i' in what: kept.append(a[2])
                return a[1](a[0])
            kept.append(a[-1])
            return a[0] if mark != 'value' else 1
        field = place not in ('root', 'list')
        if kind == 'iterator': inner = cs.generator_schema(A(serialization=cs.plain_serializer_function_ser_schema(lambda v, i: kept.append(i) or 1, info_arg=True)))
        else: inner = cs.nullable_schema(A(), serialization=(cs.wrap_serializer_function_ser_schema if kind == 'wrap' else cs.plain_serializer_function_ser_schema)(f, is_field_serializer=field, info_arg=True))
        leafv = Src() if kind == 'iterator' else {'x': 1}
        if mark == 'value': leafv = o = Src() if kind == 'iterator' else o
        kw = {'context': o} if mark.startswith('context') else {mark: o} if mark in ('include', 'exclude', 'fallback') else {}
        if mark == 'include below': kw = {'include': {'f': o}} if field else {'include': {0: o}} if place == 'list' else {'include': o}
        if mark == 'include' and kind != 'iterator' and not field: o[0] = o['x'] = True
        if mark == 'include' and kind == 'iterator': o.update({0: True, 1: True, 2: True})
        if place == 'root': s, val = inner, leafv
        elif place == 'list': s, val = cs.list_schema(inner), [leafv]
        elif place == 'typed dict': s, val = cs.typed_dict_schema({'f': cs.typed_dict_field(inner)}), {'f': leafv}
        elif place == 'model':
            C = slot_model()
            s, val = cs.model_schema(C, mf(f=inner)), minst(C, {'f': leafv})
            if mark == 'value' and kind != 'iterator': o = val
        elif place == 'dataclass':
            C = dc_cls(('f',))
            s, val = cs.dataclass_schema(C, cs.dataclass_args_schema('D', [cs.dataclass_field('f', inner)]), ['f']), C(leafv)
        z = SchemaSerializer(s)
        r = raw(z.to_python, val, **kw) if route == 'python' else raw(z.to_python, val, mode='json', **kw) if route == 'json' else raw(z.to_json, val, **kw)
        if kind == 'iterator' and route == 'python' and r[0] == 'ok':
            it = r[1]
            while type(it) in (list, dict): it = it['f' if type(it) is dict else 0] if it else None
            if what == 'fresh': kept[:] = [it]
            else:
                raw(next, it)
                kept.append(it)
        return o, kept
    for kind in ('plain', 'wrap', 'iterator'):
        for what in {'wrap': ('h', 'i', 'hi'), 'iterator': ('fresh', 'i')}.get(kind, ('i',)):
            for place in ('root', 'list', 'typed dict', 'model', 'dataclass'):
                for mark in ('context', 'context dict', 'include', 'exclude', 'include below', 'fallback', 'value'):
                    for route in ('python', 'json', 'to_json'):
                        out.append((f'serialization {kind} {what} {place} {mark} {route}', lambda a=(kind, what, place, mark, route): serialization(*a)))

    # errors and markers
    def error(mk):
        def g():
            o = Cell()
            e = raw(lambda: mk(o))[1]
            assert type(e).__module__ == 'pydantic_core._pydantic_core', e
            if isinstance(e, BaseException): e.__traceback__ = None
            return o, e
        return g
    def boom(e): raise e
    def reject(e): return SchemaValidator(cs.no_info_plain_validator_function(lambda v: boom(e)))
    def line(t, o, **k): return ValidationError.from_exception_data('t', [{'type': t, 'loc': ('a',), 'input': o, **k}])
    E = {
        'input': lambda o: SchemaValidator(I()).validate_python(o),
        'input in list': lambda o: SchemaValidator(cs.list_schema(I())).validate_python([o]),
        'input of union': lambda o: SchemaValidator(cs.union_schema([I(), S()])).validate_python(o),
        'exception': lambda o: reject(ValueError(o)).validate_python(1),
        'assertion': lambda o: reject(AssertionError(o)).validate_python(1),
        'custom context': lambda o: reject(PydanticCustomError('a', 'b', {'o': o})).validate_python(1),
        'known context': lambda o: reject(PydanticKnownError('greater_than', {'gt': 1, 'o': o})).validate_python(1),
        'custom schema context': lambda o: SchemaValidator(cs.custom_error_schema(I(), 'a', custom_error_message='m', custom_error_context={'o': o})).validate_python('x'),
        'from data': lambda o: line('int_type', o),
        'from data ctx': lambda o: line('value_error', 1, ctx={'error': o}),
        'from data custom': lambda o: line(PydanticCustomError('a', 'b', {'o': o}), 1),
        'custom': lambda o: PydanticCustomError('a', 'b', {'o': o}),
        'known': lambda o: PydanticKnownError('value_error', {'error': o}),
        'unexpected': lambda o: PydanticSerializationUnexpectedValue('m', 'f', o),
        'args': lambda o: ArgsKwargs((o,), {}), 'kwargs': lambda o: ArgsKwargs((), {'a': o}), 'some': lambda o: Some(o),
        'some default': lambda o: SchemaValidator(cs.with_default_schema(A(), default=o)).get_default_value(),
    }
    for n, mk in E.items(): out.append((f'error {n}', error(mk)))

    # the schema and the config themselves
    def whole(which, use):
        def g():
            o = Bag()
            if which == 'config': o.update(strict=False, zz=Cell()); s, k = I(), o
            else: o.update(I()); s, k = o, None
            v = use(s, k)
            raw(v.validate_python if use is SchemaValidator else v.to_python, 1)
            return o, v
        return g
    for which in ('schema', 'config'):
        for use in (SchemaValidator, SchemaSerializer): out.append((f'whole {which} {use.__name__}', whole(which, use)))
    return out


def handed_out(ctx):
    """what callbacks, errors and iterators refer to is collected with them"""
    n = 0
    for name, mk in ctx.split(handed()):
        for shape in ('alone', 'listed', 'behind an iterator'):
            ctx.case('handed out', name, shape)
            o, kept = mk()
            if kept is None or kept == []:
                ctx.ev('nothing kept')
                continue
            try: o.cell = kept if shape == 'alone' else [[kept]] if shape == 'listed' else iter([kept])
            except AttributeError: continue
            r = weakref.ref(o)
            del o, kept
            gc.collect()
            ctx.ev('collected' if r() is None else 'leaked', (name, shape))
            if r() is not None:
                ctx.fail(f'leak | handed out: {name}', shape=shape)
                reclaim()


LEAVES = leaves()
CONS = containers()
SMALL = ('after', 'default', 'model', 'ser_plain')


def jobs(ctx):
    for n in LEAVES:
        for c in [None] + CONS:
            yield 'leak', n, [c], c.name if c else '-'
            yield 'alive', n, [c], c.name if c else '-'
    for n in LEAVES:
        for a in CONS:
            for b in CONS:
                yield 'leak', n, [a, b], f'{a.name} / {b.name}', (HIST if not ctx.quick or n in SMALL else HIST[-1:])
    for n in ('wrap', 'after') if ctx.quick else LEAVES:
        for a in CONS:
            for b in CONS:
                if ctx.quick and not ('wrap' in a.name or 'generator' in a.name or 'wrap' in b.name or 'generator' in b.name): continue
                yield 'alive', n, [a, b], f'{a.name} / {b.name}'


# --------------------------------------------------------------------------- reference counts
def graph(x, out, seen, d=0):
    if id(x) in seen or d > 6: return
    seen.add(id(x))
    if x is None or x is True or x is False or x is Ellipsis: return
    out.append(x)
    if type(x) in (list, tuple, set, frozenset):
        for i in x: graph(i, out, seen, d + 1)
    elif type(x) is dict:
        for k, v in x.items(): graph(k, out, seen, d + 1), graph(v, out, seen, d + 1)
    elif hasattr(x, '__dict__') and not isinstance(x, type):
        for k, v in list(vars(x).items()): graph(v, out, seen, d + 1)


ONESHOT = ('generator', 'list_iterator', 'map', 'zip')
REPEAT = 4


def counted(fn):
    for _ in range(REPEAT):
        try: r = fn()
        except BaseException as e:
            if isinstance(e, (KeyboardInterrupt, SystemExit)): raise
            guard(e, ())
            r = e.__traceback__ = None
            del e
        if hasattr(r, '__next__'):
            for _ in range(4):
                try: next(r)
                except BaseException as e: del e
        r = None


def balance(ctx, key, fn, objs, **info):
    counted(fn)  # first use: lazily created things
    getrc = sys.getrefcount
    n = len(objs)
    rng = range(n)
    before = [getrc(objs[i]) for i in rng]
    counted(fn)
    after = [getrc(objs[i]) for i in rng]
    if before != after:
        gc.collect()
        before = [getrc(objs[i]) for i in rng]
        counted(fn)
        gc.collect()
        after = [getrc(objs[i]) for i in rng]
        bad = [(type(objs[i]).__name__, after[i] - before[i]) for i in rng if after[i] != before[i] and before[i] < 2 ** 31 and abs(after[i] - before[i]) >= REPEAT]
        if bad:
            ctx.fail(f'balance | {key}', deltas=str(bad[:6]), **info)
            return
    for _ in range(60):  # a collection empties the interpreter's free lists (up to 80 entries): what refills them is no growth
        b0 = sys.getallocatedblocks()
        counted(fn)
        if sys.getallocatedblocks() - b0 < REPEAT: break
    else:
        def rounds():
            for _ in range(50): counted(fn)
            gc.collect()
            return sys.getallocatedblocks()
        c = [rounds() for _ in range(6)][2:]
        if all(c[i + 1] - c[i] >= 50 * REPEAT for i in range(3)):
            ctx.fail(f'growth | {key}', blocks=str([c[i + 1] - c[i] for i in range(3)]), **info)


def counts(ctx, z):
    v = SchemaValidator(z.schema())
    xs = [x for x in py_inputs() if type(x).__name__ not in ONESHOT]
    schema_objs = []
    graph(z.schema(), schema_objs, set())
    for x in xs:
        objs = []
        graph(x, objs, set())
        objs += schema_objs
        c = {'ctx': object()}
        for mode, fn in (('lax', lambda: v.validate_python(x)), ('strict', lambda: v.validate_python(x, strict=True, context=c)), ('attrs', lambda: v.validate_python(x, from_attributes=True)),
                         ('isinstance', lambda: v.isinstance_python(x)), ('partial', lambda: v.validate_python(x, allow_partial=True))):
            ctx.case('balance', z.name, mode, rep(x))
            balance(ctx, f'{z.name}: {mode}', fn, objs + [c], input=rep(x))
            ctx.ev('balance ' + mode, (z.name, mode, rep(x)))
        if isinstance(x, (str, dict)):
            balance(ctx, f'{z.name}: strings', lambda: v.validate_strings(x), objs, input=rep(x))
        balance(ctx, f'{z.name}: errors', lambda: render(v, x), objs, input=rep(x))
        for inst in z.good[:1]:
            for f in ('a', 'x', 'zz'):
                balance(ctx, f'{z.name}: assignment', lambda: v.validate_assignment(inst, f, x), objs + [inst], input=rep(x))
    for j in JSON_TEXTS:
        objs = list(schema_objs)
        for mode, fn in (('json', lambda: v.validate_json(j)), ('json bytes', lambda: v.validate_json(j.encode('utf-8', 'surrogatepass'), strict=True)), ('json partial', lambda: v.validate_json(j, allow_partial='trailing-strings'))):
            balance(ctx, f'{z.name}: {mode}', fn, objs, input=j)
            ctx.ev('balance ' + mode, (z.name, mode, j))
    try: s = SchemaSerializer(z.schema())
    except SchemaError: return
    for x in list(z.good) + xs:
        objs = []
        graph(x, objs, set())
        objs += schema_objs
        fb = lambda o: 'fb'
        inc = {'a': True, 0: True}
        for mode, kw in (('python', {}), ('json', {'mode': 'json'}), ('fallback', {'mode': 'json', 'fallback': fb, 'context': inc}), ('include', {'include': inc, 'exclude': {'b'}, 'by_alias': True, 'exclude_none': True}), ('error', {'warnings': 'error', 'serialize_as_any': True})):
            kw = {'warnings': False, **kw}
            ctx.case('balance', z.name, mode, rep(x))
            balance(ctx, f'{z.name}: to_python {mode}', lambda: s.to_python(x, **kw), objs + [fb, inc], input=rep(x))
            ctx.ev('balance to_python ' + mode, (z.name, mode, rep(x)))
            if 'mode' not in kw: balance(ctx, f'{z.name}: to_json {mode}', lambda: s.to_json(x, **kw), objs + [fb, inc], input=rep(x))


def render(v, x):
    try: v.validate_python(x)
    except ValidationError as e: return e.errors(), str(e), e.json()


def explore(ctx):
    gc.collect(); gc.freeze(); gc.disable()
    try:
        n = 0
        for kind, *job in ctx.split(jobs(ctx)):
            n += 1
            if n % 50 == 0: gc.collect()
            (leaks if kind == 'leak' else alive)(ctx, *job)
        for z in ctx.split(ZOO): counts(ctx, z)
        handed_out(ctx)
    finally:
        gc.enable(); gc.unfreeze()
    ctx.sample('every leaf object', list(LEAVES)[0], 'in every container', [c.name for c in CONS][:5])
