"""A catalogue of core schemas of every kind with values of their output type, and the input
alphabets shared by the cross-cutting properties."""
import dataclasses, enum, typing
from datetime import date, datetime as DT, time, timedelta, timezone
from decimal import Decimal
from uuid import UUID
from mc.lib import *


class Color(enum.Enum):
    red = 'red'
    blue = 'blue'


class Num(enum.IntEnum):
    one = 1
    two = 2


class StrE(str, enum.Enum):
    a = 'a'
    b = 'b'


class FlE(float, enum.Enum):
    x = 1.5
    y = 2.0


class SStr(str):
    pass


class SInt(int):
    pass


class SFloat(float):
    pass


class SBytes(bytes):
    pass


class SList(list):
    pass


class SDict(dict):
    pass


class M1(Model):
    pass


class M2(Model):
    pass


class M2Sub(M2):
    pass


class MX(Model):
    pass


class MRoot(Model):
    __slots__ = ()


class MRec(Model):
    pass


class MAl(Model):
    pass


@dataclasses.dataclass
class D1:
    a: int
    b: str = 'x'


@dataclasses.dataclass
class D2:
    a: int


@dataclasses.dataclass
class DS:
    __slots__ = ('a', 'b')
    a: int
    b: str


class Attr:
    def __init__(self, **kw):
        self.__dict__.update(kw)

    def __repr__(self):
        return f'Attr({self.__dict__})'


def mk(cls, extra=None, fs=None, **f):
    o = cls.__new__(cls)
    object.__setattr__(o, '__dict__', f)
    object.__setattr__(o, '__pydantic_fields_set__', set(f) if fs is None else set(fs))
    object.__setattr__(o, '__pydantic_extra__', extra)
    object.__setattr__(o, '__pydantic_private__', None)
    return o


def fn_call(a, b=2, *, c=3):
    return (a, b, c)


class Z:
    def __init__(self, name, schema, good, faithful=True, json=True, scalar=False, fns=False, ser=True):
        self.ser = ser
        self.name, self.mk, self.good, self.faithful, self.json, self.scalar, self.fns = name, schema, good, faithful, json, scalar, fns

    def schema(self):
        return self.mk()

    def __repr__(self):
        return self.name


UTC = timezone.utc
TZ = timezone(timedelta(hours=5, minutes=30))
TZN = timezone(-timedelta(hours=3, minutes=15))
m1s = lambda **kw: cs.model_schema(M1, cs.model_fields_schema({'a': cs.model_field(cs.int_schema()), 'b': cs.model_field(cs.with_default_schema(cs.str_schema(), default='dft'))}), **kw)
m2s = lambda **kw: cs.model_schema(M2, cs.model_fields_schema({'x': cs.model_field(cs.list_schema(cs.int_schema())), 'm': cs.model_field(cs.nullable_schema(m1s()))}), **kw)
mxs = lambda **kw: cs.model_schema(MX, cs.model_fields_schema({'a': cs.model_field(cs.int_schema())}, extra_behavior='allow'), config={'extra_fields_behavior': 'allow'}, **kw)
als = lambda **kw: cs.model_schema(MAl, cs.model_fields_schema({'a': cs.model_field(cs.int_schema(), validation_alias='A', serialization_alias='SA'),
                                                                'b': cs.model_field(cs.int_schema(), validation_alias=[['B'], ['n', 'b'], ['l', 1]], serialization_alias='SB')}), **kw)
d1s = lambda **kw: cs.dataclass_schema(D1, cs.dataclass_args_schema('D1', [cs.dataclass_field('a', cs.int_schema()), cs.dataclass_field('b', cs.with_default_schema(cs.str_schema(), default='x'))]), ['a', 'b'], **kw)
dss = lambda **kw: cs.dataclass_schema(DS, cs.dataclass_args_schema('DS', [cs.dataclass_field('a', cs.int_schema()), cs.dataclass_field('b', cs.str_schema())]), ['a', 'b'], slots=True, **kw)
tds = lambda **kw: cs.typed_dict_schema({'a': cs.typed_dict_field(cs.int_schema()), 'b': cs.typed_dict_field(cs.str_schema(), required=False)}, **kw)


def mkds(a, b):
    return DS(a, b)


def rec_model():
    return cs.definitions_schema(cs.definition_reference_schema('MRec'), [
        cs.model_schema(MRec, cs.model_fields_schema({'v': cs.model_field(cs.int_schema()), 'kids': cs.model_field(cs.list_schema(cs.definition_reference_schema('MRec')))}), ref='MRec')])


def tagged():
    return cs.tagged_union_schema({'cat': cs.typed_dict_schema({'k': cs.typed_dict_field(cs.literal_schema(['cat'])), 'n': cs.typed_dict_field(cs.int_schema())}),
                                   'dog': cs.typed_dict_schema({'k': cs.typed_dict_field(cs.literal_schema(['dog'])), 's': cs.typed_dict_field(cs.str_schema())})}, 'k')


def arguments():
    return cs.arguments_schema([cs.arguments_parameter('a', cs.int_schema(), mode='positional_only'), cs.arguments_parameter('b', cs.int_schema()),
                                cs.arguments_parameter('c', cs.with_default_schema(cs.str_schema(), default='c'), mode='keyword_only')])


ZOO = [
    Z('any', lambda: cs.any_schema(), [1, 'x', None, [1]], scalar=False),
    Z('none', lambda: cs.none_schema(), [None], scalar=True),
    Z('bool', lambda: cs.bool_schema(), [True, False], scalar=True),
    Z('int', lambda: cs.int_schema(), [0, 1, -1, 2 ** 31, 2 ** 63 - 1, 2 ** 63, -2 ** 63, -2 ** 63 - 1, 10 ** 40], scalar=True),
    Z('int_c', lambda: cs.int_schema(ge=1, lt=100, multiple_of=2), [2, 98], scalar=True),
    Z('float', lambda: cs.float_schema(), [0.0, -0.0, 1.5, 1e300, 5e-324, 1.0, 0.1, 2.0 ** 53, 1e22, 1e-7, 123456789.123], scalar=True),
    Z('float_c', lambda: cs.float_schema(gt=0, le=10, multiple_of=0.5, allow_inf_nan=False), [0.5, 10.0], scalar=True),
    Z('decimal', lambda: cs.decimal_schema(), [Decimal('0'), Decimal('1.10'), Decimal('-1E+5'), Decimal('1e-30'), Decimal('123456789012345678901234567890.123')], scalar=True),
    Z('decimal_c', lambda: cs.decimal_schema(max_digits=4, decimal_places=2), [Decimal('1.10'), Decimal('99.99')], scalar=True),
    Z('complex', lambda: cs.complex_schema(), [1 + 2j, 0j, -1.5j], scalar=True),
    Z('str', lambda: cs.str_schema(), ['', 'abc', 'é', '\U0001f600', '\n"\\', '\x00', '1', 'a' * 70], scalar=True),
    Z('str_c', lambda: cs.str_schema(min_length=1, max_length=5, pattern='^[a-z]+$', strip_whitespace=True, to_lower=True), ['abc'], scalar=True),
    Z('bytes', lambda: cs.bytes_schema(), [b'', b'abc', b'\xc3\xa9'], scalar=True),
    Z('date', lambda: cs.date_schema(), [date(2020, 2, 29), date(1, 1, 1), date(9999, 12, 31)], scalar=True),
    Z('time', lambda: cs.time_schema(), [time(0, 0), time(23, 59, 59, 999999), time(1, 2, 3, 4, tzinfo=UTC), time(1, 2, tzinfo=TZN)], scalar=True),
    Z('datetime', lambda: cs.datetime_schema(), [DT(2020, 1, 2, 3, 4, 5), DT(2020, 1, 2, 3, 4, 5, 678901), DT(2020, 1, 1, tzinfo=UTC), DT(9999, 12, 31, 23, 59, 59, 999999, tzinfo=TZ), DT(1, 1, 1)], scalar=True),
    Z('timedelta', lambda: cs.timedelta_schema(), [timedelta(0), timedelta(1, 2, 3), timedelta(-1, 5), timedelta(days=999999999), timedelta(microseconds=-1)], scalar=True),
    Z('literal', lambda: cs.literal_schema(['a', 1, b'b', None, Color.red]), ['a', 1, None], scalar=True, faithful=True),
    Z('enum', lambda: cs.enum_schema(Color, list(Color.__members__.values())), [Color.red, Color.blue], scalar=True),
    Z('enum_int', lambda: cs.enum_schema(Num, list(Num.__members__.values()), sub_type='int'), [Num.one, Num.two], scalar=True),
    Z('enum_str', lambda: cs.enum_schema(StrE, list(StrE.__members__.values()), sub_type='str'), [StrE.a], scalar=True),
    Z('enum_float', lambda: cs.enum_schema(FlE, list(FlE.__members__.values()), sub_type='float'), [FlE.x, FlE.y], scalar=True),
    Z('uuid', lambda: cs.uuid_schema(), [UUID(int=0), UUID('12345678-1234-5678-1234-567812345678')], scalar=True),
    Z('uuid4', lambda: cs.uuid_schema(version=4), [UUID('12345678-1234-4678-9234-567812345678')], scalar=True),
    Z('url', lambda: cs.url_schema(), [Url('https://example.com/x?y=1#z'), Url('http://u:p@h:81/')], scalar=True),
    Z('murl', lambda: cs.multi_host_url_schema(), [MultiHostUrl('https://a.com,b.com:80/x')], scalar=True),
    Z('is_instance', lambda: cs.is_instance_schema(str), ['x'], json=False, scalar=True),
    Z('is_subclass', lambda: cs.is_subclass_schema(int), [int, bool], json=False, faithful=False),
    Z('callable', lambda: cs.callable_schema(), [len], json=False, faithful=False),
    Z('list', lambda: cs.list_schema(cs.int_schema()), [[], [1], [1, 2, 3]]),
    Z('list_c', lambda: cs.list_schema(cs.str_schema(), min_length=1, max_length=3), [['a'], ['a', 'b', 'c']]),
    Z('list_any', lambda: cs.list_schema(), [[], [1, 'x', None]]),
    Z('list_list', lambda: cs.list_schema(cs.list_schema(cs.float_schema())), [[[1.5], []], []]),
    Z('tuple', lambda: cs.tuple_schema([cs.int_schema(), cs.str_schema()]), [(1, 'x')]),
    Z('tuple_var', lambda: cs.tuple_schema([cs.int_schema(), cs.str_schema(), cs.bool_schema()], variadic_item_index=1), [(1, True), (1, 'a', 'b', False)]),
    Z('set', lambda: cs.set_schema(cs.int_schema()), [set(), {1, 2}]),
    Z('frozenset', lambda: cs.frozenset_schema(cs.str_schema()), [frozenset(), frozenset({'a'})]),
    Z('generator', lambda: cs.generator_schema(cs.int_schema()), [], faithful=False),
    Z('dict', lambda: cs.dict_schema(cs.str_schema(), cs.int_schema()), [{}, {'a': 1, 'b': 2}]),
    Z('dict_int', lambda: cs.dict_schema(cs.int_schema(), cs.list_schema(cs.str_schema())), [{}, {1: ['a'], -2: []}]),
    Z('dict_date', lambda: cs.dict_schema(cs.date_schema(), cs.decimal_schema()), [{date(2020, 1, 1): Decimal('1.5')}]),
    Z('dict_uuid', lambda: cs.dict_schema(cs.uuid_schema(), cs.none_schema()), [{UUID(int=1): None}]),
    Z('dict_float', lambda: cs.dict_schema(cs.float_schema(), cs.any_schema()), [{1.5: 1, 2.0: None}]),
    Z('dict_bool', lambda: cs.dict_schema(cs.bool_schema(), cs.any_schema()), [{True: 1, False: 2}]),
    Z('dict_enum', lambda: cs.dict_schema(cs.enum_schema(Color, list(Color.__members__.values())), cs.int_schema()), [{Color.red: 1}]),
    Z('nullable', lambda: cs.nullable_schema(cs.int_schema()), [None, 3]),
    Z('default', lambda: cs.with_default_schema(cs.int_schema(), default=7), [3]),
    Z('union', lambda: cs.union_schema([cs.int_schema(), cs.str_schema(), cs.list_schema(cs.int_schema())]), [1, 'x', [1]]),
    Z('union_ltr', lambda: cs.union_schema([cs.int_schema(), cs.str_schema()], mode='left_to_right'), [1, 'x']),
    Z('union_m', lambda: cs.union_schema([m1s(), d1s(), tds()]), [mk(M1, a=1, b='x'), D1(1, 'x')], faithful=False),
    Z('tagged', tagged, [{'k': 'cat', 'n': 1}, {'k': 'dog', 's': 'w'}]),
    Z('chain', lambda: cs.chain_schema([cs.str_schema(), cs.int_schema()]), [], faithful=False),
    Z('lax_or_strict', lambda: cs.lax_or_strict_schema(cs.int_schema(), cs.int_schema(strict=True)), [1]),
    Z('json_or_python', lambda: cs.json_or_python_schema(cs.int_schema(), cs.int_schema()), [1]),
    Z('custom_error', lambda: cs.custom_error_schema(cs.int_schema(), 'my_err', custom_error_message='msg {x}', custom_error_context={'x': 'X'}), [1]),
    Z('json', lambda: cs.json_schema(cs.list_schema(cs.int_schema())), [], faithful=False),
    Z('json_any', lambda: cs.json_schema(), [], faithful=False),
    Z('typed_dict', tds, [{'a': 1}, {'a': 1, 'b': 'x'}]),
    Z('typed_dict_x', lambda: tds(extra_behavior='allow'), [{'a': 1, 'z': 'q'}]),
    Z('typed_dict_f', lambda: tds(extra_behavior='forbid'), [{'a': 1}]),
    Z('model', m1s, [mk(M1, a=1, b='x'), mk(M1, fs=['a'], a=2, b='dft')]),
    Z('model_fields', lambda: cs.model_fields_schema({'a': cs.model_field(cs.int_schema())}), [], faithful=False),
    Z('model2', m2s, [mk(M2, x=[1], m=None), mk(M2, x=[], m=mk(M1, a=1, b='x'))]),
    Z('model_x', mxs, [mk(MX, extra={'q': 1}, fs=['a', 'q'], a=1), mk(MX, extra={}, a=2)]),
    Z('model_alias', als, [mk(MAl, a=1, b=2)], faithful=False),
    Z('model_reval', lambda: m1s(revalidate_instances='always'), [mk(M1, a=1, b='x')]),
    Z('model_root', lambda: cs.model_schema(MRoot, cs.list_schema(cs.int_schema()), root_model=True), [mk(MRoot, root=[1, 2])]),
    Z('model_strict', lambda: m1s(strict=True), [mk(M1, a=1, b='x')], faithful=True),
    Z('model_attr', lambda: cs.model_schema(M1, cs.model_fields_schema({'a': cs.model_field(cs.int_schema()), 'b': cs.model_field(cs.str_schema())}, from_attributes=True)), [mk(M1, a=1, b='x')]),
    Z('model_rec', rec_model, [mk(MRec, v=1, kids=[]), mk(MRec, v=1, kids=[mk(MRec, v=2, kids=[])])]),
    Z('dataclass', d1s, [D1(1, 'x')]),
    Z('dataclass_slots', dss, [DS(1, 'x')]),
    Z('dataclass_args', lambda: cs.dataclass_args_schema('D1', [cs.dataclass_field('a', cs.int_schema())], collect_init_only=False), [], faithful=False),
    Z('arguments', arguments, [], faithful=False, ser=False),
    Z('call', lambda: cs.call_schema(arguments(), lambda a, b, c: (a, b, c)), [], faithful=False, ser=False),
    Z('before', lambda: cs.no_info_before_validator_function(lambda v: v, cs.int_schema()), [1], fns=True),
    Z('after', lambda: cs.no_info_after_validator_function(lambda v: v, cs.int_schema()), [1], fns=True),
    Z('wrap', lambda: cs.no_info_wrap_validator_function(lambda v, h: h(v), cs.int_schema()), [1], fns=True),
    Z('plain', lambda: cs.no_info_plain_validator_function(lambda v: v), [1], fns=True),
]
ZN = {z.name: z for z in ZOO}


def py_inputs():
    """Python inputs of every kind (fresh objects every call)"""
    return [
        None, True, False, 0, 1, -1, 2, 3, 97, 98, 2 ** 31, 2 ** 63 - 1, 2 ** 63, -2 ** 63, -2 ** 63 - 1, 10 ** 40, SInt(1), SInt(2 ** 70),
        0.0, -0.0, 1.0, 1.5, -2.5, 1e300, 5e-324, float('inf'), float('-inf'), float('nan'), SFloat(1.0), 2.0 ** 63, 1e20,
        '', '0', '1', '-1', '+1', ' 1 ', '1.0', '1.5', '1_000', '1__0', '_1', '0x1', '1e3', 'inf', 'nan', 'Infinity', 'true', 'False', 'yes', 'off', 'abc', 'ABC', ' abc ', 'é', '\U0001f600',
        '\ud800', 'x' * 100, 'a', 'red', '2020-01-01', '2020-02-30', '2020-01-01T00:00:00', '2020-01-01T01:02:03.5Z', '2020-01-01 01:02:03.123456+05:30', '01:02:03', '23:59', 'P1DT2H', '-P1D', '1 day, 01:02:03', '1+2j', '1j', 'j',
        '12345678-1234-4678-9234-567812345678', '00000000000000000000000000000000', 'urn:uuid:12345678-1234-5678-1234-567812345678', 'http://x.com', 'https://a.com,b.com:80/x', 'http://', '[1, 2]', '{"a": 1}', '1577836800',
        SStr('abc'), SStr('1'),
        b'', b'1', b'abc', b'\xff', b'2020-01-01', b'[1]', SBytes(b'abc'), bytearray(b'1'), bytearray(b'abc'), memoryview(b'abc'),
        Decimal('1'), Decimal('1.5'), Decimal('1.10'), Decimal('NaN'), Decimal('Infinity'), Decimal('1e400'), Decimal('0.001'), 1 + 2j, 0j,
        date(2020, 1, 1), DT(2020, 1, 1), DT(2020, 1, 1, 1), DT(2020, 1, 1, tzinfo=UTC), time(1, 2, 3), time(1, 2, 3, tzinfo=UTC), timedelta(1), timedelta(-1, 1, 1), timedelta.max, timedelta.min, DT.max, DT.min,
        UUID(int=1), UUID('12345678-1234-4678-9234-567812345678'), Color.red, Num.one, StrE.a, FlE.x, Url('http://x.com/'), MultiHostUrl('http://a.com,b.com/'),
        [], [1], [1, 2], ['1', 'a'], ['a', 'b', 'c', 'd'], [[1.5], []], [None], [1, 'x', True], SList([1]),
        (), (1,), (1, 'x'), (1, 'a', 'b', True), (1, 2, 3), set(), {1}, {'a'}, frozenset({1}), frozenset({'a'}),
        {}, {'a': 1}, {'a': '1'}, {'a': 'x'}, {'a': 1, 'b': 'x'}, {'a': 1, 'b': 2}, {'a': 1, 'z': 'q'}, {'A': 1, 'B': 2}, {'A': 1, 'n': {'b': 3}}, {'A': 1, 'l': [0, 5]}, {'A': 1, 'l': [0]}, {1: 'x'}, {1: ['a']}, {'1': ['a']}, {None: 1}, {b'a': 1}, {'x': [1], 'm': {'a': 1}}, {'x': ['1'], 'm': None}, {'x': ['q'], 'm': {'a': 'q'}},
        {'k': 'cat', 'n': 1}, {'k': 'dog', 's': 'w'}, {'k': 'cow'}, {'k': 'cat', 'n': 'q'}, {'k': ['cat']}, {'v': 1, 'kids': [{'v': 2, 'kids': []}]}, {'v': 1, 'kids': [{'v': 'q', 'kids': []}]}, SDict(a=1),
        {'2020-01-01': '1.5'}, {'1.5': 1, '2': 2}, {'true': 1}, {'red': 1}, {(1, 2): 3}, types.MappingProxyType({'a': 1}), collections.OrderedDict(a=1, b='x'),
        mk(M1, a=1, b='x'), mk(M1, a='bad', b=3), mk(M2, x=[1], m=None), mk(M2Sub, x=[1], m=None), mk(MX, extra={'q': 1}, a=1), mk(MRoot, root=[1]), D1(1, 'x'), D1('q', 'x'), D2(1), DS(1, 'x'), Attr(a=1, b='x'), Attr(a='1'), Attr(), D1, M1,
        ArgsKwargs((1, 2), {'c': 'q'}), ArgsKwargs((), None), ArgsKwargs((1,), {'b': '2'}), ArgsKwargs((1, 2, 3)), {'a': 1, 'b': 2, 'c': 'q'},
        int, bool, str, object, len, print, object(), ..., NotImplemented, range(3), (i for i in [1, 2]), iter([1]), collections.deque([1, 2]), {1: 2}.keys(), {'a': 1}.values(), {'a': 1}.items(), map(int, ['1']), UNDEF, typing.List[int], Exception('x'),
    ]


JSON_TEXTS = [
    'null', 'true', 'false', '0', '1', '-1', '2', '98', '1.0', '1.5', '-0.0', '1e3', '1E400', '5e-324', '9223372036854775807', '9223372036854775808', '-9223372036854775808', '-9223372036854775809', '1' + '0' * 40, '1.0e20',
    'NaN', 'Infinity', '-Infinity', '""', '"0"', '"1"', '"-1"', '" 1 "', '"1.0"', '"1.5"', '"1_000"', '"true"', '"False"', '"yes"', '"abc"', '"ABC"', '" abc "', '"\\u00e9"', '"é"', '"\\ud83d\\ude00"', '"\\n\\"\\\\"', '"\\u0000"', '"a"', '"b"', '"red"', '"inf"', '"NaN"',
    '"2020-01-01"', '"2020-02-30"', '"2020-01-01T00:00:00"', '"2020-01-01T01:02:03.5Z"', '"2020-01-01 01:02:03.123456+05:30"', '"01:02:03"', '"23:59"', '"P1DT2H"', '"-P1D"', '"1 day, 01:02:03"', '"1+2j"', '"1j"', '"12345678-1234-4678-9234-567812345678"', '"00000000000000000000000000000000"', '"http://x.com"', '"https://a.com,b.com:80/x"', '"http://"', '"[1, 2]"', '"1577836800"', '1577836800', '1577836800.5', '86400',
    '[]', '[1]', '[1, 2]', '["1", "a"]', '["a", "b", "c", "d"]', '[[1.5], []]', '[null]', '[1, "x", true]', '[1, "x"]', '[1, "a", "b", true]', '[1, 2, 3]', '[true, true]', '["a"]', '[1, 1]',
    '{}', '{"a": 1}', '{"a": "1"}', '{"a": "x"}', '{"a": 1, "b": "x"}', '{"a": 1, "b": 2}', '{"a": 1, "z": "q"}', '{"A": 1, "B": 2}', '{"A": 1, "n": {"b": 3}}', '{"A": 1, "l": [0, 5]}', '{"A": 1, "l": [0]}', '{"1": ["a"]}', '{"x": [1], "m": {"a": 1}}', '{"x": ["1"], "m": null}', '{"x": ["q"], "m": {"a": "q"}}',
    '{"k": "cat", "n": 1}', '{"k": "dog", "s": "w"}', '{"k": "cow"}', '{"k": "cat", "n": "q"}', '{"k": ["cat"]}', '{"v": 1, "kids": [{"v": 2, "kids": []}]}', '{"v": 1, "kids": [{"v": "q", "kids": []}]}', '{"2020-01-01": "1.5"}', '{"1.5": 1, "2": 2}', '{"true": 1, "false": 2}', '{"red": 1}', '{"a": 1, "a": 2}', '{"a": "x", "a": 2}', '[{"a": 1}]',
    '', ' ', '[', '[1,', '{"a"', '"abc', 'tru', '1 2', '[1,]', '{"a": 1,}', '01', '+1', '.5', '1.', '"\\x"', '"\\ud800"',
]
