"""C31: failing callbacks leave no trace.  Programs in which the library calls back into user code
(functions, factories, hooks, discriminators, iterators, mappings, attributes, comparisons); every fault
sequence up to two faults is enumerated: exception kind x call number.  After every one of them: the
outcome is the documented one, the inputs are what they were, and the same validator or serializer goes
on like a fresh one (results, errors, and the trace of callbacks with all they can see)."""
import collections.abc, copy, dataclasses, enum, re, warnings
from mc.lib import *
from mc.zoo import *
from pydantic_core import PydanticCustomError, PydanticKnownError, PydanticOmit, PydanticSerializationError, PydanticSerializationUnexpectedValue, PydanticUseDefault

LEVEL = 'fault_enumeration'
RULE = 'every program x entry point x (call number, exception kind), and every pair of call numbers; non-trivial when the fault was raised inside a running validation or serialization'
BOUNDS = {'quick': 'every single fault of 12 kinds, every pair of faults of 2x2 kinds; mutation and aliasing for every catalogue schema x input',
          'thorough': 'every pair of faults of 5x5 kinds, every triple of faults of one kind in the programs of up to 14 calls'}
ASSUME = ['a callback does not change its own arguments',
          'kinds: ValueError, AssertionError, the two pydantic errors, a ValidationError, PydanticOmit, PydanticUseDefault are documented to become part of the result; everything else is the caller\'s']


class Stop(Exception): pass
class Base(BaseException): pass


def other_error():
    try: SchemaValidator(cs.int_schema()).validate_python('other')
    except ValidationError as e: return e


KINDS = {
    'value': lambda: ValueError('v'), 'assert': lambda: AssertionError('a'), 'custom': lambda: PydanticCustomError('cust', 'msg {x}', {'x': 1}),
    'known': lambda: PydanticKnownError('greater_than', {'gt': 3}), 'validation': other_error,
    'omit': lambda: PydanticOmit(), 'default': lambda: PydanticUseDefault(),
    'runtime': lambda: RuntimeError('r'), 'key': lambda: KeyError('k'), 'type': lambda: TypeError('t'), 'attr': lambda: AttributeError('at'),
    'stop': lambda: StopIteration('s'), 'recursion': lambda: RecursionError('rec'), 'base': lambda: Base('b'), 'unicode': lambda: UnicodeDecodeError('utf8', b'x', 0, 1, 'u'),
    'unexpected': lambda: PydanticSerializationUnexpectedValue('unexp'), 'sererr': lambda: PydanticSerializationError('sererr'),
}
SOFT = ('value', 'assert', 'custom', 'known', 'validation', 'unicode')  # UnicodeDecodeError is a ValueError
FLOW = ('omit', 'default')
VKINDS = [k for k in KINDS if k not in ('unexpected', 'sererr')]
SKINDS = [k for k in KINDS if k not in ('known', 'omit', 'default')]


class Env:
    """counts callbacks, raises by plan, keeps the trace"""
    def __init__(self):
        self.arm({})

    def arm(self, plan):
        self.plan, self.n, self.log, self.sites, self.raised = plan, 0, [], [], []

    def tick(self, site, *seen):
        self.n += 1
        self.sites.append(site)
        self.log.append((site,) + tuple(canon(s) for s in seen))
        k = self.plan.get(self.n)
        if k:
            e = KINDS[k]()
            self.raised.append((site, k, e))
            raise e


def infos(i):
    out = []
    for a in ('mode', 'field_name', 'data', 'context', 'include', 'exclude', 'by_alias', 'exclude_unset', 'exclude_defaults', 'exclude_none', 'round_trip', 'serialize_as_any'):
        try: out.append((a, canon(getattr(i, a))))
        except AttributeError: pass
    return out


# --------------------------------------------------------------------------- building blocks
class B:
    """makers of callbacks bound to an environment"""
    def __init__(self, env): self.env = env

    def f1(self, site, fn=lambda v: v):
        def f(v):
            self.env.tick(site, v)
            return fn(v)
        return f

    def f2(self, site, fn=lambda v: v):
        def f(v, i):
            self.env.tick(site, v, infos(i))
            return fn(v)
        return f

    def before(self, s, n='', **k): return cs.with_info_before_validator_function(self.f2('v:before' + n), s, **k)
    def after(self, s, n='', **k): return cs.with_info_after_validator_function(self.f2('v:after' + n), s, **k)
    def plain(self, n='', **k): return cs.with_info_plain_validator_function(self.f2('v:plain' + n), **k)

    def wrap(self, s, n='', **k):
        def f(v, h, i):
            self.env.tick('v:wrap' + n, v, infos(i))
            r = h(v)
            self.env.tick('v:wrapped' + n, r, infos(i))
            return r
        return cs.with_info_wrap_validator_function(f, s, **k)

    def twice(self, s, n='', **k):
        """calls the handler until it succeeds (three times at most)"""
        def f(v, h, i):
            for t in range(3):
                try: return h(v)
                except Exception as e:
                    if t == 2 or isinstance(e, (PydanticOmit, PydanticUseDefault)): raise
        return cs.with_info_wrap_validator_function(f, s, **k)

    def factory(self, n='', v=7):
        def f():
            self.env.tick('d:factory' + n)
            return v
        return f

    def factory_data(self, n='', v=8):
        def f(data):
            self.env.tick('d:factory' + n, data)
            return v
        return f


T = cs.typed_dict_field
MFI = cs.model_field


def fresh_model(name='Mo', **ns):
    return type(name, (Model,), {'__slots__': (), '__dict_': None, **ns})


class Prog:
    def __init__(self, name, make, inputs, ops=('py',), catches=False, swallow=False, slack=False, ctx=None, json=None, ser=False):
        """make(b) -> schema; inputs(b) -> list of fresh inputs; swallow: an alternative or default may hide a soft failure; catches: user code catches Exception"""
        self.name, self.make, self.inputs, self.ops, self.catches, self.swallow, self.slack, self.json, self.ser = name, make, inputs, ops, catches, swallow, slack, json, ser


def rec_schema(b, wrapfn):
    return cs.definitions_schema(cs.definition_reference_schema('n'), [
        wrapfn(cs.typed_dict_schema({'v': T(b.after(cs.int_schema(), ' v')), 'kids': T(cs.with_default_schema(cs.list_schema(cs.definition_reference_schema('n')), default_factory=list))}, ref=None), ref='n')])


TREE = {'v': 1, 'kids': [{'v': 2, 'kids': [{'v': 3}]}, {'v': 4}]}


def shared_tree():
    leaf = {'v': 9}
    return {'v': 1, 'kids': [leaf, {'v': 2, 'kids': [leaf]}, leaf]}


def cyclic():
    x = {'v': 1}
    x['kids'] = [{'v': 2}, x, {'v': 3}]
    return x


class TMap(collections.abc.Mapping):
    def __init__(self, b, d): self.b, self.d = b, d
    def __getitem__(self, k):
        self.b.env.tick('i:getitem', k)
        return self.d[k]
    def __iter__(self):
        self.b.env.tick('i:iter')
        for k in self.d:
            self.b.env.tick('i:next', k)
            yield k
    def __len__(self):
        self.b.env.tick('i:len')
        return len(self.d)
    def items(self):
        self.b.env.tick('i:items')
        return list(self.d.items())


class TMap2(TMap):
    def items(self):
        self.b.env.tick('i:items')
        def g():
            for kv in self.d.items():
                self.b.env.tick('i:nextitem', kv)
                yield kv
        return g()


class TIter:
    def __init__(self, b, xs): self.b, self.xs, self.i = b, xs, 0
    def __iter__(self):
        self.b.env.tick('i:iter')
        return self
    def __next__(self):
        self.b.env.tick('i:next')
        if self.i >= len(self.xs): raise StopIteration
        self.i += 1
        return self.xs[self.i - 1]


class TAttr:
    def __init__(self, _b, /, **d): self.__dict__.update(_b=_b, _d=d)
    def __getattr__(self, k):
        if k.startswith('__'): raise AttributeError(k)
        self._b.env.tick('i:getattr', k)
        try: return self._d[k]
        except KeyError: raise AttributeError(k) from None


class TEq:
    def __init__(self, b, x): self.b, self.x = b, x
    def __eq__(self, o):
        self.b.env.tick('i:eq')
        return isinstance(o, TEq) and o.x == self.x
    def __hash__(self):
        self.b.env.tick('i:hash')
        return hash(self.x)
    def __repr__(self): return f'TEq({self.x})'


def dcls(name='DC', fields=('x', 'y'), **ns):
    return dataclasses.make_dataclass(name, list(fields), namespace=ns)


def progs():
    P = []
    def prog(name, inputs, ops=('py',), **k):
        def deco(make):
            P.append(Prog(name, make, inputs, ops, **k))
            return make
        return deco

    pyjs = ('py', 'json', 'strict')
    d3 = lambda b: [{'a': 1, 'b': 2, 'c': 3}, {'a': 1, 'b': 'x', 'c': 3}, {'a': 1, 'c': 3, 'z': 0}]

    @prog('typed dict of functions', d3, pyjs + ('strings',))
    def _(b):
        I = cs.int_schema
        return cs.typed_dict_schema({'a': T(b.before(I(), ' a')), 'b': T(cs.with_default_schema(b.after(I(), ' b'), default_factory=b.factory_data(), default_factory_takes_data=True)), 'c': T(b.wrap(b.plain(' c'), ' c')), 'd': T(cs.with_default_schema(I(), default_factory=b.factory(' d')))},
                                    extra_behavior='allow', extras_schema=b.after(cs.any_schema(), ' extra'))

    @prog('model with hooks', d3, pyjs + ('attrs', 'init'))
    def _(b):
        def post(self, ctx): b.env.tick('m:post_init', dict(self.__dict__), ctx)
        C = fresh_model(post=post)
        I = cs.int_schema
        return b.wrap(b.after(cs.model_schema(C, b.wrap(cs.model_fields_schema({'a': MFI(b.after(I(), ' a')), 'b': MFI(cs.with_default_schema(b.before(I(), ' b'), default_factory=b.factory_data(), default_factory_takes_data=True)), 'c': MFI(b.plain(' c'))}), ' fields'), post_init='post'), ' model'), ' model')

    @prog('model custom init', d3, pyjs)
    def _(b):
        C = fresh_model()
        I = cs.int_schema
        s = cs.model_schema(C, cs.model_fields_schema({'a': MFI(b.after(I(), ' a')), 'b': MFI(cs.with_default_schema(I(), default=4)), 'c': MFI(b.after(I(), ' c'))}), custom_init=True)
        box = SchemaValidator(s)
        def __init__(self, **kw):
            b.env.tick('m:init', kw)
            box.validate_python(kw, self_instance=self)
            b.env.tick('m:inited', self)
        C.__init__ = __init__
        return cs.list_schema(b.after(s, ' model')) if False else b.after(s, ' model')

    @prog('root model', lambda b: [[1, 2], [1, 'x']], pyjs)
    def _(b):
        return cs.list_schema(cs.model_schema(fresh_model(), b.after(cs.int_schema(), ' root'), root_model=True))

    @prog('dataclass', lambda b: [{'x': 1, 'y': 2}, {'x': 'q', 'y': 2}, ArgsKwargs((1,), {'y': 2})], ('py', 'json', 'init'))
    def _(b):
        def post(self, y): b.env.tick('m:post_init', dict(self.__dict__), y)
        D = dcls(fields=('x',), __post_init__=post)
        return b.after(cs.dataclass_schema(D, b.wrap(cs.dataclass_args_schema('DC', [cs.dataclass_field('x', b.before(cs.int_schema(), ' x')), cs.dataclass_field('y', b.after(cs.int_schema(), ' y'), init_only=True)]), ' args'), ['x'], post_init=True), ' dc')

    for kind, mk in (('list', lambda s: cs.list_schema(s)), ('list fail fast', lambda s: cs.list_schema(s, fail_fast=True)), ('set', lambda s: cs.set_schema(s)), ('frozenset', lambda s: cs.frozenset_schema(s)),
                     ('tuple', lambda s: cs.tuple_schema([s, s, s])), ('variadic', lambda s: cs.tuple_schema([s, s, s], variadic_item_index=1))):
        P.append(Prog(f'items of {kind}', (lambda mk: lambda b: mk(b.after(b.before(cs.int_schema()))))(mk), lambda b: [[1, 2, 3], (1, 'x', 3), {1, 2, 3}], pyjs))

    @prog('dict', lambda b: [{'a': 1, 'b': 2}, {'a': 'x', 'b': 2}], pyjs + ('strings',))
    def _(b): return cs.dict_schema(b.after(cs.str_schema(), ' key'), b.wrap(cs.int_schema(), ' value'))

    @prog('nested containers', lambda b: [{'a': [{'k': [1, 2]}, {'k': [3]}]}], pyjs)
    def _(b): return cs.typed_dict_schema({'a': T(cs.list_schema(b.wrap(cs.dict_schema(cs.str_schema(), cs.list_schema(b.after(cs.int_schema()))), ' d')))})

    for mode in ('smart', 'left_to_right'):
        def mku(b, mode=mode):
            I = cs.int_schema
            C, E = fresh_model('Ca'), fresh_model('Cb')
            return cs.union_schema([b.after(cs.model_schema(C, cs.model_fields_schema({'a': MFI(b.after(I(), ' Ca.a')), 'b': MFI(b.before(I(), ' Ca.b'))})), ' Ca'),
                                    cs.model_schema(E, cs.model_fields_schema({'a': MFI(b.after(I(), ' Cb.a')), 'c': MFI(cs.with_default_schema(I(), default_factory=b.factory_data(' Cb.c'), default_factory_takes_data=True))})),
                                    b.after(cs.dict_schema(), ' dict')], mode=mode)
        P.append(Prog(f'union {mode}', mku, lambda b: [{'a': 1, 'b': 2}, {'a': 1}, {'a': 'x'}], pyjs, swallow=True))

    @prog('union of scalars', lambda b: ['1', 1, [1, '2']], ('py', 'json', 'strict'), swallow=True)
    def _(b):
        u = cs.union_schema([b.after(cs.int_schema(), ' int'), b.wrap(cs.str_schema(), ' str')])
        return cs.union_schema([u, cs.list_schema(u)])

    @prog('tagged union', lambda b: [{'k': 'x', 'n': 1}, {'k': 'y', 's': 'a'}, {'k': 'q'}], pyjs)
    def _(b):
        def disc(v):
            b.env.tick('x:discriminator', v)
            return v['k']
        return cs.tagged_union_schema({'x': b.after(cs.typed_dict_schema({'k': T(cs.str_schema()), 'n': T(b.after(cs.int_schema(), ' n'))}), ' X'), 'y': cs.typed_dict_schema({'k': T(cs.str_schema()), 's': T(b.plain(' s'))})}, disc)

    @prog('recursive', lambda b: [copy.deepcopy(TREE), shared_tree(), cyclic()], pyjs)
    def _(b): return rec_schema(b, lambda s, ref: b.wrap(s, ref=ref))

    @prog('recursive retried', lambda b: [copy.deepcopy(TREE), shared_tree()], pyjs, catches=True, swallow=True)
    def _(b): return rec_schema(b, lambda s, ref: b.twice(s, ref=ref))

    @prog('retried fields', d3, pyjs + ('attrs',), catches=True, swallow=True)
    def _(b):
        C = fresh_model()
        I = cs.int_schema
        return b.twice(cs.model_schema(C, b.twice(cs.model_fields_schema({'a': MFI(b.twice(b.after(I(), ' a'))), 'b': MFI(cs.with_default_schema(b.after(I(), ' b'), default_factory=b.factory_data(), default_factory_takes_data=True)), 'c': MFI(b.after(I(), ' c'))}))))

    @prog('retried dataclass', lambda b: [{'x': 1, 'y': 2}], ('py', 'json'), catches=True, swallow=True)
    def _(b):
        return b.twice(cs.dataclass_schema(dcls(), b.twice(cs.dataclass_args_schema('DC', [cs.dataclass_field('x', b.after(cs.int_schema(), ' x')), cs.dataclass_field('y', b.after(cs.int_schema(), ' y'))])), ['x', 'y']))

    @prog('retried union', lambda b: [{'a': 1, 'b': 2}, {'a': 1}], pyjs, catches=True, swallow=True)
    def _(b):
        I = cs.int_schema
        mk2 = lambda n, *f: cs.typed_dict_schema({k: T(b.after(I(), f' {n}.{k}')) for k in f}, extra_behavior='forbid')
        return b.twice(cs.union_schema([mk2('A', 'a', 'b'), b.twice(mk2('B', 'a')), cs.dict_schema()]))

    @prog('generator', lambda b: [[1, 2, 3], TIter(b, [1, 2, 3])], ('gen',))
    def _(b): return cs.generator_schema(b.after(cs.int_schema()))

    @prog('generator of trees', lambda b: [[copy.deepcopy(TREE), {'v': 5}]], ('gen',))
    def _(b):
        r = rec_schema(b, lambda s, ref: b.wrap(s, ref=ref))
        return cs.definitions_schema(cs.generator_schema(cs.definition_reference_schema('n')), r['definitions'])

    @prog('arguments and call', lambda b: [ArgsKwargs((1, 2), {'c': 3}), ArgsKwargs((1, 'x'), {'c': 3}), ArgsKwargs((1, 2, 3, 4), {'c': 1, 'z': 5})], ('py',))
    def _(b):
        I = cs.int_schema
        def fn(*a, **k):
            b.env.tick('d:called', a, k)
            return len(a)
        ap = cs.arguments_parameter
        return cs.call_schema(cs.arguments_schema([ap('a', b.after(I(), ' a')), ap('b', b.before(I(), ' b')), ap('c', cs.with_default_schema(I(), default_factory=b.factory()), mode='keyword_only')], var_args_schema=b.after(I(), ' args'), var_kwargs_schema=b.after(I(), ' kwargs')),
                              fn, return_schema=b.after(I(), ' return'))

    @prog('arguments v3', lambda b: [{'a': 1, 'b': [2, 3], 'k': {'z': 4}}, ArgsKwargs((1, 2, 3), {'z': 4})], ('py', 'json'))
    def _(b):
        I = cs.int_schema
        ap = cs.arguments_v3_parameter
        return cs.arguments_v3_schema([ap('a', b.after(I(), ' a'), mode='positional_only'), ap('b', b.after(I(), ' b'), mode='var_args'), ap('k', b.after(I(), ' k'), mode='var_kwargs_uniform')])

    for on_error in ('default', 'omit'):
        def mkd(b, on_error=on_error):
            s = b.wrap(b.after(cs.int_schema()), ' w')
            w = cs.with_default_schema(s, default_factory=b.factory(), on_error='default') if on_error == 'default' else cs.with_default_schema(s, on_error='omit')
            return cs.typed_dict_schema({'a': T(cs.list_schema(w)), 'b': T(w, required=False), 'c': T(cs.dict_schema(cs.str_schema(), w))})
        P.append(Prog(f'on_error={on_error}', mkd, lambda b: [{'a': [1, 'x', 2], 'b': 3, 'c': {'k': 1, 'l': 'x'}}], pyjs, swallow=True))

    @prog('default validated', lambda b: [{}, {'a': 1}], pyjs)
    def _(b): return cs.typed_dict_schema({'a': T(cs.with_default_schema(b.wrap(cs.int_schema()), default_factory=b.factory(), validate_default=True)), 'b': T(cs.with_default_schema(b.after(cs.int_schema()), default='5', validate_default=True))})

    @prog('enum missing', lambda b: [[1, 5, 'zz', 6]], pyjs)
    def _(b):
        E = enum.Enum('E', {'a': 1, 'b': 2})
        def missing(v):
            b.env.tick('x:missing', v)
            return E.b if v == 5 else None
        return cs.list_schema(cs.enum_schema(E, list(E.__members__.values()), missing=missing), fail_fast=False)

    @prog('chain, nullable, lax or strict, json or python, custom error', lambda b: [[1, None, 'x', '2']], pyjs)
    def _(b):
        I = cs.int_schema
        return cs.list_schema(cs.nullable_schema(cs.chain_schema([cs.lax_or_strict_schema(b.after(I(), ' lax'), b.after(I(), ' strict')), cs.custom_error_schema(b.after(cs.json_or_python_schema(b.after(I(), ' js'), b.after(I(), ' py'))), 'my', custom_error_message='mine')])))

    @prog('json string', lambda b: [['{"a": [1, 2]}', '[', '{"a": [3]}']], ('py',))
    def _(b): return cs.list_schema(b.wrap(cs.json_schema(cs.typed_dict_schema({'a': T(cs.list_schema(b.after(cs.int_schema())))}))))

    # ---- user code in the input
    @prog('mapping', lambda b: [TMap(b, {'a': 1, 'b': 2}), TMap2(b, {'a': 1, 'b': 2, 'z': 3})], ('py',), slack=True)
    def _(b): return cs.typed_dict_schema({'a': T(cs.int_schema()), 'b': T(b.after(cs.int_schema()))}, extra_behavior='allow')

    @prog('mapping as dict', lambda b: [TMap(b, {'a': 1, 'b': 2}), TMap2(b, {'a': 1, 'b': 2})], ('py',), slack=True)
    def _(b): return cs.dict_schema(cs.str_schema(), b.after(cs.int_schema()))

    @prog('mapping to model', lambda b: [TMap(b, {'a': 1, 'b': 2})], ('py',), slack=True)
    def _(b): return cs.model_schema(fresh_model(), cs.model_fields_schema({'a': MFI(cs.int_schema(), validation_alias=['q', 'a']), 'b': MFI(b.after(cs.int_schema()), validation_alias=[['b'], ['z', 0]])}, extra_behavior='allow'))

    @prog('iterator', lambda b: [TIter(b, [1, 2, 3])], ('py',), slack=True)
    def _(b): return cs.union_schema([cs.list_schema(b.after(cs.int_schema()), max_length=2), cs.generator_schema()], mode='left_to_right') if False else cs.list_schema(b.after(cs.int_schema()))

    for kind, mk in (('set', cs.set_schema), ('frozenset', cs.frozenset_schema), ('tuple', lambda s: cs.tuple_schema([s], variadic_item_index=0)), ('union', lambda s: cs.union_schema([cs.set_schema(s), cs.list_schema(s)]))):
        P.append(Prog(f'iterator to {kind}', (lambda mk: lambda b: mk(b.after(cs.int_schema())))(mk), lambda b: [TIter(b, [1, 2, 3]), {1: 2, 2: 3}.values()], ('py',), slack=True, swallow=kind == 'union'))

    @prog('attributes', lambda b: [TAttr(b, a=1, b=TAttr(b, x=2)), TAttr(b, a=1)], ('attrs',), slack=True)
    def _(b):
        return cs.model_schema(fresh_model(), cs.model_fields_schema({'a': MFI(b.after(cs.int_schema())), 'b': MFI(cs.with_default_schema(cs.model_schema(fresh_model('In'), cs.model_fields_schema({'x': MFI(cs.int_schema())})), default=None)), 'c': MFI(cs.with_default_schema(cs.any_schema(), default=3), validation_alias=['c', 'cc'])}))

    @prog('hashing and comparing', lambda b: [[TEq(b, 1), TEq(b, 2), TEq(b, 1)], (TEq(b, 1), TEq(b, 9))], ('py',), slack=True)
    def _(b): return cs.set_schema(cs.union_schema([cs.is_instance_schema(TEq), cs.int_schema()]))

    @prog('literal', lambda b: [[TEq(b, 1), TEq(b, 3), 'x']], ('py',), slack=True)
    def _(b): return cs.list_schema(cs.literal_schema([TEq(b, 1), TEq(b, 2), 'x']))

    @prog('dict keys', lambda b: [[(TEq(b, 1), 1), (TEq(b, 1), 2)]], ('py',), slack=True)
    def _(b): return cs.list_schema(cs.tuple_schema([cs.any_schema(), b.after(cs.int_schema())]))

    @prog('unhashable keys', lambda b: [{'a': 1, 'b': 2}], ('py',), slack=True)
    def _(b):
        def f(v):
            b.env.tick('v:key', v)
            return TEq(b, v)
        return cs.dict_schema(cs.no_info_after_validator_function(f, cs.str_schema()), cs.int_schema())
    return P


# --------------------------------------------------------------------------- running
ENTRY = {
    'py': lambda v, x: v.validate_python(x), 'strict': lambda v, x: v.validate_python(x, strict=True, context={'c': 1}), 'attrs': lambda v, x: v.validate_python(x, from_attributes=True),
    'json': lambda v, x: v.validate_json(x), 'strings': lambda v, x: v.validate_strings(x), 'gen': lambda v, x: drain(v.validate_python(x)),
}


def drain(it):
    """a failing item does not end an iterator: keep going, keep what happens"""
    out = []
    for _ in range(12):
        try: out.append(('item', canon(next(it))))
        except StopIteration as e:
            if e.args == ('s',): out.append(('stopped', 's')); raise
            break
        except ValidationError as e: out.append(('err', errs(e, with_msg=True)))
    return out


def call(env, v, op, x, plan):
    """(outcome kind, canonical, exception object, log, sites, raised)"""
    env.arm(plan)
    try:
        r = ENTRY[op](v, x)
    except ValidationError as e:
        o = ('err', errs(e, with_msg=True)), e
    except BaseException as e:
        if isinstance(e, (KeyboardInterrupt, SystemExit)): raise
        guard(e, (op, plan))
        o = ('exc', type(e).__name__, str(e)), e
    else:
        o = ('ok', canon(r)), r
    return o[0], o[1], env.log, env.sites, env.raised


def snapshot(x, seen=None, d=0):
    """identity and contents of everything reachable"""
    if seen is None: seen = {}
    if id(x) in seen or d > 12: return id(x)
    t = type(x)
    if t in (int, str, bytes, float, bool, type(None)): return (id(x), x if x == x else 'nan')
    seen[id(x)] = x
    if t in (list, tuple): return (id(x), t.__name__, tuple(snapshot(i, seen, d + 1) for i in x))
    if t in (set, frozenset): return (id(x), t.__name__, tuple(sorted(id(i) for i in x)))
    if t is dict: return (id(x), 'dict', tuple((snapshot(k, seen, d + 1), snapshot(v, seen, d + 1)) for k, v in x.items()))
    if t is ArgsKwargs: return (id(x), 'AK', snapshot(x.args, seen, d + 1), snapshot(x.kwargs, seen, d + 1))
    if isinstance(x, type) or callable(x): return id(x)
    out = [id(x), t.__name__]
    if isinstance(x, (list, tuple, set, frozenset, dict, bytearray)):
        b = next(b for b in (list, tuple, set, frozenset, dict, bytearray) if isinstance(x, b))
        out.append(snapshot(b(x), {**seen}, d + 1)[2:] if b is not bytearray else bytes(x))
    if type(x).__module__ == __name__ and t.__name__.startswith('T') and 'b' in object.__getattribute__(x, '__dict__'): return tuple(out)
    for a in ('__dict__', '__pydantic_fields_set__', '__pydantic_extra__', '__pydantic_private__'):
        try: y = object.__getattribute__(x, a)
        except AttributeError: continue
        if a == '__dict__' and '_b' in y: continue
        out.append((a, snapshot(y, seen, d + 1)))
    return tuple(out)


def usable(op, x):
    if op == 'json':
        import json
        try: return json.dumps(x)
        except (TypeError, ValueError): return None
    if op == 'strings':
        if type(x) is not dict: return None
        return {k: str(v) for k, v in x.items()}
    return x


def chain_of(e):
    while e is not None:
        yield e
        e = e.__cause__


def judge(ctx, p, key, o, res, raised, base, last_site, sites, info):
    """the outcome against the documentation; raised: [(site, kind, exception)]"""
    if not raised: return
    site, kind, exc = raised[-1]
    s = site[0]
    if o[0] == 'exc' and o[1] in ('SchemaError', 'RuntimeError') and kind in FLOW: return  # documented: uncaught omit / use default
    if p.catches: return
    hard = kind not in SOFT and kind not in FLOW
    if s in 'vm':
        if hard:
            ctx.check(res is exc, key + ': the exception was replaced or swallowed', outcome=o, **info)
            ctx.check(sites[-1] == site, key + ': callbacks were called after the failure', sites=sites, **info)
        elif kind in FLOW:
            ctx.check(o[0] in ('ok', 'err'), key + ': control flow exception escaped', outcome=o, **info)
        else:
            if 'gen' in p.ops:
                ctx.check(o[0] == 'ok' and "'err'" in str(o[1]), key + ': validation failure of an item became something else', outcome=o, **info)
                return
            ctx.check(o[0] in ('ok', 'err') if p.swallow else o[0] == 'err', key + ': validation failure became something else', outcome=o, **info)
            if len(raised) > 1: return
            if o[0] == 'err' and not p.swallow and kind in ('value', 'assert', 'unicode'):
                got = [e['ctx']['error'] for e in res.errors() if 'ctx' in e and 'error' in e['ctx']]
                if 'custom error' not in p.name:
                    ctx.check(any(g is exc for g in got), key + ': the error does not carry the exception', got=got, outcome=o, **info)
            if o[0] == 'err' and not p.swallow and 'custom error' not in p.name and kind in ('custom', 'known', 'validation'):
                t = {'custom': 'cust', 'known': 'greater_than', 'validation': 'int_parsing'}[kind]
                ctx.check(any(x[0] == t for x in o[1]), key + ': the error is not the one raised', outcome=o, **info)
    elif s == 'd':
        ctx.check(res is exc or not hard and o[0] == 'err', key + ': the exception of a factory or called function was replaced or swallowed', outcome=o, **info)
    elif s == 'x' and 'discriminator' in site:
        ctx.check(res is exc or not hard and o[0] == 'err', key + ': the exception of a discriminator was replaced or swallowed', outcome=o, **info)
    elif s == 'x':
        ctx.check(o[0] == 'err', key + ': a failing missing function is a failing value', outcome=o, **info)
    else:
        ctx.check(o[0] in ('ok', 'err') or res is exc or exc in list(chain_of(res)), key + ': the exception was replaced', outcome=o, **info)


def one(ctx, p, i, op, plan, kindname, base):
    """run with the plan on a used validator, then everything again without faults: same as base"""
    env, v, b = p.live
    x0 = p.inputs(b)[i]
    x = usable(op, x0)
    snap = snapshot(x0)
    o, res, log, sites, raised = call(env, v, op, x, plan)
    key = f'{p.name} | {op}: {kindname}'
    where = ' at ' + '+'.join(r[0] for r in raised) if raised else ''
    info = dict(input=i, plan=str(plan), where=where)
    site = raised[-1][0] if raised else '-'
    if raised:
        ctx.ev(f'{site[:2]}{raised[-1][1]} -> {o[0]}', (p.name, i, op, str(plan)))
    if len(raised) == len(plan): judge(ctx, p, key, o, res, raised, base, site, sites, info)
    if p.catches and raised and base[i, op][0][0] == 'ok' and len(plan) == 1 and kindname not in FLOW + ('base',) and ('union' not in p.name or kindname not in SOFT):
        # the handler was called again: nothing of the failed attempt is left
        k = len(base[i, op][1]) - list(plan)[0] + 1
        ctx.check(o == base[i, op][0], key + ': the second attempt ends differently', got=o, want=base[i, op][0], **info)
        ctx.check(log[-k:] == base[i, op][1][-k:], key + ': the second attempt calls back differently', got=str(log[-k:])[:600], want=str(base[i, op][1][-k:])[:600], **info)
    ctx.check(snapshot(x0) == snap, key + ': the input was changed', **info)
    # the same validator goes on as before
    for j, opj in ((i, op), p.probe):
        xj = usable(opj, p.inputs(b)[j])
        got = call(env, v, opj, xj, {})
        want = base[j, opj]
        ctx.check(got[0] == want[0], key + ': the next call ends differently', got=got[0], want=want[0], **info)
        ctx.check(got[2] == want[1], key + ': the next call calls back differently', got=str(got[2])[:600], want=str(want[1])[:600], **info)
    return o, log, sites


def explore_prog(ctx, p):
    env = Env()
    b = B(env)
    env.arm({})
    v = SchemaValidator(p.make(b))
    p.live = (env, v, b)
    base, calls = {}, []
    n = len(p.inputs(b))
    for op in p.ops:
        if op == 'init': continue
        for i in range(n):
            x = usable(op, p.inputs(b)[i])
            if x is None: continue
            env2 = Env()
            b2 = B(env2)
            o, res, log, sites, _ = call(env2, SchemaValidator(p.make(b2)), op, usable(op, p.inputs(b2)[i]), {})
            base[i, op] = (o, log, sites)
            calls.append((i, op, len(sites)))
    p.probe = max(calls, key=lambda c: c[2])[:2]
    for i, op, k in calls:
        kinds = VKINDS
        for kind in kinds:
            for at in range(1, k + 1):
                ctx.case(p.name, op, i, kind, at)
                p1 = one(ctx, p, i, op, {at: kind}, kind, base)
                # fresh validator, same plan: a used validator and a fresh one agree
                env2 = Env()
                b2 = B(env2)
                f = call(env2, SchemaValidator(p.make(b2)), op, usable(op, p.inputs(b2)[i]), {at: kind})
                ctx.check((f[0], f[2]) == (p1[0], p1[1]), f'{p.name} | {op}: {kind}: used and fresh validators differ', fresh=f[0], used=p1[0])
        # two faults: the second one counts callbacks of the run in which the first one happened
        k2 = ('value', 'runtime') if ctx.quick else ('value', 'custom', 'runtime', 'omit', 'recursion')
        for a in k2:
            for at in range(1, k + 1):
                m = len(call(env, v, op, usable(op, p.inputs(b)[i]), {at: a})[3])
                for c in k2:
                    for at2 in range(at + 1, m + 1):
                        ctx.case(p.name, op, i, a, at, c, at2)
                        one(ctx, p, i, op, {at: a, at2: c}, f'{a}+{c}', base)
        if not ctx.quick and k <= 14:
            for a in range(1, k + 1):
                for c in range(a + 1, k + 4):
                    for d in range(c + 1, k + 7):
                        ctx.case(p.name, op, i, 'value', a, c, d)
                        one(ctx, p, i, op, {a: 'value', c: 'value', d: 'value'}, 'value x3', base)



# --------------------------------------------------------------------------- serialization
class SProg:
    def __init__(self, name, make, values, flags=({},), catches=False, swallow=False, gen=False):
        self.name, self.make, self.values, self.flags, self.catches, self.swallow, self.gen = name, make, values, flags, catches, swallow, gen


class SB(B):
    def splain(self, n='', fn=lambda v: v, **k):
        def f(v, i):
            self.env.tick('s:plain' + n, v, infos(i))
            return fn(v)
        return cs.plain_serializer_function_ser_schema(f, info_arg=True, **k)

    def swrap(self, n='', **k):
        def f(v, h, i):
            self.env.tick('s:wrap' + n, v, infos(i))
            r = h(v)
            self.env.tick('s:wrapped' + n, r, infos(i))
            return r
        return cs.wrap_serializer_function_ser_schema(f, info_arg=True, **k)

    def stwice(self, n='', **k):
        def f(v, h):
            for t in range(3):
                try: return h(v)
                except Exception as e:
                    if t == 2: raise
        return cs.wrap_serializer_function_ser_schema(f, **k)

    def sfield(self, n='', **k):
        def f(m, v, i):
            self.env.tick('s:field' + n, m, v, infos(i))
            return v
        return cs.plain_serializer_function_ser_schema(f, info_arg=True, is_field_serializer=True, **k)

    def prop(self, n, x):
        def f(m):
            self.env.tick('p:' + n)
            return x
        return property(f)


class TStr:
    def __init__(self, b, x): self.b, self.x = b, x
    def __str__(self):
        self.b.env.tick('t:str')
        return str(self.x)
    def __format__(self, f):
        self.b.env.tick('t:format', f)
        return f'<{self.x}>'
    def __hash__(self): return hash(self.x)
    def __eq__(self, o): return isinstance(o, TStr) and o.x == self.x
    def __repr__(self): return f'TStr({self.x})'


def minst(C, d, extra=None):
    m = C.__new__(C)
    object.__setattr__(m, '__dict__', d); object.__setattr__(m, '__pydantic_extra__', extra); object.__setattr__(m, '__pydantic_fields_set__', set(d)); object.__setattr__(m, '__pydantic_private__', None)
    return m


def sprogs():
    P = []
    def prog(name, **k):
        def deco(mk):
            P.append(SProg(name, *mk, **k) if isinstance(mk, tuple) else SProg(name, mk.make, mk.values, **k))
            return mk
        return deco
    I = cs.int_schema
    ALLF = ({}, {'exclude_none': True, 'by_alias': True}, {'include': {'a': True, 'c': True, 'x': True, 'k': True, 0: True, 2: True}, 'context': {'c': 1}}, {'serialize_as_any': True})

    class ModelP:
        def make(b):
            C = b.C = fresh_model(c=b.prop('c', 5), e=b.prop('e', None))
            return cs.model_schema(C, cs.model_fields_schema({'a': MFI(I(serialization=b.splain(' a', lambda v: v + 1))), 'b': MFI(cs.nullable_schema(I(), serialization=b.swrap(' b')), serialization_alias='B'), 'd': MFI(I(serialization=b.sfield(' d', return_schema=cs.int_schema(serialization=b.splain(' ret')))))},
                                   computed_fields=[cs.computed_field('c', I(serialization=b.splain(' c'))), cs.computed_field('e', cs.nullable_schema(I()))], extra_behavior='allow', extras_schema=cs.any_schema(serialization=b.swrap(' extra'))), extra_behavior='allow', serialization=b.swrap(' model'))
        def values(b): return [minst(b.C, {'a': 1, 'b': 2, 'd': 3}, {'x': 1}), minst(b.C, {'a': 1, 'b': None, 'd': 'q'})]
    prog('model', flags=ALLF)(ModelP)

    class Containers:
        def make(b):
            f = lambda n: I(serialization=b.splain(n))
            return cs.typed_dict_schema({'a': T(cs.list_schema(f(' list'))), 'c': T(cs.dict_schema(cs.str_schema(serialization=b.splain(' key')), f(' value'))), 'k': T(cs.tuple_schema([f(' t0'), cs.str_schema(serialization=b.swrap(' t1'))])), 'x': T(cs.set_schema(f(' set')))})
        def values(b): return [{'a': [1, 2], 'c': {'k': 1, 'l': 2}, 'k': (1, 'x'), 'x': {3}}]
    prog('containers', flags=ALLF)(Containers)

    class Rec:
        def make(b):
            return cs.definitions_schema(cs.definition_reference_schema('n'), [cs.typed_dict_schema({'v': T(I(serialization=b.splain(' v'))), 'kids': T(cs.list_schema(cs.definition_reference_schema('n')), required=False)}, ref='n', serialization=b.swrap(' n'))])
        def values(b): return [copy.deepcopy(TREE), shared_tree(), cyclic()]
    prog('recursive')(Rec)

    class RecTwice:
        def make(b):
            return cs.definitions_schema(cs.definition_reference_schema('n'), [cs.typed_dict_schema({'v': T(I(serialization=b.splain(' v'))), 'kids': T(cs.list_schema(cs.definition_reference_schema('n')), required=False)}, ref='n', serialization=b.stwice(' n'))])
        def values(b): return [copy.deepcopy(TREE), shared_tree()]
    prog('recursive retried', catches=True)(RecTwice)

    class ModelTwice:
        def make(b):
            C = b.C = fresh_model(c=b.prop('c', 5))
            return cs.model_schema(C, cs.model_fields_schema({'a': MFI(I(serialization=b.splain(' a'))), 'b': MFI(cs.list_schema(I(serialization=b.splain(' b')), serialization=b.stwice(' bs')))}, computed_fields=[cs.computed_field('c', I(serialization=b.splain(' c')))]), serialization=b.stwice(' model'))
        def values(b): return [minst(b.C, {'a': 1, 'b': [2, 3]})]
    prog('model retried', catches=True, flags=({}, {'exclude_none': True, 'serialize_as_any': True}))(ModelTwice)

    class UnionP:
        def make(b):
            Ca, Cb = b.C = fresh_model('Ca'), fresh_model('Cb')
            return cs.list_schema(cs.union_schema([I(serialization=b.splain(' int')), cs.str_schema(serialization=b.swrap(' str')), cs.model_schema(Ca, cs.model_fields_schema({'a': MFI(I(serialization=b.splain(' Ca')))})), cs.model_schema(Cb, cs.model_fields_schema({'b': MFI(I(serialization=b.splain(' Cb')))}))]))
        def values(b): return [[1, 'x'], [minst(b.C[0], {'a': 1}), minst(b.C[1], {'b': 1})], [None, 1.5]]
    prog('union', swallow=True)(UnionP)

    class Tagged:
        def make(b):
            def disc(v):
                b.env.tick('x:discriminator', v)
                return v['k']
            return cs.list_schema(cs.tagged_union_schema({'x': cs.typed_dict_schema({'k': T(cs.str_schema()), 'n': T(I(serialization=b.splain(' n')))}), 'y': cs.typed_dict_schema({'k': T(cs.str_schema()), 's': T(cs.str_schema(serialization=b.swrap(' s')))})}, disc))
        def values(b): return [[{'k': 'x', 'n': 1}, {'k': 'y', 's': 'a'}]]
    prog('tagged union', swallow=True)(Tagged)

    class Gen:
        def make(b): return cs.generator_schema(I(serialization=b.splain(' item')))
        def values(b): return [TIter(b, [1, 2, 3])]
    prog('generator', gen=True)(Gen)

    class Unknown:
        def make(b): return cs.any_schema()
        def values(b): return [[TStr(b, 1), {'k': TStr(b, 2)}], {'a': object(), 'b': [{1, 2}, object()]}]
    def fb(b):
        def f(v):
            b.env.tick('f:fallback')
            return 'fb'
        return f
    prog('unknown objects', flags=({'fallback': fb}, {'fallback': fb, 'serialize_as_any': True}))(Unknown)

    class Strings:
        def make(b): return cs.list_schema(cs.any_schema(serialization=cs.to_string_ser_schema()))
        def values(b): return [[TStr(b, 1), TStr(b, 2)]]
    prog('to string')(Strings)

    class Formats:
        def make(b): return cs.typed_dict_schema({'a': T(cs.any_schema(serialization=cs.format_ser_schema('x', when_used='always'))), 'b': T(cs.dict_schema(cs.any_schema(serialization=cs.to_string_ser_schema(when_used='always')), cs.any_schema()))})
        def values(b): return [{'a': TStr(b, 1), 'b': {TStr(b, 2): 1, TStr(b, 3): 2}}]
    prog('format')(Formats)

    class DC:
        def make(b):
            D = b.C = dcls(c=b.prop('c', 5))
            return cs.dataclass_schema(D, cs.dataclass_args_schema('DC', [cs.dataclass_field('x', I(serialization=b.splain(' x'))), cs.dataclass_field('y', cs.any_schema(serialization=b.swrap(' y')))], computed_fields=[cs.computed_field('c', I())]), ['x', 'y'], serialization=b.swrap(' dc'))
        def values(b): return [b.C(1, [2])]
    prog('dataclass', flags=ALLF[:2])(DC)

    class JsonS:
        def make(b): return cs.typed_dict_schema({'a': T(cs.json_schema(cs.list_schema(I(serialization=b.splain())))), 'b': T(cs.definitions_schema(cs.definition_reference_schema('q'), [I(ref='q', serialization=b.splain(' q'))]))})
        def values(b): return [{'a': [1, 2], 'b': 3}]
    prog('json and definitions', flags=({}, {'round_trip': True}))(JsonS)

    class Excl:
        def make(b):
            C = b.C = fresh_model(c=b.prop('c', 5))
            def eq(x): return TEq(b, x)
            return cs.model_schema(C, cs.model_fields_schema({'a': MFI(cs.with_default_schema(cs.any_schema(serialization=cs.plain_serializer_function_ser_schema(lambda v: 1)), default=eq(1))), 'b': MFI(cs.with_default_schema(cs.any_schema(serialization=cs.plain_serializer_function_ser_schema(lambda v: 2)), default=eq(2)))}))
        def values(b): return [minst(b.C, {'a': TEq(b, 1), 'b': TEq(b, 3)})]
    prog('defaults compared', flags=({'exclude_defaults': True},))(Excl)
    return P


SMODES = ('python', 'json', 'to_json')


def scall(env, b, s, mode, x, flags, plan):
    env.arm(plan)
    kw = {k: (v(b) if callable(v) else v) for k, v in flags.items()}
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        try:
            if mode == 'to_json': r = s.to_json(x, **kw)
            else:
                r = s.to_python(x, mode=mode, **kw)
                if type(r).__name__ == 'SerializationIterator': r = sdrain(r)
        except BaseException as e:
            if isinstance(e, (KeyboardInterrupt, SystemExit)): raise
            guard(e, (mode, plan))
            o, r = ('exc', type(e).__name__, re.sub('0x[0-9a-f]+', '', str(e))), e
        else:
            o = ('ok', canon(r))
    return (o, tuple(re.sub('0x[0-9a-f]+', '', str(i.message)) for i in w)), r, env.log, env.sites, env.raised


def sdrain(it):
    out = []
    for _ in range(8):
        try: out.append(('item', canon(next(it))))
        except StopIteration: break
        except PydanticSerializationError as e: out.append(('err', str(e)))
    return out


def sjudge(ctx, p, key, o, res, raised, sites, info, base):
    site, kind, exc = raised[-1]
    s = site[0]
    o = o[0]
    text = 'RecursionError' if kind == 'recursion' else re.sub('0x[0-9a-f]+', '', str(exc))
    if p.catches or p.swallow or p.gen or kind == 'unexpected' and s != 's': return
    if s == 's':
        if kind == 'unexpected': return ctx.check(o[0] == 'ok' or 'Unable to serialize unknown type' in o[-1] or 'Circular reference' in o[-1], key + ': an unexpected value is a warning', outcome=o, **info)
        ctx.check(o[0] == 'exc' and o[1] == 'PydanticSerializationError', key + ': not a serialization error', outcome=o, **info)
        ctx.check(text in str(o[-1]) or str(exc) in str(o[-1]), key + ': the error does not tell the exception', outcome=o, **info)
        ctx.check(sites[-1] == site, key + ': callbacks were called after the failure', sites=sites, **info)
    else:
        ctx.check(o[0] == 'ok' and s == 't' or res is exc or o[0] == 'exc' and o[1] == 'PydanticSerializationError' and (text in str(o[-1]) or str(exc) in str(o[-1])), key + ': the exception was replaced or swallowed', outcome=o, **info)


def sone(ctx, p, i, fi, mode, plan, kindname, base):
    env, s, b = p.live
    x = p.values(b)[i]
    snap = snapshot(x)
    o, res, log, sites, raised = scall(env, b, s, mode, x, p.flags[fi], plan)
    key = f'serialize {p.name} | {mode}: {kindname}'
    info = dict(value=i, flags=str(list(p.flags[fi])), plan=str(plan), where='+'.join(r[0] for r in raised))
    if raised:
        ctx.ev(f's {raised[-1][0][:2]}{raised[-1][1]} -> {o[0][0]}', (p.name, i, fi, mode, str(plan)))
        sjudge(ctx, p, key, o, res, raised, sites, info, base[i, fi, mode][0])
        bo, bl, _ = base[i, fi, mode]
        if p.catches and len(plan) == 1 and kindname not in ('base', 'unexpected') and bo[0][0] == 'ok':
            k = len(bl) - list(plan)[0] + 1
            ctx.check(o == bo, key + ': the second attempt ends differently', got=o, want=bo, **info)
            ctx.check(log[-k:] == bl[-k:], key + ': the second attempt calls back differently', got=str(log[-k:])[:600], want=str(bl[-k:])[:600], **info)
    ctx.check(snapshot(x) == snap, key + ': the value was changed', **info)
    for j, fj, mj in ((i, fi, mode), p.probe):
        got = scall(env, b, s, mj, p.values(b)[j], p.flags[fj], {})
        want = base[j, fj, mj]
        ctx.check(got[0] == want[0], key + ': the next call ends differently', got=got[0], want=want[0], **info)
        ctx.check(got[2] == want[1], key + ': the next call calls back differently', got=str(got[2])[:600], want=str(want[1])[:600], **info)
    return o, log


def fresh_ser(p):
    env = Env()
    b = SB(env)
    s = SchemaSerializer(p.make(b))
    return env, s, b


def explore_sprog(ctx, p):
    p.live = fresh_ser(p)
    env, s, b = p.live
    base, calls = {}, []
    for i in range(len(p.values(b))):
        for fi in range(len(p.flags)):
            for mode in SMODES:
                e2, s2, b2 = fresh_ser(p)
                o, _, log, sites, _ = scall(e2, b2, s2, mode, p.values(b2)[i], p.flags[fi], {})
                base[i, fi, mode] = (o, log, sites)
                calls.append((i, fi, mode, len(sites)))
    p.probe = max(calls, key=lambda c: c[3])[:3]
    k2 = ('value', 'unexpected') if ctx.quick else ('value', 'unexpected', 'sererr', 'recursion', 'base')
    for i, fi, mode, k in calls:
        for kind in SKINDS:
            for at in range(1, k + 1):
                ctx.case('serialize', p.name, i, fi, mode, kind, at)
                r = sone(ctx, p, i, fi, mode, {at: kind}, kind, base)
                e2, s2, b2 = fresh_ser(p)
                f = scall(e2, b2, s2, mode, p.values(b2)[i], p.flags[fi], {at: kind})
                ctx.check((f[0], f[2]) == r, f'serialize {p.name} | {mode}: {kind}: used and fresh serializers differ', fresh=f[0], used=r[0])
        for a in k2:
            for at in range(1, k + 1):
                m = len(scall(env, b, s, mode, p.values(b)[i], p.flags[fi], {at: a})[3])
                for c in k2:
                    for at2 in range(at + 1, m + 1):
                        ctx.case('serialize', p.name, i, fi, mode, a, at, c, at2)
                        sone(ctx, p, i, fi, mode, {at: a, at2: c}, f'{a}+{c}', base)


# --------------------------------------------------------------------------- inputs stay, outputs are new
def containers_of(x, out, d=0, stop=()):
    """every mutable container reachable from x, with the path to it"""
    def go(x, path, d):
        if d > 10: return
        if type(x) in (list, set, dict): out.append((id(x), path, x))
        if type(x) in (list, tuple): [go(y, path + (i,), d + 1) for i, y in enumerate(x)]
        elif type(x) is dict: [go(y, path + (k,), d + 1) for k, y in x.items()]
        elif type(x) is ArgsKwargs: go(x.args, path + ('args',), d + 1), go(x.kwargs, path + ('kwargs',), d + 1)
        elif hasattr(x, '__pydantic_fields_set__') or dataclasses.is_dataclass(x) and not isinstance(x, type):
            for a in ('__dict__', '__pydantic_fields_set__', '__pydantic_extra__'):
                y = getattr(x, a, None)
                if y is not None: go(y, path + (a,), d + 1)
    go(x, (), 0)
    return out


def purity(ctx, z):
    """no call changes its input; nothing in the schema changes either"""
    schema = z.schema()
    ssnap = snapshot(schema)
    v = SchemaValidator(schema)
    try: s = SchemaSerializer(schema)
    except SchemaError: s = None
    c = {'ctx': [1]}
    for x in list(z.good) + py_inputs():
        if hasattr(x, '__next__'): continue
        snap, csnap = snapshot(x), snapshot(c)
        calls = [('lax', lambda: v.validate_python(x, context=c)), ('strict', lambda: v.validate_python(x, strict=True)), ('attributes', lambda: v.validate_python(x, from_attributes=True, context=c)), ('isinstance', lambda: v.isinstance_python(x)), ('partial', lambda: v.validate_python(x, allow_partial='trailing-strings'))]
        if isinstance(x, (str, dict)): calls.append(('strings', lambda: v.validate_strings(x)))
        if s:
            for mode in ('python', 'json'):
                calls += [('to_python ' + mode, lambda: s.to_python(x, mode=mode, warnings=False, context=c)), ('to_python any ' + mode, lambda: s.to_python(x, mode=mode, warnings=False, serialize_as_any=True, exclude_none=True, include={'a', 'b', 0}, exclude={'b': {0}}))]
            calls.append(('to_json', lambda: s.to_json(x, warnings=False)))
        for name, fn in calls:
            ctx.case('pure', z.name, name, rep(x))
            raw(fn)
            ctx.check(snapshot(x) == snap, f'input changed | {z.name}: {name}', input=rep(x))
            ctx.check(snapshot(c) == csnap, f'context changed | {z.name}: {name}', input=rep(x))
            ctx.ev('pure ' + name, (z.name, name, rep(x)))
    ctx.check(snapshot(schema) == ssnap, f'schema changed | {z.name}')


RENS = [0]


def ren(s):
    """a copy with its own definitions, for a schema that is used twice"""
    RENS[0] += 1
    def go(x):
        if type(x) is list: return [go(i) for i in x]
        if type(x) is dict: return {k: f'{y}_{RENS[0]}' if k in ('ref', 'schema_ref') else go(y) for k, y in x.items()}
        return x
    return go(s)


def shapes(depth):
    """(name, schema, value): containers which validation rebuilds, over ints"""
    if depth == 0:
        yield 'int', cs.int_schema(), 1
        # without an items schema, and empty
        for e in (0, 1):
            yield f'bare list {e}', cs.list_schema(), [1] * e
            yield f'bare dict {e}', cs.dict_schema(), {'a': 1} if e else {}
            yield f'bare set({e})', cs.set_schema(), {1} if e else set()
        yield 'empty list', cs.list_schema(cs.int_schema()), []
        yield 'empty dict', cs.dict_schema(cs.str_schema(), cs.int_schema()), {}
        yield 'empty set()', cs.set_schema(cs.int_schema()), set()
        yield 'empty typed dict', cs.typed_dict_schema({'a': T(cs.int_schema(), required=False)}), {}
        return
    for n, s, v in shapes(depth - 1):
        h = type(v) not in (list, dict, set) and not hasattr(v, '__pydantic_fields_set__') and not dataclasses.is_dataclass(v)
        yield f'list({n})', cs.list_schema(s), [v, v]
        yield f'dict({n})', cs.dict_schema(cs.str_schema(), s), {'a': v, 'b': v}
        yield f'tuple({n})', cs.tuple_schema([s, ren(s)]), (v, v)
        yield f'variadic({n})', cs.tuple_schema([s], variadic_item_index=0), (v, v)
        if type(v) in (int, str): yield f'set({n})', cs.set_schema(s), {v}
        yield f'typed_dict({n})', cs.typed_dict_schema({'a': T(s)}), {'a': v}
        yield f'typed_dict_extras({n})', cs.typed_dict_schema({}, extras_schema=s, extra_behavior='allow'), {'a': v}
        C = fresh_model()
        yield f'model({n})', cs.model_schema(C, cs.model_fields_schema({'a': MFI(s)})), {'a': v}
        yield f'model_extras({n})', cs.model_schema(C, cs.model_fields_schema({}, extras_schema=s, extra_behavior='allow'), extra_behavior='allow'), {'a': v}
        yield f'root({n})', cs.model_schema(C, s, root_model=True), v
        D = dcls(fields=('a',))
        yield f'dataclass({n})', cs.dataclass_schema(D, cs.dataclass_args_schema('DC', [cs.dataclass_field('a', s)]), ['a']), {'a': v}
        yield f'nullable({n})', cs.nullable_schema(s), v
        yield f'union({n})', cs.union_schema([cs.none_schema(), s]), v
        yield f'wrap({n})', cs.no_info_wrap_validator_function(lambda v, h: h(v), s, serialization=cs.wrap_serializer_function_ser_schema(lambda v, h: h(v), schema=ren(s))), v
        yield f'default({n})', cs.with_default_schema(s, default=3), v
        yield f'def({n})', cs.definitions_schema(cs.definition_reference_schema('d'), [{**s, 'ref': 'd'}]) if s['type'] not in ('definitions', 'definition-ref') and 'ref' not in s else s, v
        yield f'arguments({n})', cs.arguments_schema([cs.arguments_parameter('a', s)], var_args_schema=ren(s), var_kwargs_schema=ren(s)), ArgsKwargs((v, v), {'k': v})


def give_serializers(s):
    if type(s) is list: [give_serializers(x) for x in s]
    elif type(s) is dict:
        if s.get('type') in ('model', 'dataclass') and '__pydantic_serializer__' not in vars(s['cls']): s['cls'].__pydantic_serializer__ = SchemaSerializer(s)
        [give_serializers(x) for x in s.values()]


def newness(ctx, n, s, v):
    """every mutable container of the result is new, and its own"""
    val = SchemaValidator(s)
    def fresh(what, *rs, inp=()):
        seen = {i[0]: i for i in inp}
        for r in rs:
            for i in containers_of(r, []):
                if i[0] in seen:
                    ctx.fail(f'aliasing | {n}: {what}', path=str(i[1]), same=str(seen[i[0]][1:]))
                    return
                seen[i[0]] = i
    import json
    outs = []
    for op, fn in (('python', lambda: val.validate_python(v)), ('strict', lambda: val.validate_python(v, strict=True)), ('json', lambda: val.validate_json(json.dumps(v))), ('attributes', lambda: val.validate_python(v, from_attributes=True))):
        if op == 'json' and 'arguments' in n or op == 'json' and 'set(' in n: continue
        a, b = raw(fn), raw(fn)
        ctx.case('new', n, op)
        ctx.ev(f'new {op} {a[0]}', (n, op))
        if a[0] != 'ok': continue
        fresh(op, a[1], b[1], inp=containers_of(v, []))
        outs.append(a[1])
    if 'arguments' in n: return
    ser = SchemaSerializer(s)
    give_serializers(s)
    for o in outs[:1]:
        for kw in ({}, {'mode': 'json'}, {'serialize_as_any': True}, {'exclude_none': True, 'include': None}, {'round_trip': True, 'by_alias': True}):
            a, b = (raw(lambda: ser.to_python(o, warnings=False, **kw)) for _ in 'ab')
            ctx.case('new', n, str(kw))
            ctx.ev(f'new to_python {a[0]}', (n, str(kw)))
            if a[0] == 'ok': fresh(f'to_python {list(kw)}', a[1], b[1], inp=containers_of(o, []))
        # validated again: instances may be returned as they are, or else are new
        if o.__class__ in (list, dict): fresh('again', raw(lambda: val.validate_python(o))[1], inp=[] if any(w in n for w in ('model', 'root', 'dataclass')) else containers_of(o, []))


def defaults(ctx):
    for n, d in (('list', [1]), ('dict', {'a': [1]}), ('set', {1}), ('nested', [[1], {'b': [2]}])):
        for where in ('typed dict', 'model', 'dataclass', 'arguments', 'top', 'list on_error', 'validated'):
            w = cs.with_default_schema(cs.int_schema() if where == 'list on_error' else cs.any_schema(), default=d, on_error='default' if where == 'list on_error' else 'raise', validate_default=where == 'validated')
            C, D = fresh_model(), dcls(fields=('a',))
            sch, x = {'typed dict': (cs.typed_dict_schema({'a': T(w)}), {}), 'model': (cs.model_schema(C, cs.model_fields_schema({'a': MFI(w)})), {}), 'validated': (cs.model_schema(C, cs.model_fields_schema({'a': MFI(w)})), {}), 'dataclass': (cs.dataclass_schema(D, cs.dataclass_args_schema('DC', [cs.dataclass_field('a', w)]), ['a']), {}),
                      'arguments': (cs.arguments_schema([cs.arguments_parameter('a', w)]), ArgsKwargs(())), 'top': (w, UNDEF), 'list on_error': (cs.list_schema(w), ['q', 'q'])}[where]
            v = SchemaValidator(sch)
            ctx.case('defaults', n, where)
            snap = snapshot(d)
            f = (lambda: v.get_default_value().value) if where == 'top' else (lambda: v.validate_python(x))
            a, b = f(), f()
            seen = {id(d): d, **{i[0]: i for i in containers_of(d, [])}}
            for r in (a, b):
                for i in containers_of(r, []):
                    ctx.check(i[0] not in seen, f'aliasing | mutable default {n} in {where}', path=str(i[1]))
                    seen[i[0]] = i
            ctx.check(snapshot(d) == snap, f'default changed | {n} in {where}')
            ctx.ev('default copied', (n, where))


def explore(ctx):
    for p in ctx.split(progs()):
        explore_prog(ctx, p)
    for p in ctx.split(sprogs()):
        explore_sprog(ctx, p)
    for z in ctx.split(ZOO): purity(ctx, z)
    for sh in ctx.split(s for d in ((1, 2) if ctx.quick else (1, 2, 3)) for s in shapes(d)): newness(ctx, *sh)
    for _ in ctx.split([0]): defaults(ctx)
    ctx.sample('programs', [p.name for p in progs()][:10])
