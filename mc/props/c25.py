"""C25: concurrent and re-entrant use of one validator or serializer.

Stateless model checking of the real library: the calls run in real threads under a controlled scheduler. Every Python
callback inside the library (validators, serializers, properties, iterators, __eq__, __repr__ ...) is a scheduling point; a
depth-first search runs every interleaving of the calls' segments (up to a preemption bound) and compares, for each
call, its result, errors, warnings and everything its callbacks observed with the same call running alone."""
import enum, json, threading, warnings
from mc.lib import *
from pydantic_core import to_json, to_jsonable_python, PydanticOmit, PydanticUseDefault

LEVEL = 'model_checking'
TECHNIQUE = 'stateless model checking of the real library: exhaustive enumeration of thread interleavings (preemption bounded) and of re-entrant calls at every callback'
RULE = ('programs of shared validators and serializers whose callbacks are scheduling points; every pair (thorough: triple) of their calls, '
        'every interleaving up to the preemption bound, and every call made re-entrantly at every callback of every other call')
ASSUME = ['the GIL build: threads switch only inside Python callbacks, so these are all the scheduling points',
          'two concurrent calls which modify the same user object (assignment to one instance, one iterator) are out of scope']
BOUNDS = {'quick': 'pairs of calls with at most 3 preemptions, triples with at most 1; re-entrancy at every callback, one level',
          'thorough': 'pairs with up to 6 preemptions, triples (repetitions too) with up to 2; re-entrancy two levels deep'}

TLS = threading.local()
HANG_S = 60


class Run:
    """One controlled execution of several calls."""

    def __init__(self, calls, prefix, bound):
        self.calls, self.prefix, self.bound = calls, prefix, bound
        self.n = len(calls)
        self.locks = [threading.Lock() for _ in calls]
        for l in self.locks:
            l.acquire()
        self.done = [False] * self.n
        self.pos = [0] * self.n
        self.out = [None] * self.n
        self.logs = [[] for _ in calls]
        self.cur = None
        self.preempt = 0
        self.diverged = False
        self.trace = []        # (choice, alternatives)
        self.states = []
        self.finished = threading.Lock()
        self.finished.acquire()

    def choose(self):
        """Pick the next thread; called by the one which runs (or the controller at the start)."""
        enabled = [i for i in range(self.n) if not self.done[i]]
        if not enabled:
            return None
        if self.cur is not None and not self.done[self.cur]:
            opts = [self.cur]
            if self.preempt < self.bound:
                opts += [i for i in enabled if i != self.cur]
        else:
            opts = enabled
        k = len(self.trace)
        c = self.prefix[k] if k < len(self.prefix) else 0
        k0 = len(opts)
        self.trace.append((min(c, k0 - 1), k0))
        self.states.append(tuple(self.pos))
        if c >= k0:
            # the same schedule reached another set of choices than when it was recorded
            self.diverged, c = True, 0
        t = opts[c]
        if self.cur is not None and not self.done[self.cur] and t != self.cur:
            self.preempt += 1
        return t

    def point(self, i):
        self.pos[i] += 1
        t = self.choose()
        if t != i:
            self.cur = t
            self.locks[t].release()
            self.locks[i].acquire()

    def body(self, i):
        TLS.run, TLS.tid, TLS.log, TLS.hook = self, i, self.logs[i], None
        self.locks[i].acquire()
        try:
            self.out[i] = self.calls[i]()
        except BaseException as e:
            self.out[i] = ('harness', type(e).__name__, str(e))
        self.done[i] = True
        TLS.run = None
        t = self.choose()
        if t is None:
            self.finished.release()
        else:
            self.cur = t
            self.locks[t].release()

    def go(self):
        for i in range(self.n):
            POOL[i].submit(self.body, i)
        t = self.choose()
        self.cur = t
        self.locks[t].release()
        self.finished.acquire()
        return self


class Worker:
    def __init__(self):
        self.go, self.job = threading.Semaphore(0), None
        threading.Thread(target=self.loop, daemon=True).start()

    def submit(self, f, a):
        self.job = (f, a)
        self.go.release()

    def loop(self):
        while True:
            self.go.acquire()
            f, a = self.job
            f(a)


POOL = []


def P(tag, *obs):
    """A scheduling point: log what the callback sees, then let the scheduler decide."""
    log = getattr(TLS, 'log', None)
    if log is not None:
        log.append((tag,) + tuple(canon(o) if not isinstance(o, tuple) or not o or o[0] != '!' else o for o in obs))
    run = getattr(TLS, 'run', None)
    if run is not None:
        run.point(TLS.tid)
        return
    hook = getattr(TLS, 'hook', None)
    if hook is not None:
        hook()


def showwarning(message, category, filename, lineno, file=None, line=None):
    log = getattr(TLS, 'log', None)
    if log is not None:
        log.append(('warning', category.__name__, str(message)))


def info_v(i):
    d = i.data if i.field_name is not None or getattr(i, 'data', None) is not None else None
    return ('!', canon(i.context), canon(dict(d) if d is not None else None), i.field_name, i.mode, canon(i.config))


def info_s(i):
    return ('!', canon(i.context), canon(i.include), canon(i.exclude), i.mode, i.by_alias, i.exclude_unset, i.exclude_defaults, i.exclude_none,
            i.round_trip, i.serialize_as_any, getattr(i, 'field_name', None))


# ---- programs -----------------------------------------------------------------------------------------------

def ov(fn, *a, **kw):
    return lambda: outcome(fn, *a, with_input=True, with_msg=True, **kw)


class A0(Model): pass
class A1(Model): pass
class A2(Model): pass
class A3(Model): pass


def before(v, i):
    P('before', v, info_v(i))
    if v == 'bad':
        raise ValueError('bad ' + str(i.context))
    return v


def wrap(v, h, i):
    P('wrap1', v, info_v(i))
    r = h(v)
    P('wrap2', r)
    return r


def wrap_two(v, h, i):
    P('two1', v)
    try:
        h('zz')
    except ValidationError as e:
        P('two2', errs(e))
    return h(v)


def after(v, i):
    P('after', v, info_v(i))
    if v == 99:
        raise PydanticUseDefault
    if v == 98:
        raise PydanticOmit
    return v


def p_functions():
    S = cs.model_schema(A0, cs.model_fields_schema({
        'a': cs.model_field(cs.with_info_before_validator_function(before, cs.str_schema()), validation_alias='aa'),
        'b': cs.model_field(cs.with_info_wrap_validator_function(wrap, cs.int_schema())),
        'c': cs.model_field(cs.with_default_schema(cs.list_schema(cs.with_default_schema(cs.with_info_after_validator_function(after, cs.int_schema()), default=-1)),
                            default_factory=lambda d: (P('factory', d), [len(d)])[1], default_factory_takes_data=True)),
    }), config={'validate_by_name': False, 'validate_by_alias': True})
    V = SchemaValidator(S)
    return [
        ov(V.validate_python, {'aa': 'x', 'b': '1'}, context={'n': 1}),
        ov(V.validate_python, {'aa': 'y', 'b': '2', 'c': ['3', 99, 98]}, strict=False, context={'n': 2}),
        ov(V.validate_python, {'aa': 'y', 'b': '2', 'c': [4]}, strict=True),
        ov(V.validate_python, {'a': 'n', 'b': 3, 'c': [1]}, by_name=True, context=[3]),
        ov(V.validate_python, {'aa': 'bad', 'b': 'bad'}, context={'n': 3}),
        ov(V.validate_json, '{"aa": "j", "b": 7, "c": [1, "2"]}', context='J'),
        ov(V.validate_strings, {'aa': 's', 'b': '8'}, context='S'),
        ov(V.validate_python, _ns(aa='attr', b=5), from_attributes=True),
    ]


class _NS:
    pass


def _ns(**kw):
    o = _NS()
    for k, v in kw.items():
        setattr(o, k, v)
    return o


def p_recursive():
    def f(v, i):
        P('node', v, i.context)
        return v
    S = cs.definitions_schema(cs.definition_reference_schema('n'), [cs.typed_dict_schema({
        'v': cs.typed_dict_field(cs.with_info_after_validator_function(f, cs.int_schema())),
        'next': cs.typed_dict_field(cs.nullable_schema(cs.definition_reference_schema('n')), required=False)}, ref='n')])
    V = SchemaValidator(S)
    cyc = {'v': 1}
    cyc['next'] = {'v': 2, 'next': cyc}
    shared = {'v': 3, 'next': {'v': 4}}
    return [ov(V.validate_python, cyc, context=1), ov(V.validate_python, cyc, context=2), ov(V.validate_python, shared, context=3),
            ov(V.validate_python, {'v': 0, 'next': shared}, context=4), ov(V.validate_python, {'v': 'x', 'next': {'v': 'y'}}),
            ov(V.validate_json, '{"v": 1, "next": {"v": "2"}}'), ov(V.validate_python, {'v': '5', 'next': shared}, strict=True)]


def p_union():
    def mk(name, t):
        def f(v, h):
            P('u ' + name, v)
            return h(v)
        return cs.no_info_wrap_validator_function(f, t)
    U = cs.union_schema([mk('int', cs.int_schema()), mk('float', cs.float_schema()), mk('str', cs.str_schema()),
                         cs.model_schema(A1, cs.model_fields_schema({'x': cs.model_field(mk('x', cs.int_schema())), 'y': cs.model_field(cs.with_default_schema(cs.int_schema(), default=0))})),
                         cs.typed_dict_schema({'x': cs.typed_dict_field(mk('tdx', cs.str_schema())), 'z': cs.typed_dict_field(cs.int_schema(), required=False)})])
    L = cs.union_schema([mk('lint', cs.int_schema()), mk('lstr', cs.str_schema())], mode='left_to_right')

    def disc(v):
        P('disc', v)
        return v.get('k') if isinstance(v, dict) else None
    T = cs.tagged_union_schema({'a': cs.typed_dict_schema({'k': cs.typed_dict_field(cs.str_schema()), 'p': cs.typed_dict_field(mk('p', cs.int_schema()))}),
                                'b': cs.typed_dict_schema({'k': cs.typed_dict_field(cs.str_schema()), 'p': cs.typed_dict_field(mk('q', cs.str_schema()))})}, disc)
    V, VL, VT = SchemaValidator(cs.list_schema(U)), SchemaValidator(L), SchemaValidator(cs.list_schema(T))
    return [ov(V.validate_python, [1.5]), ov(V.validate_python, ['1']), ov(V.validate_python, [{'x': 1, 'y': 2}]), ov(V.validate_python, [{'x': 'q', 'z': 3}, None]),
            ov(V.validate_json, '[true, {"x": "1"}]'), ov(VL.validate_python, '5'), ov(VL.validate_python, '5', strict=True), ov(VT.validate_python, [{'k': 'a', 'p': '1'}, {'k': 'b', 'p': 'x'}]),
            ov(VT.validate_python, [{'k': 'c'}, 3])]


class It:
    def __init__(self, n, fail=None):
        self.n, self.fail = n, fail

    def __iter__(self):
        for i in range(self.n):
            P('iter', i)
            if i == self.fail:
                raise ValueError('it')
            yield i

    def __repr__(self):
        return f'It({self.n})'


def p_generator():
    def f(v, i):
        P('item', v, info_v(i))
        return v * 10
    G = cs.generator_schema(cs.with_info_after_validator_function(f, cs.int_schema()), min_length=1, max_length=3)
    V = SchemaValidator(cs.typed_dict_schema({'g': cs.typed_dict_field(G)}))
    VA = SchemaValidator(cs.generator_schema())

    def consume(call, *a, **kw):
        def run():
            out = []
            try:
                it = call(*a, **kw)
                it = it['g'] if isinstance(it, dict) else it
                while True:
                    try:
                        out.append((it.index, canon(next(it))))
                    except StopIteration:
                        break
                    except ValidationError as e:
                        out.append((it.index, errs(e, True, True)))
                        if len(out) > 5:
                            break
                    P('consumer', len(out))
            except ValueError as e:
                out.append(str(e))
            return tuple(out)
        return run

    def two():
        a, b = V.validate_python({'g': [1, 2]}, context='A')['g'], V.validate_python({'g': (3, '4', 'x')}, context='B')['g']
        out = []
        for it in (a, b, a, b, a, b, b):
            try:
                out.append(canon(next(it)))
            except StopIteration:
                out.append('stop')
            except ValidationError as e:
                out.append(errs(e, True, True))
        return tuple(out)
    return [consume(V.validate_python, {'g': [1, '2']}, context=1), consume(V.validate_python, {'g': It(4)}, context=2), consume(V.validate_python, {'g': []}, context=3),
            consume(V.validate_json, '{"g": [5, "6", "x"]}', context=4), consume(V.validate_python, {'g': ['1', 2]}, strict=True), consume(VA.validate_python, It(2, 1)), two]


class Map(dict):
    pass


from collections.abc import Mapping


class PM(Mapping):
    def __init__(self, d): self.d = d
    def __getitem__(self, k):
        P('getitem', k)
        return self.d[k]
    def __iter__(self):
        for k in self.d:
            P('mapiter', k)
            yield k
    def __len__(self): return len(self.d)
    def __repr__(self): return f'PM({self.d})'


class Prop:
    def __init__(self, a, b): self._a, self._b = a, b
    @property
    def a(self):
        P('prop a', self._a)
        if self._a is None:
            raise AttributeError('a')
        return self._a
    @property
    def b(self):
        P('prop b', self._b)
        if self._b is None:
            raise RuntimeError('b fails')
        return self._b
    def __repr__(self): return f'Prop({self._a}, {self._b})'


def p_attrs():
    S = cs.model_schema(A2, cs.model_fields_schema({'a': cs.model_field(cs.int_schema()), 'b': cs.model_field(cs.list_schema(cs.int_schema()))}, from_attributes=True))
    V = SchemaValidator(S)
    D = SchemaValidator(cs.dict_schema(cs.str_schema(), cs.list_schema(cs.int_schema())))
    T = SchemaValidator(cs.tuple_schema([cs.set_schema(cs.int_schema()), cs.frozenset_schema(cs.str_schema())]))
    return [ov(V.validate_python, Prop(1, [2])), ov(V.validate_python, Prop('3', It(2))), ov(V.validate_python, Prop(None, [2])), ov(V.validate_python, Prop(1, None)),
            ov(D.validate_python, PM({'x': It(1), 'y': ['2']})), ov(D.validate_python, PM({'x': It(2, 1)})), ov(T.validate_python, (It(2), ['a'])), ov(V.validate_python, PM({'a': 1, 'b': [2]}))]


@dataclasses.dataclass
class DC:
    x: int
    y: int = 0

    def __post_init__(self, *a):
        P('post', self.x, a)


def p_assign():
    def f(v, i):
        P('f', v, info_v(i))
        if v == 13:
            raise ValueError('13')
        return v

    def root(m):
        P('root', m)
        return m
    fields = cs.model_fields_schema({'x': cs.model_field(cs.with_info_after_validator_function(f, cs.int_schema())), 'y': cs.model_field(cs.with_info_wrap_validator_function(wrap, cs.int_schema()))})
    M = SchemaValidator(cs.no_info_after_validator_function(root, cs.model_schema(A3, fields)))
    dc = SchemaValidator(cs.dataclass_schema(DC, cs.dataclass_args_schema('DC', [cs.dataclass_field('x', cs.with_info_after_validator_function(f, cs.int_schema())),
                                                                            cs.dataclass_field('y', cs.with_default_schema(cs.int_schema(), default=0))]), ['x', 'y'], post_init=True))

    def assign(V, data, name, value, **kw):
        def run():
            TLS.mute = True
            log, TLS.log = TLS.log, None
            run_, TLS.run = getattr(TLS, 'run', None), None
            hook, TLS.hook = getattr(TLS, 'hook', None), None
            m = V.validate_python(data)
            TLS.log, TLS.run, TLS.hook = log, run_, hook
            r = outcome(V.validate_assignment, m, name, value, with_input=False, with_msg=True, **kw)
            return (r if r[0] != 'ok' else 'ok', canon(m))
        return run
    return [assign(M, {'x': 1, 'y': 2}, 'x', '5', context=1), assign(M, {'x': 1, 'y': 2}, 'y', 'bad', context=2), assign(M, {'x': 1, 'y': 2}, 'x', 13, context=3),
            assign(M, {'x': 1, 'y': 2}, 'y', '6', strict=True), assign(M, {'x': 3, 'y': 4}, 'y', '6', context=4),
            assign(dc, {'x': 1}, 'x', '7', context=5), assign(dc, {'x': 1}, 'y', 'bad'), ov(dc.validate_python, {'x': '2', 'y': 3}, context='v')]


class CI(Model):
    def __init__(self, **kw):
        P('init', kw)
        CI.V.validate_python(kw, self_instance=self, context=('inner', len(kw)))
        P('inited', self)


class PI(Model):
    def post(self, ctx):
        P('post_init', self, ctx)


def p_init():
    def f(v, i):
        P('f', v, info_v(i))
        return v
    F = lambda: cs.model_fields_schema({'x': cs.model_field(cs.with_info_after_validator_function(f, cs.int_schema())), 'c': cs.model_field(cs.with_default_schema(cs.nullable_schema(cs.definition_reference_schema('ci')), default=None))})
    CI.V = SchemaValidator(cs.definitions_schema(cs.definition_reference_schema('ci'), [cs.model_schema(CI, F(), custom_init=True, ref='ci')]))
    PV = SchemaValidator(cs.model_schema(PI, cs.model_fields_schema({'x': cs.model_field(cs.with_info_after_validator_function(f, cs.int_schema()))}), post_init='post'))

    def construct(**kw):
        def run():
            return outcome(lambda: CI(**kw), with_msg=True)
        return run
    return [ov(CI.V.validate_python, {'x': '1', 'c': {'x': 2}}, context='o1'), construct(x='3'), construct(x='bad'), construct(x=1, c={'x': '4', 'c': None}),
            ov(PV.validate_python, {'x': 1}, context='p'), ov(PV.validate_json, '{"x": "2"}', context={'q': 1}), ov(PV.validate_python, {'x': 'bad'}), ov(CI.V.validate_json, '{"x": 5}')]


class S0(Model): pass
class S1(Model): pass
class S1Sub(S1): pass


def mkm(cls, extra=None, fs=None, **kw):
    m = cls.__new__(cls)
    d = m.__dict__
    d.update(kw)
    object.__setattr__(m, '__pydantic_fields_set__', set(kw) if fs is None else set(fs))
    object.__setattr__(m, '__pydantic_extra__', extra)
    object.__setattr__(m, '__pydantic_private__', None)
    return m


def os_(fn, *a, **kw):
    return lambda: outcome(fn, *a, **kw)


def p_ser_functions():
    def plain(v, i):
        P('plain', v, info_s(i))
        return f'<{v}>'

    def wr(v, h, i):
        P('wr1', v, info_s(i))
        r = h(v)
        P('wr2', r)
        return r

    def fld(self, v, i):
        P('fld', self, v, info_s(i))
        return [v, i.field_name]

    def mser(self, h, i):
        P('mser', self, info_s(i))
        r = h(self)
        P('mser2', r)
        return {**r, 'm': 1} if isinstance(r, dict) else r
    S = cs.model_schema(S0, cs.model_fields_schema({
        'a': cs.model_field(cs.any_schema(serialization=cs.plain_serializer_function_ser_schema(plain, info_arg=True)), serialization_alias='AA'),
        'b': cs.model_field(cs.list_schema(cs.int_schema(), serialization=cs.wrap_serializer_function_ser_schema(wr, info_arg=True, schema=cs.list_schema(cs.int_schema())))),
        'c': cs.model_field(cs.with_default_schema(cs.nullable_schema(cs.int_schema(serialization=cs.plain_serializer_function_ser_schema(fld, is_field_serializer=True, info_arg=True))), default=None)),
    }), serialization=cs.wrap_serializer_function_ser_schema(mser, info_arg=True))
    V = SchemaSerializer(S)
    m = mkm(S0, a=1, b=[1, 2, 3], c=4)
    m2 = mkm(S0, a='x', b=[1], c=None, fs={'a', 'b'})
    bad = mkm(S0, a=None, b=['q'], c='w')
    return [os_(V.to_python, m, context=1), os_(V.to_python, m, mode='json', by_alias=True, include={'a': True, 'b': {0, 2}}), os_(V.to_json, m, exclude={'b': {1}, 'c': True}, context=2),
            os_(V.to_python, m2, exclude_none=True, exclude_unset=True), os_(V.to_json, m2, round_trip=True, by_alias=True, context='c'), os_(V.to_json, bad, exclude_defaults=True),
            os_(V.to_python, bad, warnings='error', mode='json'), os_(V.to_python, 5, serialize_as_any=True)]


class Odd:
    def __init__(self, n): self.n = n
    def __repr__(self): return f'Odd({self.n})'


def p_ser_any():
    def fb(tag):
        def f(v):
            P('fallback ' + tag, v.n if isinstance(v, Odd) else '?')
            if isinstance(v, Odd) and v.n == 9:
                raise ValueError('nine')
            return [v.n]
        return f
    V = SchemaSerializer(cs.any_schema())
    D = SchemaSerializer(cs.dict_schema(cs.any_schema(), cs.list_schema(cs.any_schema())))
    cyc = [Odd(1)]
    cyc.append({'self': cyc, 'o': Odd(2)})
    sh = [Odd(3)]
    return [os_(V.to_python, cyc, mode='json', fallback=fb('a')), os_(V.to_json, cyc, fallback=fb('b')), os_(V.to_json, [sh, sh, {'k': sh}], fallback=fb('c')), os_(V.to_python, {'x': sh, 'y': Odd(9)}, mode='json', fallback=fb('d')),
            os_(D.to_json, {'p': sh, 'q': [Odd(4), sh]}, fallback=fb('e')), os_(to_jsonable_python, [sh, Odd(5)], fallback=fb('f')), os_(to_json, {'z': sh, 'w': cyc}, fallback=fb('g')),
            os_(V.to_python, {Odd(1).n: It(3)}, mode='json')]


def p_ser_union():
    def pl(tag, t):
        def f(v, h):
            P('w ' + tag, v)
            return h(v)
        return {**t, 'serialization': cs.wrap_serializer_function_ser_schema(f, schema={k: v for k, v in t.items()})}
    inner = cs.model_schema(S1, cs.model_fields_schema({'x': cs.model_field(pl('x', cs.int_schema()))}))
    U = cs.union_schema([inner, pl('int', cs.int_schema()), pl('str', cs.str_schema()), cs.list_schema(pl('li', cs.int_schema()))])
    S1.__pydantic_serializer__ = S1Sub.__pydantic_serializer__ = SchemaSerializer(inner)
    V = SchemaSerializer(cs.list_schema(U))
    K = SchemaSerializer(cs.dict_schema(pl('k', cs.str_schema()), pl('v', cs.int_schema())))
    a = mkm(S1, x=1)
    b = mkm(S1, x='bad')
    sub = mkm(S1Sub, x=2)
    return [os_(V.to_python, [a, 1, 'x']), os_(V.to_json, [b, [1, 'q'], 2.5]), os_(V.to_python, [b, None], warnings='error'), os_(V.to_python, [b], warnings=False, mode='json'),
            os_(V.to_json, [sub, sub], serialize_as_any=True), os_(K.to_json, {'a': 1, 'b': 'bad'}), os_(K.to_python, {1: 2}, warnings='error'), os_(K.to_python, {'a': 1, 'b': 2}, include={'a'})]


class CF(Model):
    @property
    def cf(self):
        P('computed', self.__dict__['x'])
        if self.__dict__['x'] == 13:
            raise ValueError('13')
        return self.__dict__['x'] + 1


class Gen:
    def __init__(self, n): self.n = n


def p_computed():
    S = SchemaSerializer(cs.model_schema(CF, cs.model_fields_schema({'x': cs.model_field(cs.int_schema()), 'g': cs.model_field(cs.any_schema())}, computed_fields=[cs.computed_field('cf', cs.int_schema(), alias='CF')])))
    G = SchemaSerializer(cs.generator_schema(cs.int_schema()))
    D = SchemaSerializer(cs.dict_schema(cs.str_schema(), cs.generator_schema(cs.int_schema(serialization=cs.plain_serializer_function_ser_schema(lambda v: (P('it', v), -v)[1])))))

    def gen(n, fail=None):
        for i in range(n):
            P('gen', i)
            if i == fail:
                raise ValueError('gen')
            yield i

    def lazy(n, fail=None, **kw):
        def run():
            out = []
            try:
                it = D.to_python({'k': gen(n, fail)}, **kw)['k']
                for x in it:
                    out.append(canon(x))
                    P('lazy consumer')
            except ValueError as e:
                out.append(str(e))
            return tuple(out)
        return run
    return [os_(S.to_python, mkm(CF, x=1, g=None)), os_(S.to_json, mkm(CF, x=2, g=[1]), by_alias=True), os_(S.to_python, mkm(CF, x=13, g=None)), os_(S.to_python, mkm(CF, x=4, g=None), round_trip=True, exclude_none=True),
            lambda: outcome(G.to_json, gen(2)), lambda: outcome(G.to_python, gen(3, 1), mode='json'), lazy(2), lazy(3, 1), lazy(2, include={'k': {1}}), lambda: outcome(D.to_json, {'k': gen(2), 'l': gen(1)})]


class Meta(type):
    def __instancecheck__(cls, o):
        P('instancecheck', type(o).__name__)
        return isinstance.__call__(int, o) if False else type(o) is int


class Inst(metaclass=Meta):
    pass


class EqH:
    def __init__(self, n): self.n = n
    def __hash__(self):
        P('hash', self.n)
        return 1
    def __eq__(self, o):
        P('eq', self.n)
        return isinstance(o, EqH) and o.n == self.n
    def __repr__(self):
        P('repr', self.n)
        return f'EqH({self.n})'


class En(enum.Enum):
    a = 1
    b = 2

    @classmethod
    def _missing_(cls, v):
        P('missing', v)
        return cls.b if v == 'B' else None


def p_misc():
    I = SchemaValidator(cs.list_schema(cs.is_instance_schema(Inst, cls_repr='Inst')))
    Ss = SchemaValidator(cs.set_schema(cs.any_schema()))
    E = SchemaValidator(cs.list_schema(cs.enum_schema(En, [En.a, En.b], missing=En._missing_)))
    Li = SchemaValidator(cs.list_schema(cs.literal_schema([EqH(1), 'x', 5])))
    Dk = SchemaValidator(cs.dict_schema(cs.any_schema(), cs.int_schema()))

    def fn(a, b):
        P('called', a, b)
        return a + b

    def ret(v):
        P('ret', v)
        return v
    C = SchemaValidator(cs.call_schema(cs.arguments_schema([cs.arguments_parameter('a', cs.int_schema(), mode='positional_or_keyword'),
                                                           cs.arguments_parameter('b', cs.with_default_schema(cs.int_schema(), default_factory=lambda: (P('dfl'), 3)[1]), mode='positional_or_keyword')]), fn,
                                       return_schema=cs.no_info_after_validator_function(ret, cs.str_schema(coerce_numbers_to_str=True))))
    from pydantic_core import ArgsKwargs

    def rend(v):
        def run():
            try:
                Dk.validate_python({v: 'bad', 'k': v})
            except ValidationError as e:
                s = str(e)
                j = [str(e.errors(include_input=False)), s]
                return tuple(j)
        return run
    return [ov(I.validate_python, [1, 'x']), lambda: tuple(sorted(x.n for x in Ss.validate_python([EqH(1), EqH(2), EqH(1)]))), ov(E.validate_python, [1, 'B', 'C']), ov(E.validate_json, '[2, "B"]'),
            lambda: outcome(Li.validate_python, [EqH(1), 'x'])[0], lambda: len(Dk.validate_python({EqH(1): 1, EqH(2): '2'})), ov(C.validate_python, ArgsKwargs((1,), {'b': '2'})), ov(C.validate_python, ArgsKwargs(('5',))),
            ov(C.validate_python, {'a': 'bad'}), rend(EqH(7))]


class PB(Model): pass


def p_prebuilt():
    def f(v, i):
        P('pb', v, info_v(i))
        return v

    def g(v, i):
        P('ser', v, info_s(i))
        return str(v)
    S = cs.model_schema(PB, cs.model_fields_schema({'x': cs.model_field(cs.with_info_after_validator_function(f, cs.int_schema(), serialization=cs.plain_serializer_function_ser_schema(g, info_arg=True)))}))
    PB.__pydantic_validator__ = SchemaValidator(S)
    PB.__pydantic_serializer__ = SchemaSerializer(S)
    PB.__pydantic_complete__ = True
    A, B = SchemaValidator(cs.list_schema(S)), SchemaValidator(cs.dict_schema(cs.str_schema(), S))
    SA = SchemaSerializer(cs.list_schema(S))
    m = mkm(PB, x=1)
    return [ov(A.validate_python, [{'x': 1}, {'x': '2'}], context='A'), ov(B.validate_python, {'k': {'x': '3'}}, strict=True), ov(B.validate_json, '{"k": {"x": 4}}', context='B'), ov(PB.__pydantic_validator__.validate_python, {'x': 'bad'}),
            ov(A.validate_python, [{'x': 1}, m], context=9), os_(SA.to_python, [m, m], context=1), os_(SA.to_json, [m], round_trip=True), os_(PB.__pydantic_serializer__.to_python, m, mode='json', context=2)]


def p_handlers():
    """wrap functions which keep handlers, call them several times, and late"""
    kept = {}

    def keep(v, h, i):
        P('keep', v, i.context)
        r = h(v)
        P('kept', r)
        return (r, h(v), canon_err(lambda: h('bad')))

    def leaf(v, i):
        P('leaf', v, info_v(i))
        return v
    S = cs.list_schema(cs.with_info_wrap_validator_function(keep, cs.with_info_after_validator_function(leaf, cs.int_schema())))
    V = SchemaValidator(S)

    def skeep(v, h, i):
        P('skeep', v, i.context)
        a = h(v)
        P('skept', a)
        return [a, h(v + 1), h(v, 1) if i.include is None and i.exclude is None else None]
    SS = SchemaSerializer(cs.list_schema(cs.int_schema(serialization=cs.wrap_serializer_function_ser_schema(skeep, info_arg=True, schema=cs.int_schema()))))
    return [ov(V.validate_python, ['1', 2], context=1), ov(V.validate_python, ['3'], context=2), ov(V.validate_python, [4, '5'], strict=True), ov(V.validate_json, '["6", 7]', context=3),
            os_(SS.to_python, [1, 2], context=1), os_(SS.to_json, [3], context=2), os_(SS.to_python, [4, 5], exclude={0}, context=3)]


def canon_err(f):
    try:
        return canon(f())
    except ValidationError as e:
        return str(errs(e))


# every composite kind around instrumented leaves

class K0(Model): pass
class K1(Model): pass


@dataclasses.dataclass
class KD:
    p: int
    q: int = 0


def leaf():
    return cs.with_info_wrap_validator_function(wrap, cs.int_schema())


def fld(s=None, **kw):
    return cs.model_field(s or leaf(), **kw)


def rec(ref):
    return cs.definitions_schema(cs.definition_reference_schema(ref), [cs.list_schema(cs.nullable_schema(cs.union_schema([leaf(), cs.definition_reference_schema(ref)])), ref=ref)])


KINDS = {
    'list': (lambda: cs.list_schema(leaf()), [1, '2'], [3, 'x']),
    'set': (lambda: cs.set_schema(leaf()), [1, '2', 1], ['x', 2]),
    'frozenset': (lambda: cs.frozenset_schema(leaf()), [1, '2'], ['x', 2]),
    'tuple': (lambda: cs.tuple_schema([leaf(), leaf()]), [1, '2'], [1, 'x']),
    'vtuple': (lambda: cs.tuple_schema([leaf(), leaf()], variadic_item_index=1), [1, '2', 3], [1, 'x', 2]),
    'dict': (lambda: cs.dict_schema(leaf(), leaf()), {'1': '2'}, {'1': 'x'}),
    'typed-dict': (lambda: cs.typed_dict_schema({'a': cs.typed_dict_field(leaf(), validation_alias='A'), 'b': cs.typed_dict_field(leaf(), required=False)}, extras_schema=leaf(), extra_behavior='allow'), {'A': 1, 'e': '2'}, {'A': 'x', 'b': 1}),
    'model': (lambda: cs.model_schema(K0, cs.model_fields_schema({'a': fld(), 'b': fld(cs.with_default_schema(leaf(), default=5, validate_default=True))}, extra_behavior='forbid')), {'a': '1'}, {'a': 'x', 'z': 1}),
    'model-extra': (lambda: cs.model_schema(K1, cs.model_fields_schema({'a': fld()}, extra_behavior='allow', extras_schema=leaf()), extra_behavior='allow'), {'a': '1', 'z': '2'}, {'z': 'x'}),
    'dataclass': (lambda: cs.dataclass_schema(KD, cs.dataclass_args_schema('KD', [cs.dataclass_field('p', leaf()), cs.dataclass_field('q', cs.with_default_schema(leaf(), default=4))]), ['p', 'q']), {'p': '1', 'q': 2}, {'p': 'x'}),
    'arguments': (lambda: cs.arguments_schema([cs.arguments_parameter('a', leaf(), mode='keyword_only')], var_args_schema=leaf(), var_kwargs_schema=leaf()), {'a': '1', 'z': 2}, {'a': 'x', 'z': 'y'}),
    'arguments-v3': (lambda: cs.arguments_v3_schema([cs.arguments_v3_parameter('a', leaf(), mode='keyword_only'), cs.arguments_v3_parameter('z', leaf(), mode='var_kwargs_uniform')]), {'a': '1', 'z': {'w': 2}}, {'a': 'x', 'z': {'w': 'y'}}),
    'call': (lambda: cs.call_schema(cs.arguments_schema([cs.arguments_parameter('a', leaf())]), lambda a: (P('fn', a), a)[1], return_schema=leaf()), {'a': '1'}, {'a': 'x'}),
    'smart': (lambda: cs.union_schema([leaf(), cs.no_info_after_validator_function(lambda v: (P('s', v), v)[1], cs.str_schema())]), '1', None),
    'ltr': (lambda: cs.union_schema([leaf(), cs.no_info_after_validator_function(lambda v: (P('s', v), v)[1], cs.str_schema())], mode='left_to_right'), '1', None),
    'tagged': (lambda: cs.tagged_union_schema({'a': cs.typed_dict_schema({'k': cs.typed_dict_field(cs.str_schema()), 'v': cs.typed_dict_field(leaf())}), 'b': cs.list_schema(leaf())}, lambda v: (P('d', v), 'a' if isinstance(v, dict) else 'b' if isinstance(v, list) else None)[1]), {'k': 'a', 'v': '1'}, ['x']),
    'nullable': (lambda: cs.nullable_schema(leaf()), '1', 'x'),
    'default': (lambda: cs.with_default_schema(leaf(), default_factory=lambda: (P('df'), 7)[1], on_error='default'), '1', 'x'),
    'chain': (lambda: cs.chain_schema([leaf(), leaf()]), '1', 'x'),
    'lax-or-strict': (lambda: cs.lax_or_strict_schema(leaf(), cs.chain_schema([leaf(), cs.no_info_plain_validator_function(lambda v: (P('st', v), -v)[1])])), 1, 'x'),
    'json-or-python': (lambda: cs.json_or_python_schema(cs.chain_schema([leaf(), cs.no_info_plain_validator_function(lambda v: (P('js', v), -v)[1])]), leaf()), 1, 'x'),
    'json': (lambda: cs.json_schema(cs.list_schema(leaf())), '[1, 2]', '[1, "x"]'),
    'definitions': (lambda: rec('kr'), [1, [2, ['3']], None], [1, ['x']]),
    'custom-error': (lambda: cs.custom_error_schema(leaf(), 'ce', custom_error_message='m {q}', custom_error_context={'q': 1}), '1', 'x'),
    'generator': (lambda: cs.no_info_after_validator_function(lambda g: (P('g'), [x for x in g])[1], cs.generator_schema(leaf())), [1, '2'], [1, 'x']),
    'before': (lambda: cs.with_info_before_validator_function(before, leaf()), '1', 'bad'),
}


def kind_program(name):
    mk, good, bad = KINDS[name]

    def prog():
        V = SchemaValidator(mk())
        # the same validator used below a parent, so that locations, data and field names differ from call to call
        W = SchemaValidator(cs.typed_dict_schema({'first': cs.typed_dict_field(cs.int_schema()), 'second': cs.typed_dict_field(mk())}))
        calls = [ov(V.validate_python, good, context=1), ov(V.validate_python, bad, context={'c': 2}), ov(V.validate_python, good, strict=True, context=3), ov(V.validate_json, json.dumps(good), context=4),
                 ov(V.validate_json, json.dumps(bad), strict=True), ov(W.validate_python, {'first': 1, 'second': good}, context=5), ov(W.validate_json, json.dumps({'first': '2', 'second': bad}), context=6)]
        return calls
    return prog


def sleaf():
    def f(v, h, i):
        P('sl', v, info_s(i))
        r = h(v)
        P('sl2', r)
        return r
    return cs.int_schema(serialization=cs.wrap_serializer_function_ser_schema(f, info_arg=True, schema=cs.int_schema()))


def sdc(p, q):
    return KD(p, q)


SKINDS = {
    'list': (lambda: cs.list_schema(sleaf()), [1, 2], [1, 'x']),
    'set': (lambda: cs.set_schema(sleaf()), {1}, {'x'}),
    'frozenset': (lambda: cs.frozenset_schema(sleaf()), frozenset([1]), frozenset(['x'])),
    'tuple': (lambda: cs.tuple_schema([sleaf(), sleaf()]), (1, 2), (1, 'x')),
    'vtuple': (lambda: cs.tuple_schema([sleaf(), sleaf()], variadic_item_index=1), (1, 2, 3), (1, 'x')),
    'dict': (lambda: cs.dict_schema(sleaf(), sleaf()), {1: 2}, {1: 'x'}),
    'typed-dict': (lambda: cs.typed_dict_schema({'a': cs.typed_dict_field(sleaf(), serialization_alias='A'), 'b': cs.typed_dict_field(sleaf(), required=False)}), {'a': 1, 'b': 2}, {'a': 'x'}),
    'model': (lambda: cs.model_schema(K0, cs.model_fields_schema({'a': fld(sleaf(), serialization_alias='A'), 'b': fld(cs.with_default_schema(sleaf(), default=5))})), lambda: mkm(K0, a=1, b=5), lambda: mkm(K0, a='x', b=2)),
    'model-extra': (lambda: cs.model_schema(K1, cs.model_fields_schema({'a': fld(sleaf())}, extra_behavior='allow', extras_schema=sleaf()), extra_behavior='allow'), lambda: mkm(K1, {'z': 3}, a=1), lambda: mkm(K1, {'z': 'x'}, a=None)),
    'dataclass': (lambda: cs.dataclass_schema(KD, cs.dataclass_args_schema('KD', [cs.dataclass_field('p', sleaf(), serialization_alias='P'), cs.dataclass_field('q', sleaf())]), ['p', 'q']), lambda: KD(1, 2), lambda: KD('x', 2)),
    'union': (lambda: cs.union_schema([sleaf(), cs.list_schema(sleaf())]), [1, 2], ['x']),
    'tagged': (lambda: cs.tagged_union_schema({'a': cs.typed_dict_schema({'k': cs.typed_dict_field(cs.str_schema()), 'v': cs.typed_dict_field(sleaf())}), 'b': cs.list_schema(sleaf())}, lambda v: (P('d', v), 'a' if isinstance(v, dict) else 'b' if isinstance(v, list) else None)[1]), {'k': 'a', 'v': 1}, ['x']),
    'nullable': (lambda: cs.nullable_schema(sleaf()), 1, 'x'),
    'default': (lambda: cs.with_default_schema(sleaf(), default=3), 1, 'x'),
    'json-or-python': (lambda: cs.json_or_python_schema(sleaf(), sleaf()), 1, 'x'),
    'json': (lambda: cs.json_schema(cs.list_schema(sleaf())), [1], ['x']),
    'definitions': (lambda: cs.definitions_schema(cs.definition_reference_schema('sr'), [cs.typed_dict_schema({'v': cs.typed_dict_field(sleaf()), 'n': cs.typed_dict_field(cs.nullable_schema(cs.definition_reference_schema('sr')), required=False)}, ref='sr')]), {'v': 1, 'n': {'v': 2, 'n': None}}, {'v': 'x'}),
    'generator': (lambda: cs.generator_schema(sleaf()), lambda: (x for x in (1, 2)), lambda: (x for x in ('x',))),
    'computed': (lambda: cs.model_schema(CF, cs.model_fields_schema({'x': fld(sleaf())}, computed_fields=[cs.computed_field('cf', sleaf())])), lambda: mkm(CF, x=1), lambda: mkm(CF, x=13)),
    'any': (lambda: cs.list_schema(cs.any_schema(serialization=cs.plain_serializer_function_ser_schema(lambda v, i: (P('an', v, info_s(i)), v)[1], info_arg=True))), [1, [2], {'q': None}], [Odd(1)]),
}


def skind_program(name):
    mk, good, bad = SKINDS[name]

    def prog():
        V = SchemaSerializer(mk())
        W = SchemaSerializer(cs.typed_dict_schema({'first': cs.typed_dict_field(cs.int_schema()), 'second': cs.typed_dict_field(mk())}))
        g = good if callable(good) else (lambda: good)
        b = bad if callable(bad) else (lambda: bad)

        def s(fn, v, wrapd=False, **kw):
            def run():
                x = v()
                r = outcome(lambda: fn({'first': 1, 'second': x} if wrapd else x, **kw))
                return r
            return run
        return [s(V.to_python, g, context=1), s(V.to_python, b, mode='json', by_alias=True, context={'c': 2}), s(V.to_json, g, exclude_none=True, context=3), s(V.to_json, b, round_trip=True),
                s(V.to_python, b, warnings='error'), s(W.to_python, g, True, mode='json', exclude_unset=True, include={'second': True}), s(W.to_json, b, True, by_alias=True, context=6, warnings=False)]
    return prog


PROGRAMS = {f.__name__[2:]: f for f in (p_functions, p_recursive, p_union, p_generator, p_attrs, p_assign, p_init, p_ser_functions, p_ser_any, p_ser_union, p_computed, p_misc, p_prebuilt, p_handlers)}
PROGRAMS.update({'validate ' + k: kind_program(k) for k in KINDS})
PROGRAMS.update({'serialize ' + k: skind_program(k) for k in SKINDS})


# ---- exploration -------------------------------------------------------------------------------------------------

def solo(call):
    TLS.run, TLS.hook, TLS.log = None, None, []
    r = call()
    log = TLS.log
    TLS.log = None
    return r, log


def interleave(ctx, name, calls, base, idx, bound):
    """Depth-first search over all schedules of calls[idx...] with at most `bound` preemptions."""
    prefix, before = [], ctx.nviol
    while True:
        run = Run([calls[i] for i in idx], prefix, bound).go()
        ctx.trace_done()
        ctx.step(len(run.trace))
        for st in run.states:
            ctx.state((name, idx, st))
        key = f'{name} calls {idx}'
        sched = [c for c, _ in run.trace]
        for k, i in enumerate(idx):
            ok = ctx.check(run.out[k] == base[i][0], f'{key}: call {i} differs from running alone', schedule=sched, solo=base[i][0], got=run.out[k])
            if ok:
                ctx.check(run.logs[k] == base[i][1], f'{key}: callbacks of call {i} observe something else', schedule=sched, solo=base[i][1], got=run.logs[k])
        if run.diverged or len(run.trace) < len(prefix):
            ctx.fail(f'{key}: executing the same schedule again took another course', schedule=sched, prefix=prefix)
            return
        if ctx.nviol > before:
            return      # the search relies on repeatable executions: one violation per set of calls is enough
        ctx.ev('switching' if run.preempt else 'sequential', (name, idx, tuple(sched)))
        # backtrack
        tr = run.trace
        while tr and tr[-1][0] + 1 >= tr[-1][1]:
            tr.pop()
        if not tr:
            return
        prefix = [c for c, _ in tr[:-1]] + [tr[-1][0] + 1]


def reenter(ctx, name, calls, base, i, js):
    """call i, and at its k-th callback the calls js (each nested in the k-th callback of the previous one)"""
    n = len([1 for _ in base[i][1] if _[0] != 'warning'])
    for k in range(n):
        seen = [0]
        inner = []

        def hook():
            c = seen[0]
            seen[0] += 1
            if c == k:
                saved = TLS.log, TLS.hook
                for j in js:
                    TLS.log, TLS.hook = [], None
                    if len(js) == 2 and j == js[0]:
                        # the second call runs nested in the first callback of the first
                        fired = [0]

                        def h2():
                            if not fired[0]:
                                fired[0] = 1
                                s2 = TLS.log, TLS.hook
                                TLS.log, TLS.hook = [], None
                                inner.append((js[1], calls[js[1]](), TLS.log))
                                TLS.log, TLS.hook = s2
                        TLS.hook = h2
                    r = calls[j]()
                    inner.append((j, r, TLS.log))
                TLS.log, TLS.hook = saved
        TLS.run, TLS.log, TLS.hook = None, [], hook
        r = calls[i]()
        log = TLS.log
        TLS.log, TLS.hook = None, None
        key = f'{name} call {i} re-entered at callback {k} by {js}'
        ctx.step()
        ctx.check(r == base[i][0], f'{key}: outer result', solo=base[i][0], got=r)
        ctx.check(log == base[i][1], f'{key}: outer callbacks', solo=base[i][1], got=log)
        ctx.check(bool(inner), f'{key}: callback not reached again')
        for j, ri, lj in inner:
            ctx.check(ri == base[j][0], f'{key}: inner result', solo=base[j][0], got=ri)
            ctx.check(lj == base[j][1], f'{key}: inner callbacks', solo=base[j][1], got=lj)
        ctx.ev('re-entrant', (name, i, k, js))


def escape(ctx):
    """A wrap function hands its handler to another thread and returns whenever the schedule says so."""
    slot = {}

    def inner(v):
        P('inner1')
        P('inner2')
        return v

    def w(v, h):
        slot['h'] = h
        P('published')
        P('returning')
        return 'early'

    def sw(v, h):
        return w(v, h)
    V = SchemaValidator(cs.list_schema(cs.union_schema([cs.no_info_wrap_validator_function(w, cs.no_info_after_validator_function(inner, cs.int_schema())), cs.bytes_schema()])))
    X = SchemaSerializer(cs.list_schema(cs.int_schema(serialization=cs.wrap_serializer_function_ser_schema(sw, schema=cs.int_schema(serialization=cs.plain_serializer_function_ser_schema(inner))))))
    for what in ctx.split(['validate', 'assign', 'serialize', 'serialize json']):
        def owner():
            if what == 'validate':
                return outcome(V.validate_python, [1, '2'])
            if what == 'assign':
                m = mkm(S0, a=1)
                r = outcome(AV.validate_assignment, m, 'a', '3')
                return r
            return outcome(X.to_python if what == 'serialize' else X.to_json, [1, 2])

        def other():
            P('other')
            h = slot.get('h')
            if h is None:
                return 'none'
            r = outcome(h, 7 if what != 'assign' else mkm(S0, a=1))
            return r[0] if r[0] != 'exc' else r
        AV = SchemaValidator(cs.no_info_wrap_validator_function(w, cs.model_schema(S0, cs.model_fields_schema({'a': cs.model_field(cs.no_info_after_validator_function(inner, cs.int_schema()))}))))
        TLS.run = TLS.log = TLS.hook = None
        want = owner()
        for bound in ((3,) if ctx.quick else (6,)):
            prefix = []
            while True:
                slot.clear()
                run = Run([owner, other], prefix, bound).go()
                sched = [c for c, _ in run.trace]
                ctx.trace_done()
                ctx.step(len(sched))
                ctx.check(run.out[0] == want, f'escaped handler: {what}', schedule=sched, got=run.out[0], want=want)
                o = run.out[1]
                ctx.check(o in ('none', 'ok') or (o[0] == 'exc' and o[1] == 'RuntimeError' and 'borrowed' in o[2]), f'escaped handler, other thread: {what}', schedule=sched, got=o)
                if run.diverged or len(run.trace) < len(prefix):
                    ctx.fail(f'escaped handler: {what}: executing the same schedule again took another course', schedule=sched)
                    break
                ctx.ev('escaped', (what, tuple(sched)))
                tr = run.trace
                while tr and tr[-1][0] + 1 >= tr[-1][1]:
                    tr.pop()
                if not tr:
                    break
                prefix = [c for c, _ in tr[:-1]] + [tr[-1][0] + 1]


def explore(ctx):
    set_ctx(ctx)
    warnings.resetwarnings()
    warnings.simplefilter('always')
    warnings.showwarning = showwarning
    while len(POOL) < 3:
        POOL.append(Worker())
    escape(ctx)
    jobs = []
    for name, mk in PROGRAMS.items():
        n = len(mk())
        for i in range(n):
            for j in range(i, n):
                jobs.append((name, (i, j), 3 if ctx.quick else 6))
            jobs.append((name, ('re', i), 1))
        if ctx.quick:
            for t in itertools.combinations(range(n), 3):
                jobs.append((name, t, 1))
        else:
            for t in itertools.combinations_with_replacement(range(n), 3):
                jobs.append((name, t, 2))
    cache = {}
    for name, idx, bound in ctx.split(jobs):
        if name not in cache:
            calls = PROGRAMS[name]()
            base = [solo(c) for c in calls]
            for c, (r, log) in zip(calls, base):
                again = solo(c)
                ctx.check(again == (r, log), f'{name}: a call is not deterministic', first=(r, log), second=again)
                ctx.check(r is not None and not (isinstance(r, tuple) and r and r[0] == 'harness'), f'{name}: harness', got=r)
            cache[name] = calls, base
        calls, base = cache[name]
        if idx[0] == 're':
            for j in range(len(calls)):
                reenter(ctx, name, calls, base, idx[1], (j,))
                if not ctx.quick:
                    for j2 in range(len(calls)):
                        reenter(ctx, name, calls, base, idx[1], (j, j2))
        else:
            ctx.sample(name, idx, [b[0] for b in base][:1])
            interleave(ctx, name, calls, base, idx, bound)
        r2 = [solo(c) for c in calls]
        for i, (a, b) in enumerate(zip(base, r2)):
            ctx.check(a == b, f'{name}: call {i} is changed by earlier executions', before=a, after=b)
