"""C18: include and exclude.  Exhaustive enumeration of (shape of the data and of the schema) x (include filter) x (exclude filter)
against a reference filter, through to_python (both modes), to_json, the inferring serializers and transparent wrappers."""
import dataclasses, itertools, json
from pydantic_core import to_json, to_jsonable_python
from mc.lib import *

LEVEL = 'exploration'
RULE = ('for every shape (two or three nested containers: list, tuples, dict, typed-dict, model, dataclass, root model, generator, set, inferred; with schema-level '
        'filters, excluded fields, extras and computed fields; wrapped or not, also behind enum members and the fallback function) every pair (include, exclude) of the filter language up to the bound: the output of '
        'to_python, to_python(mode=json), to_json and the inferring serializers is compared with the reference selection; non-trivial: something is dropped and something kept')
ASSUME = ['a dict filter naming one index twice (as i and i-len) is not judged', 'an item value in a dict filter takes priority over `__all__` when either is `...`, otherwise they are merged',
          'a set schema hands its filter on to every item, an inferred set does not filter its items (as the code does)', 'negative indexes in frozenset or custom containers are not judged']
BOUNDS = {'quick': 'filters of nesting depth 2, at most 2 keys per level; all single filters, all pairs over a reduced list; 3-level shapes with single filters',
          'thorough': 'all pairs of filters of depth 2 for every shape, 3-level shapes with pairs'}

ELL = ...


class Bad(Exception):
    pass


def is_ell(v):
    return v is ELL or v is True


def as_dict(v):
    if isinstance(v, dict):
        return v
    if isinstance(v, set):
        return {k: ELL for k in v}
    raise Bad('type')


def merge(item, all_):
    """a specific entry and the __all__ entry together"""
    if is_ell(item) or is_ell(all_):
        return item
    a, b = as_dict(item), as_dict(all_)
    out = dict(a)
    for k, v in b.items():
        out[k] = merge(a[k], v) if k in a else v
    return out


NO = object()


def entry(f, key):
    """NO, or what the filter says about the key (... or a nested filter)"""
    if f is None:
        return NO
    if isinstance(f, dict):
        if key in f:
            return merge(f[key], f['__all__']) if '__all__' in f else f[key]
        return f.get('__all__', NO)
    if isinstance(f, (set, frozenset)):
        return ELL if key in f or '__all__' in f else NO
    raise Bad('type')


def select(key, inc, exc, sinc=None, sexc=None):
    """None when dropped, otherwise the (include, exclude) of the content"""
    x = entry(exc, key)
    if x is not NO and is_ell(x):
        return None
    nx = None if x is NO else x
    if inc is not None:
        i = entry(inc, key)
        if i is not NO:
            return (None if is_ell(i) else i), nx
        if not (sinc is not None and key in sinc):
            return None
    if sinc is not None and key not in sinc:
        return None
    if sexc is not None and key in sexc:
        return None
    return None, nx


def positive(f, n):
    """negative indexes count from the end"""
    if f is None or isinstance(f, frozenset):
        return f

    def idx(k):
        return k + n if isinstance(k, int) and k < 0 else k
    if isinstance(f, dict):
        return {idx(k): v for k, v in f.items()}
    if isinstance(f, set):
        return {idx(k) for k in f}
    raise Bad('type')


def unsized(f):
    if isinstance(f, (dict, set)) and any(isinstance(k, int) and k < 0 for k in f):
        raise Bad('unsized')
    return f


# ------------------------------------------------------------------ shapes
class N:
    """schema(), value(), ref(inc, exc) -> (python output, json output, dropped, kept)"""
    inferable = True  # the any serializer gives the same result
    filtered = True

    def any_same(self):
        return self.inferable


class Scalar(N):
    def __init__(self, v=7):
        self.v = v

    def schema(self):
        return cs.int_schema()

    def value(self):
        return self.v

    def ref(self, inc, exc):
        return self.v, self.v

    keys = [0, 'a']


class Seq(N):
    def __init__(self, kind, kids, sinc=None, sexc=None):
        self.kind, self.kids, self.sinc, self.sexc = kind, kids, sinc, sexc
        self.keys = [0, 1, -1, 2, -3, '__all__'] if len(kids) == 2 else [0, 1, -1, '__all__']

    def any_same(self):
        return not self.sinc and self.sexc is None and self.sinc is None and all(k.any_same() for k in self.kids)

    def schema(self):
        ser = None
        if self.sinc is not None or self.sexc is not None:
            ser = cs.filter_seq_schema(include=self.sinc, exclude=self.sexc)
        ks = [k.schema() for k in self.kids]
        kw = dict(serialization=ser) if ser else {}
        if self.kind == 'list':
            return cs.list_schema(ks[0], **kw)
        if self.kind == 'gen':
            return cs.generator_schema(ks[0], **kw)
        if self.kind == 'tuple':
            return cs.tuple_schema(ks, **kw)
        if self.kind == 'var':
            return cs.tuple_variable_schema(ks[0], **kw)
        if self.kind == 'headvar':
            return cs.tuple_schema([ks[0], ks[0]], variadic_item_index=1, **kw)
        if self.kind == 'long':  # more items than the schema has
            return cs.tuple_schema(ks[:1], **kw)
        raise AssertionError

    def value(self):
        vs = [k.value() for k in self.kids]
        return vs if self.kind == 'list' else iter(vs) if self.kind == 'gen' else tuple(vs)

    def ref(self, inc, exc):
        n = len(self.kids)
        if self.kind == 'gen':
            if n:
                unsized(inc), unsized(exc)
        else:
            inc, exc = positive(inc, n), positive(exc, n)
        py, js = [], []
        for i, k in enumerate(self.kids):
            s = select(i, inc, exc, self.sinc, self.sexc)
            if s is not None:
                p, j = k.ref(*s)
                py.append(p)
                js.append(j)
        return (py if self.kind in ('list', 'gen') else tuple(py)), js


class SetN(N):
    def __init__(self, kind, kid):
        self.kind, self.kid = kind, kid
        self.keys = [0, '__all__']

    inferred = False

    def any_same(self):
        return False

    def schema(self):
        return (cs.set_schema if self.kind is set else cs.frozenset_schema)(self.kid.schema())

    def value(self):
        return self.kind([self.kid.value()])

    def ref(self, inc, exc):
        p, j = self.kid.ref(None, None) if self.inferred else self.kid.ref(inc, exc)
        return self.kind([p]), [j]


class DictN(N):
    def __init__(self, items, sinc=None, sexc=None):
        self.items, self.sinc, self.sexc = items, sinc, sexc
        self.keys = list(items) + ['__all__', 'zz']

    def any_same(self):
        return self.sinc is None and self.sexc is None and all(k.any_same() for k in self.items.values())

    def schema(self):
        kw = {}
        if self.sinc is not None or self.sexc is not None:
            kw = dict(serialization=cs.filter_dict_schema(include=self.sinc, exclude=self.sexc))
        return cs.dict_schema(cs.any_schema(), next(iter(self.items.values())).schema(), **kw)

    def value(self):
        return {k: v.value() for k, v in self.items.items()}

    def ref(self, inc, exc):
        py, js = {}, {}
        for k, v in self.items.items():
            s = select(k, inc, exc, self.sinc, self.sexc)
            if s is not None:
                p, j = v.ref(*s)
                py[k] = p
                js[str(k)] = j
        return py, js


CC = (10, 20)


class Fields(N):
    """typed-dict, model or dataclass; excl: fields excluded in the schema; extras: name -> node (inferred); cc: computed field"""

    def __init__(self, kind, fields, excl=(), extras=None, cc=False, alias=False, own=False):
        self.kind, self.fields, self.excl, self.extras, self.cc, self.alias, self.own = kind, fields, excl, extras or {}, cc, alias, own
        self.keys = list(fields) + list(self.extras) + (['cc'] if cc else []) + ['__all__']
        if kind == 'model' or kind == 'root':
            ns = {'__slots__': Model.__slots__}
            if cc:
                ns['cc'] = property(lambda s: CC)
            self.cls = type('M', (), ns)
        elif kind == 'dc':
            ns = {'cc': property(lambda s: CC)} if cc else {}
            self.cls = dataclasses.make_dataclass('D', list(fields), namespace=ns)
        else:
            self.cls = type('TD', (dict,), {'cc': property(lambda s: CC)}) if cc else dict
        if own:
            self.cls.__pydantic_serializer__ = SchemaSerializer(self.schema())

    def any_same(self):
        return (self.own or not (self.excl or self.cc or self.alias)) and self.kind != 'root' and (self.own or self.kind != 'model') and (
            self.own or all(k.any_same() for k in self.fields.values()))

    def schema(self):
        mkf = dict(td=cs.typed_dict_field, model=cs.model_field, root=cs.model_field).get(self.kind)
        kw = {}
        if self.cc:
            kw['computed_fields'] = [cs.computed_field('cc', cs.tuple_variable_schema(cs.int_schema()))]
        if self.kind == 'dc':
            fs = [cs.dataclass_field(n, k.schema(), serialization_exclude=n in self.excl or None,
                                     serialization_alias=n.upper() if self.alias else None) for n, k in self.fields.items()]
            return cs.dataclass_schema(self.cls, cs.dataclass_args_schema('D', fs, **kw), list(self.fields))
        fs = {n: mkf(k.schema(), serialization_exclude=n in self.excl or None, serialization_alias=n.upper() if self.alias else None)
              for n, k in self.fields.items()}
        eb = 'allow' if self.extras else 'ignore'
        if self.kind == 'td':
            return cs.typed_dict_schema(fs, extra_behavior=eb, **kw)
        if self.kind == 'root':
            return cs.model_schema(self.cls, next(iter(self.fields.values())).schema(), root_model=True)
        return cs.model_schema(self.cls, cs.model_fields_schema(fs, extra_behavior=eb, **kw), extra_behavior=eb)

    def value(self):
        d = {n: k.value() for n, k in self.fields.items()}
        ex = {n: k.value() for n, k in self.extras.items()}
        if self.kind == 'td':
            return self.cls({**d, **ex})
        if self.kind == 'dc':
            return self.cls(**d)
        m = self.cls()
        m.__dict__.update({'root': next(iter(d.values()))} if self.kind == 'root' else d)
        object.__setattr__(m, '__pydantic_fields_set__', set(d))
        object.__setattr__(m, '__pydantic_extra__', ex if self.extras else None)
        object.__setattr__(m, '__pydantic_private__', None)
        return m

    def ref(self, inc, exc):
        if self.kind == 'root':
            return next(iter(self.fields.values())).ref(inc, exc)
        py, js = {}, {}
        for n, k in [*self.fields.items(), *self.extras.items()]:
            if n in self.excl:
                if n not in self.extras:
                    continue
            s = select(n, inc, exc)
            if s is not None:
                p, j = k.ref(*s)
                nm = n.upper() if self.alias and n in self.fields else n
                py[nm], js[nm] = p, j
        if self.cc:
            s = select('cc', inc, exc)
            if s is not None:
                p, j = Seq('var', [Scalar(v) for v in CC]).ref(*s)
                py['cc'], js['cc'] = p, j
        return py, js


def infer(n):
    for k in [n, *getattr(n, 'kids', []), *getattr(n, 'items', {}).values()]:
        if isinstance(k, SetN):
            k.inferred = True
        if k is not n:
            infer(k)


class Any_(N):
    """the same value below an any schema"""

    def __init__(self, kid):
        self.kid, self.keys = kid, kid.keys
        infer(kid)

    def schema(self):
        return cs.any_schema()

    def value(self):
        return self.kid.value()

    def ref(self, inc, exc):
        return self.kid.ref(inc, exc)


class Wrap(N):
    def __init__(self, how, kid):
        self.how, self.kid, self.keys = how, kid, kid.keys

    def any_same(self):
        return self.kid.any_same()

    def schema(self):
        s = self.kid.schema()
        h = self.how
        if h == 'nullable':
            return cs.nullable_schema(s)
        if h == 'default':
            return cs.with_default_schema(s, default=None)
        if h == 'union':
            return cs.union_schema([cs.str_schema(), s])
        if h == 'defs':
            r = f'R{id(self)}'
            return cs.definitions_schema(cs.definition_reference_schema(r), [{**s, 'ref': r}])
        if h == 'wrap':
            return {**s, 'serialization': cs.wrap_serializer_function_ser_schema(lambda v, nxt: nxt(v), schema=s)} if 'serialization' not in s else \
                cs.nullable_schema(s, serialization=cs.wrap_serializer_function_ser_schema(lambda v, nxt: nxt(v), schema=s))
        if h == 'jop':
            return cs.json_or_python_schema(s, s)
        if h == 'los':
            return cs.lax_or_strict_schema(s, s)
        if h == 'chain':
            return cs.chain_schema([cs.any_schema(), s])
        if h == 'before':
            return cs.no_info_before_validator_function(lambda v: v, s)
        if h == 'custom':
            return cs.custom_error_schema(s, 'x', custom_error_message='x')
        raise AssertionError

    def value(self):
        return self.kid.value()

    def ref(self, inc, exc):
        return self.kid.ref(inc, exc)


WRAPS = ['nullable', 'default', 'union', 'defs', 'wrap', 'jop', 'los', 'chain', 'before', 'custom']


def kid(kind):
    S = Scalar
    if kind == 'scalar':
        return S()
    if kind in ('list', 'tuple', 'var', 'gen', 'headvar', 'long'):
        return Seq(kind, [S(1), S(2)])
    if kind == 'dict':
        return DictN({'a': S(1), 'b': S(2)})
    if kind == 'idict':
        return DictN({0: S(1), -1: S(2)})
    if kind == 'set':
        return SetN(set, Seq('var', [S(1), S(2)]))
    if kind in ('td', 'model', 'dc'):
        return Fields(kind, {'a': S(1), 'b': S(2)})
    raise AssertionError


def two(outer, k):
    """outer container with two kids of kind k"""
    if outer in ('list', 'tuple', 'var', 'gen', 'headvar', 'long'):
        return Seq(outer, [kid(k), kid(k)])
    if outer == 'dict':
        return DictN({'a': kid(k), 'b': kid(k)})
    if outer == 'idict':
        return DictN({0: kid(k), -1: kid(k)})
    if outer in ('set', 'frozenset'):
        return SetN(set if outer == 'set' else frozenset, kid(k))
    return Fields(outer, {'a': kid(k), 'b': kid(k)})


OUT = ['list', 'tuple', 'var', 'headvar', 'long', 'gen', 'dict', 'idict', 'td', 'model', 'dc']
IN = ['list', 'tuple', 'var', 'dict', 'idict', 'td', 'model', 'dc', 'set', 'gen']


def shapes():
    for o in OUT:
        for k in IN:
            if (o != 'gen' or k != 'gen') and (o != 'long' or k in ('list', 'tuple', 'dict', 'dc')):
                yield f'{o}[{k}]', (lambda o=o, k=k: two(o, k))
        yield f'{o}[scalar]', (lambda o=o: two(o, 'scalar'))
    for o in ('set', 'frozenset'):
        yield f'{o}[tuple]', (lambda o=o: SetN(set if o == 'set' else frozenset, kid('var')))
    # schema-level filters
    S3 = lambda kind, **kw: Seq(kind, [kid('list'), kid('list'), kid('list')], **kw)
    for kind in ('list', 'tuple', 'var', 'gen'):
        for kw in (dict(sinc={0}), dict(sexc={0}), dict(sinc={0, 1}, sexc={1}), dict(sinc=set()), dict(sexc=set())):
            yield f'{kind}{kw}', (lambda kind=kind, kw=kw: S3(kind, **kw))
    for kw in (dict(sinc={'a'}), dict(sexc={'a'}), dict(sinc={'a', 'b'}, sexc={'b'}), dict(sinc=set()), dict(sexc={'zz'})):
        yield f'dict{kw}', (lambda kw=kw: DictN({'a': kid('list'), 'b': kid('list'), 'c': kid('list')}, **kw))
        yield f'list[dict{kw}]', (lambda kw=kw: Seq('list', [DictN({'a': Scalar(1), 'b': Scalar(2), 'c': Scalar(3)}, **kw), DictN({'b': Scalar(2), 'a': Scalar(1)}, **kw)]))
    yield 'dict int schema exclude', lambda: DictN({-1: kid('list'), -2: kid('list'), 0: kid('list')}, sexc={-1})
    # fields: excluded, extras, computed, aliases, own serializers
    for k in ('td', 'model', 'dc'):
        for opt in (dict(excl=('a',)), dict(cc=True), dict(alias=True), dict(extras={'x': kid('list')}), dict(excl=('a',), cc=True), dict(own=True),
                    dict(own=True, excl=('b',), cc=True)):
            if k == 'dc' and 'extras' in opt or k == 'td' and opt.get('own'):
                continue
            mkf = lambda k=k, opt=opt: Fields(k, {'a': kid('list'), 'b': kid('dict')}, **opt)
            yield f'{k} {sorted(opt)}', mkf
            yield f'list[{k} {sorted(opt)}]', (lambda mkf=mkf: Seq('list', [mkf()]))
            if opt.get('own'):
                yield f'any[{k} {sorted(opt)}]', (lambda mkf=mkf: Any_(mkf()))
                yield f'list[any[{k} {sorted(opt)}]]', (lambda mkf=mkf: Seq('list', [Any_(mkf()), Any_(kid('list'))]))
    for k in ('list', 'dict', 'td', 'tuple', 'scalar'):
        yield f'root[{k}]', (lambda k=k: Fields('root', {'root': two(k, 'list') if k != 'scalar' else Scalar()}))
        yield f'list[root[{k}]]', (lambda k=k: Seq('list', [Fields('root', {'root': kid(k)})]))
    # inferred
    for o in ('list', 'tuple', 'dict', 'idict', 'set'):
        for k in ('list', 'var', 'dict', 'set'):
            if o != 'set' or k == 'var':
                yield f'any[{o}[{k}]]', (lambda o=o, k=k: Any_(two(o, k)))
                yield f'list[any {k}] in {o}', (lambda o=o, k=k: two(o, k) if o == 'set' else Seq('list', [Any_(two(o, k))] * 2))
    for w in WRAPS:
        for o in ('list', 'dict', 'model', 'tuple', 'dc', 'td'):
            yield f'{w}[{o}]', (lambda w=w, o=o: Wrap(w, two(o, 'list')))
            yield f'{o}[{w}]', (lambda w=w, o=o: Seq('list', [Wrap(w, kid(o)), Wrap(w, kid(o))]) if o in ('list', 'dict', 'tuple') else
                                Fields(o, {'a': Wrap(w, kid('list')), 'b': Wrap(w, kid('dict'))}))
    # lengths and mixed
    for n in (0, 1, 3):
        for kind in ('list', 'tuple', 'var', 'gen'):
            if n or kind != 'tuple':
                yield f'{kind}{n}', (lambda n=n, kind=kind: Seq(kind, [kid('list') for _ in range(n)] or []) if n else Empty(kind))


class Empty(Seq):
    def __init__(self, kind):
        Seq.__init__(self, kind, [])

    def schema(self):
        return Seq(self.kind, [kid('list')]).schema()


def deep():
    for a, b, c in itertools.product(('list', 'dict', 'model', 'tuple'), ('list', 'dict', 'td'), ('list', 'dict')):
        def make(a=a, b=b, c=c):
            def inner():
                return Seq('list', [kid(c), kid(c)]) if b == 'list' else DictN({'a': kid(c), 'b': kid(c)}) if b == 'dict' else Fields('td', {'a': kid(c), 'b': kid(c)})
            if a in ('list', 'tuple'):
                return Seq(a, [inner(), inner()])
            return DictN({'a': inner(), 'b': inner()}) if a == 'dict' else Fields('model', {'a': inner(), 'b': inner()})
        yield f'{a}[{b}[{c}]]', make


def first_kid(n):
    if isinstance(n, (Any_, Wrap)):
        return first_kid(n.kid)
    if isinstance(n, Seq):
        return n.kids[0] if n.kids else kid('list')
    if isinstance(n, SetN):
        return n.kid
    if isinstance(n, DictN):
        return next(iter(n.items.values()))
    if isinstance(n, Fields):
        k = next(iter(n.fields.values()))
        return first_kid(k) if n.kind == 'root' else k
    return Scalar()


def top(n):
    while isinstance(n, (Any_, Wrap)) or isinstance(n, Fields) and n.kind == 'root':
        n = n.kid if not isinstance(n, Fields) else next(iter(n.fields.values()))
    return n


def leafsets(keys, m=2):
    yield set()
    for r in range(1, m + 1):
        for c in itertools.combinations(keys, r):
            yield set(c)


def filters(n, depth, wide=True):
    """the filter language for a node, outermost first"""
    keys = top(n).keys
    yield from leafsets(keys, 2 if wide else 1)
    if wide:
        yield {}
        yield frozenset(k for k in keys if not (isinstance(k, int) and k < 0))
    if depth == 1:
        for k in keys if wide else keys[:1]:
            yield {k: ELL}
            yield {k: True}
        return
    sub = list(filters(first_kid(n), depth - 1, False)) if depth > 2 or not wide else list(leafsets(top(first_kid(n)).keys, 2)) + [{}, {top(first_kid(n)).keys[0]: ELL}]
    for k in keys:
        for v in [ELL, True] + sub if wide else [ELL] + sub[:6]:
            yield {k: v}
    if wide:
        red = [ELL] + [s for s in sub if len(s) == 1][:3] + [{'__all__'}] + [{k: ELL for k in top(first_kid(n)).keys[:1]}]
        for a, b in itertools.combinations(keys, 2):
            for x, y in itertools.product(red, red):
                yield {a: x, b: y}


def submerge(n):
    """a small language of two-level filters for a node, to be merged pairwise"""
    keys = [k for k in top(n).keys if not (isinstance(k, int) and k < 0)][:2] + ['__all__']
    sub = [k for k in top(first_kid(n)).keys if not (isinstance(k, int) and k < 0)][:2]
    for v in (ELL, True, {sub[0]}, {sub[-1]: ELL}, {'__all__': {0}} if len(sub) else ELL, {sub[0]: {0}, sub[-1]: ELL}, set(), {}):
        for k in keys:
            yield {k: v}
        yield {keys[0]: v, keys[-1]: {sub[-1]}}
    yield {keys[0]}
    yield set(keys[:2])


def merges(n):
    """a specific entry and the `__all__` entry at the same place, each with filters of their own"""
    ks = [k for k in top(n).keys if not (isinstance(k, int) and k < 0)]
    sub = list(submerge(first_kid(n)))
    for a, b in itertools.product(sub, sub):
        yield {ks[0]: a, '__all__': b}


def ambiguous(f, n):
    """names one index twice with different contents"""
    if not isinstance(f, dict):
        return False
    m = top(n)
    if isinstance(m, Seq):
        L = len(m.kids)
        ks = [k for k in f if isinstance(k, int)]
        if len({k + L if k < 0 else k for k in ks}) < len(ks):
            return True
    c = first_kid(n)
    if not (isinstance(c, Scalar) or isinstance(top(c), Scalar)):
        if any(ambiguous(v, c) for v in f.values()):
            return True
        L = len(top(c).kids) if isinstance(top(c), Seq) else None
        if L is not None and '__all__' in f:  # merged filters may name an index twice too
            vs = [v for v in f.values() if isinstance(v, (dict, set))]
            if any(isinstance(v, dict) and any(not is_ell(x) for x in v.values()) for v in vs):
                ks = set().union(*[set(v) for v in vs])
                ks = [k for k in ks if isinstance(k, int)]
                if len({k + L if k < 0 else k for k in ks}) < len(ks):
                    return True
            # a union of sets is fine, a dict of ... and a set too
    return False


def consume(v):
    """lazy iterators become lists, in nested containers too"""
    t = type(v)
    if t.__name__ == 'SerializationIterator':
        return [consume(x) for x in v]
    if t is list or t is tuple:
        return t(consume(x) for x in v)
    if t is dict:
        return {k: consume(x) for k, x in v.items()}
    return v


def run(fn):
    try:
        return 'ok', fn()
    except Exception as e:
        guard(e, 'serialize')
        return 'exc', type(e).__name__, str(e)[:120]


def same(got, want):
    return got[0] == 'ok' and canon(got[1]) == canon(want)


def check_pair(ctx, name, node, ser, anyser, inc, exc, by_alias):
    if ambiguous(inc, node) or ambiguous(exc, node):
        ctx.ev('ambiguous', None)
        return
    try:
        py, js = node.ref(inc, exc)
        bad = None
    except Bad as e:
        bad = str(e)
    kw = dict(include=inc, exclude=exc, by_alias=by_alias)
    kw2 = dict(kw, warnings='none') if 'long' in name else kw
    routes = [('python', lambda: consume(ser.to_python(node.value(), **kw2)), 'py'), ('json mode', lambda: ser.to_python(node.value(), mode='json', **kw2), 'js'),
              ('to_json', lambda: json.loads(ser.to_json(node.value(), **kw2)), 'js')]
    if anyser is not None:
        routes += [('any python', lambda: consume(anyser.to_python(node.value(), **kw)), 'py'), ('any json mode', lambda: anyser.to_python(node.value(), mode='json', **kw), 'js'),
                   ('any to_json', lambda: json.loads(anyser.to_json(node.value(), **kw)), 'js'),
                   ('to_jsonable_python()', lambda: to_jsonable_python(node.value(), **kw), 'js'),
                   ('to_json()', lambda: json.loads(to_json(node.value(), **kw)), 'js')]
    with warnings.catch_warnings():
        warnings.simplefilter('error')
        for rname, fn, which in routes:
            ctx.step()
            r = run(fn)
            if bad is not None:
                ok = r[0] == 'exc'
                ctx.check(ok, f'bad filter accepted: {name}: {rname}', include=repr(inc), exclude=repr(exc), got=repr(r))
                ctx.ev('bad', None)
                continue
            want = py if which == 'py' else js
            ctx.ev('ok', (name, rname, repr(want)[:40]) if (inc is not None or exc is not None) and want else None)
            if not same(r, want):
                ctx.fail(f'selection: {name}: {rname}', include=repr(inc), exclude=repr(exc), got=repr(r), want=repr(want))


def explore(ctx):
    items = list(shapes())
    def work():
        for name, make in items:
            yield name, make, 2, 0
            yield name, make, 2, 1
        for name, make in deep():
            yield name, make, 3, 0
            yield name, make, 3, 1
            yield name, make, 3, 2
    for name, make, depth, part in ctx.split(work()):
        node = make()
        ser = SchemaSerializer(node.schema())
        anyser = SchemaSerializer(cs.any_schema()) if node.any_same() else None
        ctx.state(name)
        fs = list(filters(node, depth) if part < 2 else merges(node))
        ctx.sample(name, len(fs), fs[-1])
        al = 'alias' in name
        if part != 1:
            check_pair(ctx, name, node, ser, anyser, None, None, al)
            for f in fs:
                check_pair(ctx, name, node, ser, anyser, f, None, al)
                check_pair(ctx, name, node, ser, anyser, None, f, al)
        else:
            if depth == 3 and ctx.quick:
                continue
            step = max(1, len(fs) // (16 if ctx.quick else 70))
            red = fs[::step]
            for i, x in itertools.product(red, red):
                check_pair(ctx, name, node, ser, anyser, i, x, al)
        ctx.trace_done()
    # the value of an enum member and what a fallback function makes of an unknown object are filtered as if they stood there
    class Unknown:
        def __init__(self, v):
            self.v = v

    def value_of(u):
        return u.v
    anyser, anylist = SchemaSerializer(cs.any_schema()), SchemaSerializer(cs.list_schema(cs.any_schema()))
    for name, make in ctx.split(items):
        node = make()
        if not node.any_same():
            continue
        al = 'alias' in name
        fs = list(filters(node, 2))
        fs = [None] + fs[::max(1, len(fs) // (40 if ctx.quick else 400))]
        member = lambda: enum.Enum('E', {'m': node.value()}).m
        for i, x in [(f, None) for f in fs] + [(None, f) for f in fs[1:]] + list(itertools.product(fs[1::7], fs[2::7])):
            if ambiguous(i, node) or ambiguous(x, node):
                continue
            try:
                py, js = node.ref(i, x)
            except Bad:
                continue
            kw = dict(include=i, exclude=x, by_alias=al)
            lkw = dict(include=None if i is None else {0: i}, exclude=None if x is None else {0: x}, by_alias=al)
            for what, val, more in (('enum member', member, {}), ('fallback', lambda: Unknown(node.value()), dict(fallback=value_of))):
                routes = [('json mode', lambda: anyser.to_python(val(), mode='json', **kw, **more), js), ('to_json', lambda: json.loads(anyser.to_json(val(), **kw, **more)), js),
                          ('to_json()', lambda: json.loads(to_json(val(), **kw, **more)), js), ('to_jsonable_python()', lambda: to_jsonable_python(val(), **kw, **more), js),
                          ('in list json mode', lambda: anylist.to_python([val()], mode='json', **lkw, **more), [js]), ('in list to_json', lambda: json.loads(anylist.to_json([val()], **lkw, **more)), [js])]
                if more:
                    routes += [('python', lambda: consume(anyser.to_python(val(), **kw, **more)), py), ('in list python', lambda: consume(anylist.to_python([val()], **lkw, **more)), [py])]
                for rname, fn, want in routes:
                    ctx.step()
                    r = run(fn)
                    ctx.ev('behind', (name, what, rname))
                    if not same(r, want):
                        ctx.fail(f'selection behind {what}: {name}: {rname}', include=repr(i), exclude=repr(x), got=repr(r), want=repr(want))
        ctx.trace_done()
    for name in ctx.split(['types']):
        # filters which are neither set nor dict are refused by every route
        for node in (kid('list'), kid('dict'), kid('td'), kid('model'), kid('dc'), kid('tuple')):
            ser = SchemaSerializer(node.schema())
            for bad in (1, [1], 'a', False, object()):
                for kw in (dict(include=bad), dict(exclude=bad)):
                    rs = [run(lambda: ser.to_python(node.value(), **kw)), run(lambda: ser.to_python(node.value(), mode='json', **kw)), run(lambda: json.loads(ser.to_json(node.value(), **kw)))]
                    ctx.ev('types', None)
                    ctx.check(len({r[0] for r in rs}) == 1, 'bad filter type: routes disagree', got=repr(rs), filt=repr(kw))
