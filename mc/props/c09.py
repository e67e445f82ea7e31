"""C09: unions.  Every ordered list of branches from an alphabet x every input, compared with a
reference that computes value, exactness and fields-set count compositionally."""
import itertools, json
from mc.lib import *
from mc.refval import *

LEVEL = 'exploration'
RULE = ('ordered branch lists over an alphabet of leaf, container and model-like branches, each branch optionally wrapped, the union put in '
        'several contexts (also fields behind function, default and nullable layers), run on every input of the input alphabet in Python, JSON and strict mode; non-trivial when at least two branches accept the input')
BOUNDS = {'quick': 'all ordered pairs and triples of 15 leaves x 24 inputs; all ordered pairs/triples of 12 model-like branches x 60 dict inputs; '
                   'pairs of branches x 10 wrappers x 9 contexts with input lists of length <= 2; pairs of models with nested model/union/collection fields x 50 inputs; branches that sign their result x exact, subclass and coercible inputs; wrapped fields x 4 rivals',
          'thorough': 'also quadruples of leaves, quadruples of models, wrapper pairs on both branches, lists of length <= 3 and all pairs of the 90 nested models'}
ASSUME = ['a leaf branch run alone gives its own value and errors (decided by C01-C03, C27)',
          'exactness table as documented: same type exact, subclass/strict conversion strict, else lax']

PY_INPUTS = [1, 0, 2, '1', '12', 'red', 'x', True, False, 1.0, 1.5, Fl(1.0), b'1', None, SStr('1'), SInt(1),
             datetime.date(2020, 1, 1), datetime.datetime(2020, 1, 1), '2020-01-01', '2020-01-01T00:00:00', decimal.Decimal('1'), Color.red, Color.one, len, [1],
             datetime.time(1), datetime.timedelta(1), uuid.UUID(int=1), str(uuid.UUID(int=1)), 'http://a.b/', Url('http://a.b/')]
JSON_INPUTS = [1, 0, '1', '12', 'red', 'x', True, 1.0, 1.5, None, '2020-01-01', '2020-01-01T00:00:00', [1], 123456789012345678901234567890]
LQ = ['int', 'float', 'str', 'bool', 'bytes', 'none', 'any', 'lit', 'date', 'datetime', 'decimal', 'enum', 'isinst', 'int_c', 'int_s', 'str_c', 'str_num', 'callable', 'time', 'timedelta', 'uuid', 'url']


def run(v, inp, mode, strict):
    if mode == 'json':
        return raw(v.validate_json, json.dumps(inp), strict=strict)
    return raw(v.validate_python, inp, strict=strict)


class Cmp:
    def __init__(self, ctx, node, key):
        self.ctx, self.node, self.key = ctx, node, key
        self.v = SchemaValidator(node.schema())

    def one(self, inp, mode, strict=None, nontrivial=None):
        ctx = self.ctx
        ctx.case(self.key, inp, mode, strict)
        try:
            exp = self.node.ref(inp, mode, strict)
        except Exception as e:
            exp = e
        k, v = run(self.v, inp, mode, strict)
        if isinstance(exp, Ok):
            ok = k == 'ok' and canon(v) == canon(exp.value)
            lab = f'ok ex={exp.ex} cnt={exp.cnt}'
        elif isinstance(exp, Err):
            ok = k == 'err' and list(errs(v)) == exp.lines
            lab = f'err n={len(exp.lines)}'
        elif isinstance(exp, OmitR):
            ok = k == 'exc'
            lab = 'omit'
        else:
            ok = k == 'exc' and type(v) is type(exp)
            lab = 'exc'
        ctx.ev(lab, (self.key, repr(inp), mode, strict) if nontrivial is None else nontrivial)
        if not ok:
            ctx.fail(f'{self.key} {mode} strict={strict} input={inp!r}', expected=exp, got=(k, canon(v) if k == 'ok' else errs(v) if k == 'err' else v))


def nm(b):
    if isinstance(b, Leaf):
        return b.name
    if isinstance(b, FieldsN):
        return b.name
    if isinstance(b, Wrapped):
        return f'{b.kind}({nm(b.inner)})'
    if isinstance(b, (ListOf,)):
        return f'{b.kind}[{nm(b.item)}]'
    if isinstance(b, DictOf):
        return f'dict[{nm(b.item)}]'
    if isinstance(b, Union):
        return f'{b.mode[0]}u({",".join(nm(x) for x in b.branches)})'
    return type(b).__name__


def models():
    I, S, O, F = LEAVES['int'], LEAVES['str'], LEAVES['float'], LEAVES['bool']
    out = []
    k = 0

    def add(kind, extra='ignore', **f):
        nonlocal k
        k += 1
        out.append(FieldsN(kind, f'{ {"model": "M", "dataclass": "D", "typed-dict": "T"}[kind]}{k}', f, extra))
        return out[-1]
    add('model', a=(I, True))
    add('model', a=(I, True), b=(S, False))
    add('model', a=(S, True), b=(S, False), c=(I, False))
    add('model', 'forbid', a=(O, True))
    add('model', 'allow', a=(I, False))
    add('model', b=(I, False), c=(I, False))
    add('dataclass', a=(I, True), b=(I, False))
    add('dataclass', 'forbid', a=(S, True))
    add('typed-dict', a=(I, True), b=(I, False))
    add('typed-dict', 'allow', b=(S, True))
    inner1 = FieldsN('model', 'In1', {'a': (I, True)})
    inner2 = FieldsN('model', 'In2', {'a': (I, False), 'b': (I, False)})
    add('model', a=(Union([inner1, inner2, I]), True))
    add('model', a=(ListOf(inner2), False), b=(inner1, False))
    out.append(DictOf(I))
    out.append(LEAVES['any'])
    return out


def dict_inputs():
    vals = [1, '1', 'x']
    res = []
    for n in range(0, 4):
        for ks in itertools.combinations('abc', n):
            for vs in itertools.product(vals, repeat=n):
                res.append(dict(zip(ks, vs)))
    res += [{'a': 1, 'z': 1}, {'z': 1}, {'a': {'a': 1}}, {'a': {'a': 1, 'b': 2}}, {'a': {'b': 2}, 'b': {'a': 1}}, {'a': [{'a': 1}, {'b': 2}]},
            {'a': [{'a': 1, 'b': 1}], 'b': {'a': 3}}, {'a': [{}]}, {'a': [{'a': 'x'}]}, 1, None, [], {'a': 1.0}, {'a': True}]
    return res


class BSub(bytes):
    pass


class DSub(datetime.date):
    pass


class DTSub(datetime.datetime):
    pass


class TSub(datetime.time):
    pass


class TDSub(datetime.timedelta):
    pass


class DecSub(decimal.Decimal):
    pass


MARK_PY = PY_INPUTS + [BSub(b'1'), DSub(2020, 1, 1), DTSub(2020, 1, 1), DTSub(2020, 1, 1, 5), TSub(1), TDSub(1), DecSub('1'), DecSub('1.5'), 1j, complex(1), '1+2j', '1j', bytearray(b'1'),
                       [], (), set(), frozenset(), {}, (1,), {1}, frozenset([1]), {'a': 1}, 3600, 3600.5, '01:00:00', 'P1D', b'P1D', b'2020-01-01', uuid.UUID(int=1).bytes, b'\xff', -0.0, 2**70, SInt(2**70), decimal.Decimal('1.5'), float('inf')]
MARK_JSON = JSON_INPUTS + ['01:00:00', 'P1D', 3600, 3600.5, str(uuid.UUID(int=1)), 'http://a.b/', '1+2j', [], {}, {'a': 1}, 1e300, -1, '1.5', 2**70]


def own(t, strict_json=True):
    """a collection of anything: exact when given as it is (or as the array or object of JSON which stands for it)"""
    def f(inp, mode, leaf):
        if mode == 'json':
            return EXACT if t in (list, dict) else STRICT
        return EXACT if type(inp) is t else LAX
    return f


class Marked(N):
    """a branch which signs its values"""

    def __init__(self, inner, tag):
        self.inner, self.tag = inner, tag

    def schema(self):
        return cs.no_info_after_validator_function(lambda v: (self.tag, v), self.inner.schema())

    def ref(self, inp, mode, strict=None):
        r = self.inner.ref(inp, mode, strict)
        return Ok((self.tag, r.value), r.ex, r.cnt) if isinstance(r, Ok) else r


def marked(ctx):
    """which branch was taken, also where the values alike do not tell"""
    L = dict(LEAVES)
    L['uuid'] = Leaf('uuid', cs.uuid_schema(), lambda i, m, l: EXACT if m == 'json' or type(i) is uuid.UUID else LAX)    # a string of JSON stands for it
    for n, t, s in (('list', list, cs.list_schema()), ('set', set, cs.set_schema()), ('frozenset', frozenset, cs.frozenset_schema())):
        L[n] = Leaf(n, s, own(t))
    ns = LQ + ['list', 'set', 'frozenset']
    quick3 = ['bytes', 'date', 'datetime', 'time', 'timedelta', 'decimal', 'uuid', 'int', 'float', 'str', 'any']
    for r, pool in ((2, ns), (3, quick3 if ctx.quick else ns)):
        for c3 in ctx.split(list(itertools.permutations(pool, r))):
            if 'any' in c3 and {'url', 'set', 'frozenset'} & set(c3):
                continue    # how exact these are against an any branch is not judged
            bs = [Marked(L[n], i) for i, n in enumerate(c3)]
            for um in ('smart', 'left_to_right')[:1 if r == 3 else 2]:
                c = Cmp(ctx, Union(bs, um), f'marked {um} union({",".join(c3)})')
                for st in (None, True) if r == 2 else (None,):
                    for inp in MARK_PY:
                        c.one(inp, 'python', st)
                    for inp in MARK_JSON:
                        c.one(inp, 'json', st)
            if r == 2:
                lists = Union([ListOf(b) for b in bs])
                c = Cmp(ctx, lists, f'marked lists union({",".join(c3)})')
                for inp in MARK_PY:
                    c.one([inp], 'python')
                for inp in MARK_JSON:
                    c.one([inp], 'json')
            ctx.sample('marked', c3)


def explore(ctx):
    marked(ctx)
    # 1. leaves
    orders = [2, 3] if ctx.quick else [2, 3, 4]
    for r in orders:
        pool = LQ if r < 4 else ['int', 'float', 'str', 'bool', 'any', 'lit', 'date', 'datetime', 'enum', 'int_s', 'none']
        for names in ctx.split(itertools.permutations(pool, r)):
            bs = [LEAVES[n] for n in names]
            for um in (('smart', 'left_to_right') if r == 2 or not ctx.quick else ('smart',)):
                c = Cmp(ctx, Union(bs, um), f'{um} union({",".join(names)})')
                for inp in PY_INPUTS:
                    c.one(inp, 'python')
                for inp in JSON_INPUTS:
                    c.one(inp, 'json')
                if r == 2:
                    for inp in PY_INPUTS:
                        c.one(inp, 'python', True)
                    for inp in JSON_INPUTS:
                        c.one(inp, 'json', True)
            if r == 2:
                for kw in (dict(labels=['L1', 'L2']), dict(custom=True)):
                    c = Cmp(ctx, Union(bs, 'smart', **kw), f'union({",".join(names)}) {kw}')
                    for inp in PY_INPUTS:
                        c.one(inp, 'python')
            ctx.sample(names)
    # 2. model-like branches
    ms = models()
    di = dict_inputs()
    for r in ([2, 3] if ctx.quick else [2, 3, 4]):
        for bs in ctx.split(list(itertools.permutations(ms if r < 4 else ms[:9], r))):
            us = ['smart', 'left_to_right'] if r == 2 else ['smart']
            for um in us:
                c = Cmp(ctx, Union(list(bs), um), f'{um} union({",".join(map(nm, bs))})')
                for inp in di if r == 2 or not ctx.quick else di[:24] + di[-14:]:
                    c.one(inp, 'python')
                    if r == 2:
                        c.one(inp, 'json')
                        c.one(inp, 'python', True)
                # instances of the classes
                for b in bs:
                    if getattr(b, 'cls', None):
                        e = b.ref({'a': 1, 'b': 1, 'c': 1} if b.name not in ('D8',) else {'a': 'x'}, 'python')
                        if isinstance(e, Ok):
                            c.one(e.value, 'python')
    # 3. wrappers and contexts
    base = [LEAVES[n] for n in ('int', 'str', 'float', 'bool', 'any', 'date', 'lit')] + ms[:3] + [ms[6], ms[8], ListOf(LEAVES['int']), ListOf(LEAVES['str'])]
    wk = ['los', 'nullable', 'after', 'before', 'wrap', 'def', 'default', 'chain', 'jop', 'nested1', 'ltr_fail']
    item_inputs = [1, '1', 1.0, True, None, 'x', '2020-01-01', {'a': 1}, {'a': '1', 'b': '2'}, [1], ['1'], {}]
    pairs = list(itertools.permutations(base, 2))
    for x, y in ctx.split(pairs):
        for k1 in wk:
            if k1 == 'def' and False:
                continue
            for k2 in ([None] if ctx.quick else [None] + wk):
                for sw in (0, 1):
                    bx, by = Wrapped(x, k1), y if k2 is None else Wrapped(y, k2)
                    u = Union([bx, by] if not sw else [by, bx])
                    c = Cmp(ctx, u, f'union({nm(bx)},{nm(by)}) sw={sw}')
                    for inp in item_inputs:
                        if k1 in ('before', 'wrap', 'after') or k2 in ('before', 'wrap', 'after'):
                            c.one(inp, 'python')
                        else:
                            c.one(inp, 'python')
                            c.one(inp, 'json')
    L = 2 if ctx.quick else 3
    for x, y in ctx.split(pairs):
        inner = Union([x, y])
        ltr = Union([x, y], 'left_to_right')
        third = LEAVES['str'] if LEAVES['str'] not in (x, y) else LEAVES['int']
        M = FieldsN('model', 'Outer', {'f': (inner, True), 'g': (inner, False)})
        M2 = FieldsN('model', 'Outer2', {'f': (LEAVES['any'], True)})
        contexts = [
            ('list', ListOf(inner), True), ('dict', DictOf(inner), True), ('nested-first', Union([inner, third]), False),
            ('nested-last', Union([third, inner]), False), ('nested-ltr', Union([ltr, third]), False),
            ('list-vs', Union([ListOf(inner), ListOf(third)]), True), ('list-vs2', Union([ListOf(third), ListOf(inner)]), True),
            ('list-vs-ltr', Union([ListOf(third), ListOf(ltr)]), True),
            ('tuple-vs', Union([ListOf(inner, 'tuple'), ListOf(LEAVES['any'])]), True),
            ('omit', Union([ListOf(Union([OmitN(), x, y])), ListOf(third)]), True),
            ('omit-last', Union([ListOf(Union([x, OmitN()])), ListOf(y)]), True),
            ('ltr-then-any', Union([Union([ListOf(x), ListOf(y), ListOf(LEAVES['str'])], 'left_to_right'), ListOf(LEAVES['any'], 'tuple'), ListOf(LEAVES['float'])]), True),
            ('ltr-items', Union([ListOf(Union([ListOf(x), y], 'left_to_right')), ListOf(Union([LEAVES['str'], LEAVES['float']]))]), True),
            ('td-count', Union([DictOf(Union([ms[5], ms[8], x], 'left_to_right')), DictOf(ms[3]), DictOf(y)]), True),
            ('fail-then', Union([Union([ListOf(x), ListOf(y)], 'left_to_right'), ListOf(third)]), True),
        ]
        for name, node, islist in contexts:
            c = Cmp(ctx, node, f'{name} of union({nm(x)},{nm(y)})')
            if islist:
                ins = item_inputs + (['OMIT'] if 'omit' in name else [])
                for seq in seqs(ins if L < 3 or True else ins, L):
                    if L == 3 and len(seq) == 3 and not (isinstance(seq[0], (int, str)) and isinstance(seq[1], (int, str))):
                        continue
                    inp = {f'k{i}': s for i, s in enumerate(seq)} if name in ('dict', 'td-count') else list(seq)
                    c.one(inp, 'python')
                    if len(seq) < 2:
                        c.one(inp, 'json')
            else:
                for inp in item_inputs:
                    c.one(inp, 'python')
                    c.one(inp, 'json')
        for node in (M, Union([M2, M]), Union([M, M2])):
            c = Cmp(ctx, node, f'model {nm(node)} of union({nm(x)},{nm(y)})')
            for a, b in itertools.product(item_inputs, item_inputs):
                c.one({'f': a, 'g': b}, 'python')
            for a in item_inputs:
                c.one({'f': a}, 'python')
    # 4. pairs of models whose fields are themselves models, unions or collections of them: the counts add up over all fields
    I, S, A = LEAVES['int'], LEAVES['str'], LEAVES['any']
    in2 = FieldsN('model', 'In2', {'p': (I, False), 'q': (I, False)})
    in1 = FieldsN('typed-dict', 'In1', {'p': (I, False)})
    kinds = {'any': A, 'in2': in2, 'u(int,str)': Union([I, S]), 'u(in2,int)': Union([in2, I]), 'u(int,in1)': Union([I, in1]), 'ltr(in1,str)': Union([in1, S], 'left_to_right'),
             'list in2': ListOf(in2), 'nullable': Wrapped(in2, 'nullable'), 'u(any,in2)': Union([A, in2])}
    names = list(kinds)
    outers = []
    for k1, k2 in itertools.product(names, names):
        outers.append((f'{k1};{k2}', FieldsN('model', 'O', {'f': (kinds[k1], True), 'g': (kinds[k2], True)})))
    for k1 in names:
        outers.append((f'{k1};any;any', FieldsN('dataclass', 'O', {'f': (kinds[k1], True), 'g': (A, False), 'h': (A, False)})))
    fv = [{'p': 1, 'q': 2}, {'p': 1}, 1, 'x', [{'p': 1, 'q': 2}]]
    for (n1, o1), (n2, o2) in ctx.split(p for p in itertools.permutations(outers, 2) if not ctx.quick or p[0][0].split(';')[0] == 'any' or p[1][0].count(';') == 2 or p[0][0].split(';')[::-1] == p[1][0].split(';')):
        c = Cmp(ctx, Union([o1, o2]), f'nested models union({n1} | {n2})')
        for a, b in itertools.product(fv, fv):
            for inp in ({'f': a, 'g': b}, {'f': a, 'g': b, 'h': 1}):
                c.one(inp, 'python')
            if not ctx.quick:
                c.one(inp, 'json')
    # 5. the same fields behind wrappers: what a function, default or nullable layer passes on adds to what earlier fields counted
    kinds = {k: kinds[k] for k in ('any', 'in2', 'u(in2,int)', 'ltr(in1,str)', 'list in2')}
    rivals = [FieldsN('dataclass', 'R3', {'f': (A, True), 'g': (A, False), 'h': (A, False)}), FieldsN('model', 'R2', {'f': (A, True), 'g': (A, True)}),
              FieldsN('model', 'R4', {'f': (in2, True), 'g': (A, False), 'h': (A, False)}), FieldsN('typed-dict', 'Rw', {'f': (A, True), 'g': (Wrapped(in2, 'wrap'), True)})]
    for k1, w1, k2, w2 in ctx.split(itertools.product(kinds, (None, 'wrap'), kinds, ('wrap', 'before', 'after', 'los', 'default', 'nullable', 'def', 'chain'))):
        o1 = FieldsN('model', 'O', {'f': (Wrapped(kinds[k1], w1) if w1 else kinds[k1], True), 'g': (Wrapped(kinds[k2], w2), True)})
        for r in rivals:
            for pair in ((o1, r), (r, o1)):
                c = Cmp(ctx, Union(list(pair)), f'wrapped fields union({k1}/{w1};{k2}/{w2} | {r.name})')
                for a, b in itertools.product(fv, fv):
                    for inp in ({'f': a, 'g': b}, {'f': a, 'g': b, 'h': 1}):
                        c.one(inp, 'python')
                        if not ctx.quick:
                            c.one(inp, 'json')
