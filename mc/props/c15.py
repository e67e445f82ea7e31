"""C15: lazy generators.  Explicit-state exploration of iterator histories: every sequence of next / fresh call / other-call /
collect / repr operations up to a depth on one or two iterators made by one validator over instrumented sources (logging every
pull, raising, re-entering, infinite, JSON), against a reference iterator; the same for SerializationIterator."""
import gc, itertools, json, operator
from pydantic_core import to_jsonable_python
from mc.lib import *
from mc.zoo import mk, Attr

LEVEL = 'model_checking'
RULE = ('operation sequences over iterators of one validator / serializer x sources x length bounds x item schemas x runtime settings; every step (value, error with '
        'location and input, pulls from the source, index) compared with a reference iterator; non-trivial: at least one item was pulled')
ASSUME = ['after an error the iterator goes on with the next item, as the code does']
BOUNDS = {'quick': 'all histories of <= 6 operations on two iterators (5 operations), sources of <= 4 items over 3 values, bounds in 0..3 and none',
          'thorough': 'histories of <= 8 operations'}


class Boom(Exception):
    pass


class Src:
    """an iterator which logs its pulls"""

    def __init__(self, items, log, tail=None):
        self.items, self.log, self.tail, self.i = items, log, tail, 0

    def __iter__(self):
        return self

    def __next__(self):
        self.log.append(self.i)
        if self.i < len(self.items):
            x = self.items[self.i]
            self.i += 1
            if x == 'RAISE':
                raise Boom(self.i)
            return x
        if self.tail is not None:
            self.i += 1
            return self.tail
        raise StopIteration


class Once:
    """an iterable whose __iter__ counts the calls"""

    def __init__(self, items):
        self.items, self.n = items, 0

    def __iter__(self):
        self.n += 1
        if self.n > 1:
            raise Boom('second iter')
        return iter(self.items)


class Ref:
    """reference iterator: items with their values, length bounds"""

    def __init__(self, items, item, lo=None, hi=None, whole=None, inf=None):
        self.items, self.item, self.lo, self.hi, self.i, self.inf, self.pulls = items, item, lo, hi, 0, inf, []
        self.p = 0

    def next(self):
        self.pulls.append(self.p)
        if self.p >= len(self.items) and self.inf is None:
            if self.lo is not None and self.i < self.lo:
                return ('err', [('too_short', ())], self.i)
            return ('stop',)
        x = self.items[self.p] if self.p < len(self.items) else self.inf
        self.p += 1
        if x == 'RAISE':
            return ('boom', self.p)
        n = self.i
        self.i += 1
        if self.hi is not None and n >= self.hi:
            return ('err', [('too_long', ())], None)
        if self.item is None:
            return ('ok', canon(x))
        r = self.item(x, n)
        return r


def strict_int(strict):
    def f(x, n):
        if type(x) is int:
            return ('ok', ('int', x))
        if type(x) is str and not strict and x.isdigit():
            return ('ok', ('int', int(x)))
        return ('err', [('int_type' if strict or type(x) is not str else 'int_parsing', (n,))], canon(x))
    return f


def nxt(it):
    try:
        return ('ok', canon(next(it)))
    except StopIteration:
        return ('stop',)
    except ValidationError as e:
        es = e.errors(include_url=False)
        d = None
        if es[0]['type'] == 'too_short':
            d = es[0]['ctx']['actual_length']
        elif es[0]['type'] == 'too_long':
            d = es[0]['ctx']['actual_length']
        else:
            d = canon(es[0]['input'])
        return ('err', [(x['type'], x['loc']) for x in es], d)
    except Boom as e:
        return ('boom', e.args[0])
    except BaseException as e:
        guard(e, 'next')
        return ('exc', repr(e)[:300])


ALPH = [1, '2', 'x']


def histories(ctx, lo, hi, depth):
    """two live iterators with different runtime settings, interleaved in every way, new ones started in between"""
    kw = {}
    if lo is not None:
        kw['min_length'] = lo
    if hi is not None:
        kw['max_length'] = hi
    v = SchemaValidator(cs.generator_schema(cs.int_schema(), **kw))
    nov = SchemaValidator(cs.generator_schema(**kw))
    ops = ['a', 'b', 'c', 'x', 'i']
    srcs = [([1, '2', 'x', 3], [1, '2']), (['x'], ['RAISE', 1, '5']), ([], [1, 'x', 'x']), ([1, 2, 3, 4], ['1'])]
    for sa, sb in srcs:
        for seq in itertools.product(ops, repeat=depth):
            la, lb = [], []
            ra, rb = Ref(sa, strict_int(False), lo, hi), Ref(sb, strict_int(True), lo, hi)
            A = v.validate_python(Src(sa, la))
            B = v.validate_python(Src(sb, lb), strict=True)
            C = RC = lc = None
            key = f'hist {lo},{hi} {sa} {sb} {"".join(seq)}'
            ok = True
            for n, op in enumerate(seq):
                if op == 'a':
                    g, w = nxt(A), ra.next()
                elif op == 'b':
                    g, w = nxt(B), rb.next()
                elif op == 'c':
                    if C is None:
                        C, RC = v.validate_json('[7, "8", "y", 9]', strict=True), Ref([7, '8', 'y', 9], strict_int(True), lo, hi)
                    g, w = nxt(C), RC.next()
                elif op == 'x':
                    # other uses of the same validator
                    g, w = (v.isinstance_python(5), v.isinstance_python([1], strict=True)), (False, True)
                    repr(A), str(B)
                else:
                    g, w = (A.index, B.index, operator.length_hint(A), iter(A) is A), (ra.i, rb.i, 0, True)
                ctx.step()
                if g != w:
                    ok = False
                    ctx.fail(key + f' @{n}', got=g, want=w)
                    break
            if ok:
                ctx.check(la == ra.pulls and lb == rb.pulls, key + ' pulls', got=(la, lb), want=(ra.pulls, rb.pulls))
            ctx.state((lo, hi, tuple(sa), ra.p, rb.p, None if RC is None else RC.p))
            ctx.ev('history', key if ra.p or rb.p else None)
            ctx.trace_done()


def forms(items):
    yield 'list', lambda: list(items), None
    yield 'tuple', lambda: tuple(items), None
    yield 'gen', lambda: (x for x in items), None
    yield 'dict', lambda: {x: 1 for x in items}, list(dict.fromkeys(items))
    yield 'keys', lambda: {x: 1 for x in items}.keys(), list(dict.fromkeys(items))
    yield 'values', lambda: {i: x for i, x in enumerate(items)}.values(), None
    yield 'once', lambda: Once(items), None
    import collections
    yield 'deque', lambda: collections.deque(items), None
    yield 'json', lambda: ('json', json.dumps(items)), None
    yield 'jsonobj', lambda: ('json', '{' + ','.join(f'{json.dumps(str(x))}: 1' for x in items) + '}'), list(dict.fromkeys(str(x) for x in items))
    if all(type(x) is str and len(x) == 1 for x in items):
        yield 'str', lambda: ''.join(items), None
        yield 'jsonstr', lambda: ('json', json.dumps(''.join(items))), None


def sources(ctx, items):
    """every source kind drained completely, with bounds"""
    for lo, hi in itertools.product((None, 0, 1, 2, 3), (None, 0, 1, 2, 3)):
        kw = {k: x for k, x in (('min_length', lo), ('max_length', hi)) if x is not None}
        for strict in (None, True):
            v = SchemaValidator(cs.generator_schema(cs.int_schema(), **kw))
            for name, mkf, its in forms(items):
                src = mkf()
                key = f'source {name} {items} {lo},{hi} strict={strict}'
                try:
                    it = v.validate_json(src[1], strict=strict) if type(src) is tuple and src and src[0] == 'json' else v.validate_python(src, strict=strict)
                except BaseException as e:
                    guard(e, key)
                    ctx.fail(key, got=repr(e)[:200])
                    continue
                r = Ref(items if its is None else its, strict_int(bool(strict)), lo, hi)
                for n in range(len(items) + 3):
                    g, w = nxt(it), r.next()
                    ctx.step()
                    if g != w:
                        ctx.fail(key + f' @{n}', got=g, want=w)
                        break
                ctx.ev('source', key if items else None)
                ctx.trace_done()


class GM(Model):
    pass


def item_kinds(ctx):
    """runtime settings reach items pulled late; item schemas of every kind"""
    seen = []

    def rec(v, info):
        seen.append((canon(v), info.mode, info.context, info.field_name, None if info.data is None else canon(info.data), info.data.get('a') if type(info.data) is dict else info.data))
        return v
    fn = lambda: cs.with_info_plain_validator_function(rec)
    model = lambda: cs.model_schema(GM, cs.model_fields_schema({'f': cs.model_field(cs.int_schema(), validation_alias='F')}, ))
    cases = []
    for strict, ctxv, ba, bn, fa in itertools.product((None, True, False), (None, {'c': 1}), (None, True, False), (None, True, False), (None, True, False)):
        if ba is False and bn is not True:
            continue
        kw = {k: x for k, x in (('strict', strict), ('context', ctxv), ('by_alias', ba), ('by_name', bn), ('from_attributes', fa)) if x is not None}
        items = [{'F': 1}, {'f': 1}, {'F': '1'}, Attr(F=1), Attr(f='1'), {'F': 1, 'f': 2}]
        # items in a list schema see the settings at once: the oracle
        lv = SchemaValidator(cs.list_schema(model()))
        gv = SchemaValidator(cs.generator_schema(model()))
        other = SchemaValidator(cs.generator_schema(model()))
        it = gv.validate_python(items, **kw)
        gv.validate_python([1], strict=not strict, from_attributes=not fa)
        for n, x in enumerate(items):
            want = outcome(lv.validate_python, [x], **kw)
            if want[0] == 'ok':
                want = ('ok', want[1][1])
            else:
                want = ('err', tuple((t, (n,) + l[1:]) for t, l in want[1]))
            got = outcome(next, it)
            ctx.step()
            ctx.check(got == want, f'settings {kw} item {n}', got=got, want=want)
            ctx.ev('settings', (str(kw), n))
        # JSON
        texts = json.dumps([{'F': 1}, {'f': 1}, {'F': '1'}, {'F': 1, 'f': 2}])
        jkw = {k: x for k, x in kw.items() if k != 'from_attributes'}
        it = gv.validate_json(texts, **jkw)
        for n, x in enumerate(json.loads(texts)):
            want = outcome(lv.validate_json, json.dumps([x]), **jkw)
            want = ('ok', want[1][1]) if want[0] == 'ok' else ('err', tuple((t, (n,) + l[1:]) for t, l in want[1]))
            got = outcome(next, it)
            ctx.step()
            ctx.check(got == want, f'settings json {jkw} item {n}', got=got, want=want)
            ctx.ev('settings', (str(kw), n, 'j'))
        # info of functions, inside a model field
        for mode in ('python', 'json'):
            mv = SchemaValidator(cs.model_fields_schema({'a': cs.model_field(cs.any_schema()), 'g': cs.model_field(cs.generator_schema(fn())), 'h': cs.model_field(cs.generator_schema(fn()))}))
            seen.clear()
            data = {'a': 5, 'g': [1, 2], 'h': [3]}
            d = (mv.validate_python(data, **kw) if mode == 'python' else mv.validate_json(json.dumps(data), **jkw))[0]
            ctx.check(seen == [], f'info {kw} early calls', seen=seen)
            next(d['h']), next(d['g']), next(d['g'])
            # the data dict is the one of the model being validated, complete by now
            got = [s[:4] + s[5:] for s in seen]
            want = [(('int', 3), mode, ctxv, 'h', 5), (('int', 1), mode, ctxv, 'g', 5), (('int', 2), mode, ctxv, 'g', 5)]
            ctx.check(got == want, f'info {kw} {mode}', got=got, want=want)
            ctx.ev('info', (str(kw), mode))
        ctx.trace_done()


def reentry(ctx):
    """a source or item function which uses the iterator itself or other iterators of the validator"""
    for what in ('source-self', 'source-other', 'fn-self', 'fn-other', 'fn-new', 'source-new'):
        log = []
        holder = {}

        def use():
            if holder.get('busy'):
                return
            holder['busy'] = True
            try:
                if what.endswith('self'):
                    log.append(nxt(holder['A'])[0])
                elif what.endswith('other'):
                    log.append(nxt(holder['B']))
                else:
                    log.append([nxt(i) for i in [holder['v'].validate_python([8])] for _ in range(2)])
            finally:
                holder['busy'] = False

        def src():
            for i in range(3):
                if what.startswith('source'):
                    use()
                yield i

        def item(x):
            if what.startswith('fn'):
                use()
            return x
        v = holder['v'] = SchemaValidator(cs.generator_schema(cs.no_info_after_validator_function(item, cs.int_schema())))
        holder['B'] = v.validate_python(iter([10, 11, 12, 13]))
        holder['A'] = v.validate_python(src())
        out = [nxt(holder['A']) for _ in range(4)]
        want = [('ok', ('int', 0)), ('ok', ('int', 1)), ('ok', ('int', 2)), ('stop',)]
        ctx.check(out == want, f'reentry {what}', got=out, want=want, log=log)
        if what.endswith('other'):
            ctx.check(log == [('ok', ('int', 10 + i)) for i in range(3)], f'reentry {what} other', log=log)
        elif what.endswith('new'):
            ctx.check(log == [[('ok', ('int', 8)), ('stop',)]] * 3, f'reentry {what} new', log=log)
        else:
            ctx.check(all(l in ('exc', 'stop', 'ok') for l in log), f'reentry {what}', log=log)
        ctx.ev('reentry', what)
        ctx.trace_done()


def nested(ctx):
    """generators of generators, in unions, defaults, lists; infinite sources"""
    v = SchemaValidator(cs.generator_schema(cs.generator_schema(cs.int_schema(), max_length=2)))
    for seq in itertools.product((0, 1, 'o'), repeat=6):
        o = v.validate_python([[1, 'x', 3], iter(['2'])])
        inner, refs = [], [Ref([1, 'x', 3], strict_int(False), None, 2), Ref(['2'], strict_int(False), None, 2)]
        opened = 0
        for op in seq:
            if op == 'o':
                try:
                    inner.append(next(o))
                    ok = opened < 2
                except StopIteration:
                    ok = opened >= 2
                opened = min(opened + 1, 2) if ok else opened
                ctx.check(ok, f'nested {seq}')
            elif op < len(inner):
                g, w = nxt(inner[op]), refs[op].next()
                ctx.check(g == w, f'nested {seq}', got=g, want=w)
            ctx.step()
        ctx.ev('nested', seq)
        ctx.trace_done()
    for hi in (None, 0, 1, 3):
        log = []
        v = SchemaValidator(cs.generator_schema(cs.int_schema(), **({} if hi is None else {'max_length': hi})))
        it = v.validate_python(Src([], log, tail=7))
        r = Ref([], strict_int(False), None, hi, inf=7)
        for n in range(6):
            g, w = nxt(it), r.next()
            ctx.check(g == w, f'infinite {hi} @{n}', got=g, want=w)
            ctx.step()
        ctx.check(log == r.pulls, f'infinite {hi} pulls', got=log, want=r.pulls)
        ctx.ev('infinite', hi)
    u = SchemaValidator(cs.union_schema([cs.int_schema(), cs.generator_schema(cs.int_schema())]))
    for x, w in ((5, ('ok', ('int', 5))),):
        ctx.check(outcome(u.validate_python, x) == w, 'union')
    log = []
    it = u.validate_python(Src([1, 'x'], log))
    ctx.check(log == [] and [nxt(it) for _ in range(3)] == [('ok', ('int', 1)), ('err', [('int_parsing', (1,))], ('str', 'x')), ('stop',)], 'union lazily', log=log)
    ctx.ev('union', 'u')


SA = [1, 'x', 2]


def ser_histories(ctx, depth):
    """SerializationIterator: lazily, once, in order, with its own warnings only"""
    def ref_items(items, include, exclude):
        for i, x in enumerate(items):
            if include is not None and i not in include or exclude is not None and i in exclude:
                continue
            yield i, x
    s = SchemaSerializer(cs.generator_schema(cs.int_schema()))
    fields = SchemaSerializer(cs.typed_dict_schema({'a': cs.typed_dict_field(cs.int_schema()), 'g': cs.typed_dict_field(cs.generator_schema(cs.int_schema()))}))

    class It:
        """reference: (value, warned) of every item kept"""

        def __init__(self, items, include=None, exclude=None):
            self.items, self.inc, self.exc, self.p, self.idx = items, include, exclude, 0, 0
            self.pulls = []

        def next(self):
            while True:
                self.pulls.append(self.p)
                if self.p >= len(self.items):
                    return ('stop',), ()
                x = self.items[self.p]
                self.p += 1
                if x == 'RAISE':
                    return ('boom', self.p), ()
                i = self.idx
                self.idx += 1
                if self.inc is not None and i not in self.inc or self.exc is not None and i in self.exc:
                    continue
                return ('ok', canon(x)), (1,) if type(x) is str else ()

    def step(it):
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter('always')
            r = nxt(it)
        # every reported line
        n = sum(str(x.message).count('PydanticSerializationUnexpectedValue') for x in w)
        return r, tuple([1] * n)
    for src in (SA, ['x', 1, 'y', 2], ['RAISE', 1, 'x'], []):
        for inc, exc in ((None, None), ({0, 2}, None), (None, {0}), ({0, 1}, {1}), ({5}, None)):
            for seq in itertools.product('abx', repeat=depth):
                la, lb = [], []
                A, ra = s.to_python(Src(src, la), include=inc, exclude=exc), It(src, inc, exc)
                B, rb = s.to_python(Src(SA, lb)), It(SA)
                key = f'ser {src} {inc} {exc} {"".join(seq)}'
                for n, op in enumerate(seq):
                    if op == 'a':
                        g, w = step(A), ra.next()
                    elif op == 'b':
                        g, w = step(B), rb.next()
                    else:
                        g, w = (A.index, B.index, s.to_json(iter([1])), iter(A) is A), (ra.idx, rb.idx, b'[1]', True)
                    ctx.step()
                    if g != w:
                        ctx.fail(key + f' @{n}', got=g, want=w)
                        break
                else:
                    ctx.check(la == ra.pulls and lb == rb.pulls, key + ' pulls', got=(la, lb), want=(ra.pulls, rb.pulls))
                ctx.state(('ser', tuple(src), str(inc), str(exc), ra.p, rb.p))
                ctx.ev('ser-history', key if ra.p or rb.p else None)
                ctx.trace_done()
            # JSON forms
            it = It(src, inc, exc)
            want = []
            while True:
                r, _ = it.next()
                if r[0] != 'ok':
                    break
                want.append(r[1][1])
            if r[0] == 'stop':
                for fn, tag in ((lambda: json.loads(s.to_json(Src(src, []), include=inc, exclude=exc, warnings=False)), 'json'), (lambda: s.to_python(Src(src, []), mode='json', include=inc, exclude=exc, warnings=False), 'pyjson')):
                    g = raw(fn)
                    ctx.check(g == ('ok', want), f'ser {tag} {src} {inc} {exc}', got=g, want=want)
                    ctx.ev('ser-json', (tag, str(src), str(inc), str(exc)))
    # warnings of the enclosing call are not reported again by the iterator, errors neither
    for mode in ('warn', 'error', 'none'):
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter('always')
            try:
                r = fields.to_python({'a': 1, 'g': iter([1, 'x', 2])}, warnings=mode)
                out = []
                for _ in range(4):
                    try:
                        out.append(next(r['g']))
                    except StopIteration:
                        out.append('stop')
                    except PydanticSerializationError:
                        out.append('error')
            except Exception as e:
                out = repr(e)
        n = sum(str(x.message).count('PydanticSerializationUnexpectedValue') for x in w)
        ctx.check(out == [1, 'error' if mode == 'error' else 'x', 2, 'stop'] and n == (1 if mode == 'warn' else 0), f'ser warnings {mode}', got=out, n=n)
        ctx.ev('ser-warn', mode)
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        r = fields.to_python({'a': 'bad', 'g': iter([1, 2])})
        out = list(r['g'])
    n = sum(str(x.message).count('PydanticSerializationUnexpectedValue') for x in w)
    ctx.check(out == [1, 2] and n == 1, 'ser warnings of the enclosing call', n=n, out=out)
    # settings reach late items
    class SM(Model):
        pass
    sm = lambda: cs.model_schema(SM, cs.model_fields_schema({'a': cs.model_field(cs.any_schema(), serialization_alias='A'), 'b': cs.model_field(cs.with_default_schema(cs.any_schema(), default=1))}))
    infos = []

    def fser(v, info):
        infos.append((info.mode, info.context, info.by_alias, info.exclude_unset, info.exclude_defaults, info.exclude_none, info.round_trip))
        return v
    gs = SchemaSerializer(cs.generator_schema(sm()))
    ls = SchemaSerializer(cs.list_schema(sm()))
    fs = SchemaSerializer(cs.generator_schema(cs.any_schema(serialization=cs.plain_serializer_function_ser_schema(fser, info_arg=True))))
    items = [mk(SM, None, {'a'}, a=None, b=1), mk(SM, None, {'a', 'b'}, a=1, b=1), mk(SM, None, {'b'}, a=2, b=None)]
    for by, eu, ed, en, rt, c in itertools.product((None, True, False), (False, True), (False, True), (False, True), (False, True), (None, {'k': 1})):
        kw = dict(by_alias=by, exclude_unset=eu, exclude_defaults=ed, exclude_none=en, round_trip=rt, context=c)
        it = gs.to_python(iter(items), **kw)
        gs.to_python(iter(items), by_alias=not by, exclude_none=not en)
        want = ls.to_python(items, **kw)
        got = list(it)
        ctx.check(canon(got) == canon(want), f'ser settings {kw}', got=got, want=want)
        infos.clear()
        it = fs.to_python(iter([1, 2]), mode='custom', **kw)
        ctx.check(infos == [], 'ser lazily')
        list(it)
        w = ('custom', c, by, eu, ed, en, rt)
        ctx.check(infos == [w, w], f'ser info {kw}', got=infos, want=w)
        ctx.step()
        ctx.ev('ser-settings', str(kw))


def explore(ctx):
    q = ctx.quick
    for lo, hi in ctx.split([(None, None), (0, 0), (1, None), (2, 1), (None, 1), (2, 2), (None, 2), (3, None)]):
        histories(ctx, lo, hi, 6 if q else 8)
    for n in range(5):
        for items in ctx.split(list(itertools.product(ALPH, repeat=n))):
            sources(ctx, list(items))
    for f in ctx.split([item_kinds, reentry, nested, lambda c: ser_histories(c, 5 if q else 7)]):
        f(ctx)
