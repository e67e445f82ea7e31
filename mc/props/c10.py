"""C10: tagged unions dispatch on the discriminator and run only the chosen branch."""
import itertools, json
from mc.lib import *
from mc.zoo import Attr, StrE, Num, Color, SStr, SInt, mk
from mc.props.c06 import follow, paths_of, MISS, Map
from mc.props.c11 import lit_ref

LEVEL = 'exploration'
RULE = ('discriminator form (key, path, choice list, function) x tag sets of look-alike tags x input form (dict, mapping, JSON, strings, object, instances) x tag value / presence x '
        'branch behaviour (ok, errors, exception, omit) x wrapping x flags; non-trivial: a tag is found')
ASSUME = ['for tags that only compare equal across types (True for 1) the chosen branch may be any of the equal ones']
BOUNDS = {'quick': '7 discriminators x 9 tag sets x all combinations of 11 tag values at the keys involved x 5 forms x 8 wrappings', 'thorough': 'also all pairs of wrappings'}

TAGSETS = [['cat', 'dog'], ['cat', 'dog', '1', 1], [0, 1, 2], [1, 2], [True, False], ['a', StrE.b], [StrE.a, StrE.b], [Num.one, Num.two], [Color.red, 'red', 1], ['cat'], ['x', ''], [2 ** 70, -1]]
TAGVALS = [MISS, 'cat', 'dog', '1', 1, 0, True, None, 'nope', StrE.a, StrE.b, Num.one, 'red', Color.red, ['cat'], 2 ** 70, 1.0, 'a', '', SStr('cat'), {'k': 'cat'}]
DISCS = [('key', 'k'), ('path', ['p', 'k']), ('pathidx', ['l', -1]), ('choice', [['k'], ['j']]), ('choice2', [['p', 'k'], ['k'], ['l', 0]]), ('attrpath', [['o', 'k'], ['k']])]


class Boom(Exception):
    pass


LOG = []


def branch(i, kind):
    def f(v):
        LOG.append(i)
        return (i, v)

    def before(v):
        LOG.append(i)
        return v
    if kind == 'plain':
        return cs.no_info_plain_validator_function(f)
    if kind == 'err':
        def e(v):
            LOG.append(i)
            raise ValueError('no')
        return cs.no_info_plain_validator_function(e)
    if kind == 'boom':
        def b(v):
            LOG.append(i)
            raise Boom('b')
        return cs.no_info_plain_validator_function(b)
    if kind == 'fields':
        return cs.no_info_before_validator_function(before, cs.typed_dict_schema({'n': cs.typed_dict_field(cs.int_schema())}))


def loc_tag(t):
    return t


def wrapf(w, s):
    if w == 'list':
        return cs.list_schema(s), lambda x: [x], (0,), lambda r: r[0]
    if w == 'dict':
        return cs.dict_schema(cs.str_schema(), s), lambda x: {'K': x}, ('K',), lambda r: r['K']
    if w == 'nullable':
        return cs.nullable_schema(s), lambda x: x, (), lambda r: r
    if w == 'default':
        return cs.with_default_schema(s, default=9), lambda x: x, (), lambda r: r
    if w == 'def':
        s['ref'] = 'R'
        return cs.definitions_schema(cs.definition_reference_schema('R'), [s]), lambda x: x, (), lambda r: r
    if w == 'field':
        return cs.typed_dict_schema({'f': cs.typed_dict_field(s)}), lambda x: {'f': x}, ('f',), lambda r: r['f']
    if w == 'wrapfn':
        return cs.no_info_wrap_validator_function(lambda v, h: h(v), s), lambda x: x, (), lambda r: r
    if w == 'union':
        return cs.union_schema([s]), lambda x: x, (), lambda r: r
    return s, lambda x: x, (), lambda r: r


def expected(disc, tags, data, form, custom, fn):
    """('tag', candidates(index), tag value) | ('notfound',) | ('invalid', tag) | ('exc', type)"""
    name, d = disc
    if fn is not None:
        t = fn(data)
        if t is None:
            return ('notfound',)
    else:
        rf = {'dict': 'dict', 'map': 'dict', 'json': 'json', 'attr': 'attr'}[form]
        t = MISS
        for p in paths_of(d):
            t = follow(data, p, rf)
            if t is not MISS:
                break
        if t is MISS:
            return ('notfound',)
    c = lit_ref(tags, t)
    if not c:
        return ('invalid', t)
    return ('tag', [next(i for i, x in enumerate(tags) if x is y) for y in c], t)


def disc_repr(d):
    if isinstance(d, str):
        return f"'{d}'"
    ps = [d] if not isinstance(d[0], list) else d
    return ' | '.join("'" + str(p[0]) + "'" + ''.join('.' + (f"'{x}'" if isinstance(x, str) else str(x)) for x in p[1:]) for p in ps)


def data_for(disc):
    name, d = disc
    short = [MISS, 'cat', 1, 'nope', None]
    for t in TAGVALS:
        if name == 'key':
            yield {} if t is MISS else {'k': t}
        elif name == 'path':
            yield {'p': {}} if t is MISS else {'p': {'k': t}}
        elif name == 'pathidx':
            yield {'l': []} if t is MISS else {'l': ['dog', t]}
        elif name == 'choice':
            for t2 in short:
                yield {k: x for k, x in (('j', t2), ('k', t)) if x is not MISS}
        elif name == 'choice2':
            for t2, t3 in itertools.product(short, [MISS, 'dog', 1]):
                r = {}
                if t is not MISS:
                    r['p'] = {'k': t}
                if t2 is not MISS:
                    r['k'] = t2
                if t3 is not MISS:
                    r['l'] = [t3]
                yield r
        elif name == 'attrpath':
            for t2 in short:
                r = {}
                if t is not MISS:
                    r['o'] = {'k': t}
                if t2 is not MISS:
                    r['k'] = t2
                yield r
    if name == 'path':
        yield {}
        yield {'p': 'str'}
        yield {'p': None}
        yield {'p': ['k']}
    if name == 'pathidx':
        yield {'l': 'cat'}
        yield {'l': {-1: 'cat'}}
        yield {'l': 5}


def jsonable(x):
    try:
        return json.loads(json.dumps(x)) == x and not any(isinstance(v, (StrE, Num)) for v in flat(x))
    except (TypeError, ValueError):
        return False


def flat(x):
    if isinstance(x, dict):
        for k, v in x.items():
            yield k
            yield from flat(v)
    elif isinstance(x, list):
        for v in x:
            yield from flat(v)
    else:
        yield x


def judge(ctx, key, got, want, log, tags, inp, pre, dr, custom, kinds, unw, data, isfn):
    if want[0] in ('notfound', 'invalid'):
        et = 'union_tag_not_found' if want[0] == 'notfound' else 'union_tag_invalid'
        ok = got[0] == 'err' and not log
        if ok:
            er = got[1].errors(include_url=False)
            ok = len(er) == 1 and er[0]['loc'] == pre
            if custom:
                ok = ok and er[0]['type'] == 'my_err' and er[0]['msg'] == 'custom'
            else:
                ok = ok and er[0]['type'] == et and er[0]['ctx']['discriminator'] == dr
                if want[0] == 'invalid':
                    ok = ok and er[0]['ctx']['tag'] == str(want[1]) and er[0]['ctx']['expected_tags'] == ', '.join(map(repr, tags))
        ctx.check(ok, key, got=got if got[0] != 'err' else got[1].errors(), want=want, log=log)
        ctx.ev(want[0], key if want[0] == 'invalid' else None)
        return
    cands, t = want[1:]
    ok = len(log) == 1 and log[0] in cands
    if not ok:
        ctx.fail(key + ' branches run', got=log, want=cands)
        return
    i = log[0]
    kind = kinds[i]
    if kind == 'plain':
        ok = got[0] == 'ok' and unw(got[1])[0] == i
        if ok and isinstance(data, dict):
            ok = unw(got[1])[1] == inp
    elif kind == 'boom':
        ok = got[0] == 'exc' and type(got[1]) is Boom
    else:
        if got[0] == 'err':
            er = errs(got[1])
            ty = 'value_error' if kind == 'err' else 'missing'
            tail = () if kind == 'err' else ('n',)
            ok = len(er) == 1 and er[0][0] == ty and len(er[0][1]) == len(pre) + 1 + len(tail) and er[0][1][:len(pre)] == pre and er[0][1][len(pre) + 1:] == tail
            lt = er[0][1][len(pre)] if ok else None
            if ok and type(t) in (str, int) and type(t) is not bool and abs(t if type(t) is int else 0) < 2 ** 60:
                ok = lt == t
        else:
            ok = kind == 'fields' and got[0] == 'ok' and unw(got[1]) == {'n': 5}
    ctx.check(ok, key, got=got if got[0] != 'err' else got[1].errors(), want=(want, kind))
    ctx.ev(f'branch-{kind}', key)


def explore(ctx):
    q = ctx.quick
    wraps = [(w,) for w in (None, 'list', 'dict', 'nullable', 'default', 'def', 'field', 'wrapfn', 'union')]
    if not q:
        wraps += list(itertools.product(('list', 'dict', 'nullable', 'default', 'field', 'wrapfn', 'union'), repeat=2))
    mixes = [('plain',), ('err', 'plain'), ('fields', 'err'), ('boom', 'fields')]
    for disc, tags, ws, mix in ctx.split(itertools.product(DISCS + [('fn', None), ('fnexc', None)], TAGSETS, wraps, mixes)):
        kinds = [mix[i % len(mix)] for i in range(len(tags))]
        fn = None
        if disc[0] == 'fn':
            def get_tag(x):
                r = x.get('k', None) if hasattr(x, 'get') else getattr(x, 'k', None)
                return r
            fn = get_tag
        elif disc[0] == 'fnexc':
            def get_tag(x):
                raise Boom('tag')
            fn = get_tag
        flags = ws in (((None,),) if q else ((None,), ('list',), ('def',))) and fn is None and mix == ('plain',)
        for custom, fa, rfa, st, cfa in itertools.product((False, True), (None, True, False) if flags else (None, False) if fn is None else (None,), (None, True, False) if (flags or ws == (None,)) and fn is None else (None,),
                                                          (None, True, False) if flags else (None,), (None, True, False) if flags else (None,)):
            if q and ws not in ((None,), ('list',)) and (custom or fa is False):
                continue
            if q and custom and (cfa is not None or st is not None or fa):
                continue
            if q and rfa is not None and cfa is not None and fa is not None:
                continue
            rt = {} if rfa is None else {'from_attributes': rfa}
            if st is not None:
                rt['strict'] = st
            config = {} if cfa is None else {'from_attributes': cfa}
            efa = rfa if rfa is not None else fa if fa is not None else cfa if cfa is not None else True
            kw = {}
            if custom:
                kw = dict(custom_error_type='my_err', custom_error_message='custom')
            if fa is not None:
                kw['from_attributes'] = fa
            s = cs.tagged_union_schema({t: branch(i, kinds[i]) for i, t in enumerate(tags)}, fn or disc[1], **kw)
            pre, puts, unws = (), [], []
            for w in ws:
                s, put, p, unw = wrapf(w, s)
                pre = p + pre
                puts.append(put)
                unws.append(unw)
            if 'union' in ws:
                pass
            put = puts[0] if len(puts) == 1 else (lambda x: puts[1](puts[0](x)))
            unw = unws[0] if len(unws) == 1 else (lambda x: unws[0](unws[1](x)))
            try:
                v = SchemaValidator(s, config)
            except SchemaError as e:
                ctx.fail(f'build {disc} {tags} {ws}', err=str(e))
                continue
            dr = 'get_tag()' if fn else disc_repr(disc[1])
            src = data_for(disc if fn is None else ('key', 'k'))
            for data in src:
                for full in ((data, {**data, 'n': 5}) if 'fields' in kinds else (data,)):
                    forms = ['dict', 'map', 'attr'] + (['json'] if jsonable(full) and jsonable(data) else [])
                    for form in forms:
                        key = f'{disc} {tags} {kinds} wrap={ws} custom={custom} fa={fa},{rfa},{cfa} strict={st} {form} {rep(full)}'
                        LOG.clear()
                        if form == 'json':
                            inp = full
                            got = raw(v.validate_json, json.dumps(put(full)), **({} if st is None else {'strict': st}))
                            d = full
                        else:
                            inp = d = full if form == 'dict' else Map(full) if form == 'map' else Attr(**{k: (Attr(**x) if k == 'o' else x) for k, x in full.items()})
                            got = raw(v.validate_python, put(inp), **rt)
                        log = list(LOG)
                        if disc[0] == 'fnexc':
                            ctx.check(got[0] == 'exc' and type(got[1]) is Boom and not log, key, got=got)
                            ctx.ev('fnexc', key)
                            continue
                        if form == 'map' and st and fn is None:
                            # strict mode takes no mapping for a dict; as an object it has no such attributes
                            ok = got[0] == 'err' and not log
                            if ok and not custom:
                                ok = errs(got[1]) == (('union_tag_not_found' if efa else 'dict_type', pre),)
                            ctx.check(ok, key, got=got)
                            ctx.ev('strict-map', key)
                            continue
                        if form == 'attr' and not efa and fn is None:
                            ctx.check(got[0] == 'err' and not log and errs(got[1]) == (('dict_type', pre),), key, got=got)
                            ctx.ev('fa', key)
                            continue
                        want = expected(disc, tags, d, form, custom, fn)
                        if want[0] == 'tag' and any(kinds[i] == 'fields' for i in want[1]):
                            if form != 'attr':
                                pass
                        if form == 'attr' and want[0] == 'tag' and any(kinds[i] == 'fields' for i in want[1]):
                            ok = got[0] == 'err' and len(log) == 1 and errs(got[1])[0][0] in ('dict_type', 'model_attributes_type', 'value_error', 'missing')
                            ctx.check(ok or any(kinds[i] != 'fields' for i in want[1]), key, got=got, log=log)
                            ctx.ev('attr-fields', key)
                            continue
                        if want[0] == 'tag' and 'n' in full and any(kinds[i] == 'fields' for i in want[1]):
                            pass
                        judge(ctx, key, got, want, log, tags, inp, pre, dr, custom, kinds, unw, full, fn)
                        if got[0] == 'err' and want[0] == 'tag' and len(log) == 1 and kinds[log[0]] == 'fields':
                            ctx.check('n' not in full, key + ' n given', got=got)
            # inputs that are no objects at all
            if fn is None:
                for x in (5, 'cat', None, ['cat'], b'cat', 1.5, {1}, (1, 2)):
                    if ws != (None,):
                        continue
                    LOG.clear()
                    got = raw(v.validate_python, x, **rt)
                    et = 'model_attributes_type' if efa else 'dict_type'
                    ctx.check(got[0] == 'err' and errs(got[1]) == ((et, ()),) and not LOG, f'{disc} {tags} fa={fa} non-object {x!r}', got=got)
                    ctx.ev('nonobj')
                    if x is None or isinstance(x, (int, str, list, float)):
                        got = raw(v.validate_json, json.dumps(x))
                        ctx.check(got[0] == 'err' and errs(got[1])[0][1] == () and not LOG, f'{disc} {tags} fa={fa} json non-object {x!r}', got=got)
        ctx.sample(disc, tags, ws)
