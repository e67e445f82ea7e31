"""C08: every route by which a model or dataclass instance comes into being, over every combination of schema
options, compared with a reference that says which instance (the given one or a new one), which class, values,
extras and fields-set come out and how often post_init runs and what it sees."""
import dataclasses, itertools, json
from mc.lib import *
from mc.zoo import mk

LEVEL = 'exploration'
RULE = ('kind of class x revalidation setting x post_init behaviour x wrapping of the schema x route (dict, JSON, strings, __init__, exact / subclass / '
        'foreign / generic-origin instance, attributes) x data x strictness; non-trivial: an instance is built, kept, or a built one is thrown away by post_init')
ASSUME = ['custom __init__ is given the input as keyword arguments and decides the fields-set itself', 'init-only fields (InitVar) are not recoverable from an instance']
BOUNDS = {'quick': 'all combinations of the listed options', 'thorough': 'the same space (it is already complete)'}


class Boom(Exception):
    pass


LOG = []
CTX = object()


def snap(o):
    if hasattr(o, '__dict__'):
        r = dict(o.__dict__)
    else:
        r = {k: getattr(o, k) for k in ('a', 'b') if hasattr(o, k)}
    fs = getattr(o, '__pydantic_fields_set__', None)
    return canon(r), None if fs is None else tuple(sorted(fs)), canon(getattr(o, '__pydantic_extra__', None))


def make_classes(kind, post):
    def pi(self, *args):
        LOG.append((id(self), type(self).__name__, snap(self), args))
        if post == 've':
            raise ValueError('post')
        if post == 'boom':
            raise Boom('post')
        if post == 'mutate':
            object.__setattr__(self, 'b', 'post')
    if kind == 'root':
        class Base(Model):
            __slots__ = ()
    elif kind.startswith('model'):
        class Base(Model):
            pass
    elif kind == 'dc_slots':
        @dataclasses.dataclass(slots=True)
        class Base:
            a: int
            b: str = 'dft'
    else:
        @dataclasses.dataclass
        class Base:
            a: int
            b: str = 'dft'
    if kind == 'dc_slots':
        Base.__post_init__ = pi
        Base.model_post_init = pi
    else:
        Base.__post_init__ = pi
        Base.model_post_init = pi

    class Orig(Base):
        pass

    class Cls(Orig):
        pass

    class Sub(Cls):
        pass
    if kind == 'dc_slots':
        Orig, Cls, Sub = (dataclasses.dataclass(slots=True)(c) for c in (Orig, Cls, Sub))

        @dataclasses.dataclass(slots=True)
        class Orig(Base):
            pass

        @dataclasses.dataclass(slots=True)
        class Cls(Orig):
            pass

        @dataclasses.dataclass(slots=True)
        class Sub(Cls):
            pass
    return Orig, Cls, Sub


def make_schema(kind, Orig, Cls, post, reval, reval_in, wrap, generic, custom_init=False):
    cfg = {}
    kw = {}
    if reval is not None:
        (cfg if reval_in == 'config' else kw)['revalidate_instances'] = reval
        if reval_in == 'both':  # the schema setting wins over the config
            cfg['revalidate_instances'] = {'never': 'always', 'always': 'never', 'subclass-instances': 'never'}[reval]
    if generic:
        kw['generic_origin'] = Orig
    ints, strs = cs.int_schema(), cs.with_default_schema(cs.str_schema(), default='dft')
    if kind == 'root':
        inner = cs.int_schema()
        kw['root_model'] = True
    elif kind.startswith('model'):
        inner = cs.model_fields_schema({'a': cs.model_field(ints), 'b': cs.model_field(strs)}, **({'extra_behavior': 'allow'} if kind == 'model_x' else {'extra_behavior': 'forbid'} if kind == 'model_f' else {}))
    else:
        inner = cs.dataclass_args_schema('Cls', [cs.dataclass_field('a', ints), cs.dataclass_field('b', strs)], **({'extra_behavior': 'allow'} if kind == 'dc_x' else {}))
    if wrap == 'inner-wrap':
        inner = cs.no_info_wrap_validator_function(lambda v, h: h(v), inner)
    elif wrap == 'inner-after':
        inner = cs.no_info_after_validator_function(lambda v: v, inner)
    if kind == 'root' or kind.startswith('model'):
        if post:
            kw['post_init'] = 'model_post_init'
        s = cs.model_schema(Cls, inner, config=cfg, custom_init=custom_init, **kw)
    else:
        if post:
            kw['post_init'] = True
        s = cs.dataclass_schema(Cls, inner, ['a', 'b'], config=cfg, slots=kind == 'dc_slots', **kw)
    if wrap == 'before':
        s = cs.no_info_before_validator_function(lambda v: v, s)
    elif wrap == 'after':
        s = cs.no_info_after_validator_function(lambda v: v, s)
    elif wrap == 'wrap':
        s = cs.no_info_wrap_validator_function(lambda v, h: h(v), s)
    elif wrap == 'nullable':
        s = cs.nullable_schema(s)
    elif wrap == 'defs':
        s['ref'] = 'R'
        s = cs.definitions_schema(cs.definition_reference_schema('R'), [s])
    elif wrap == 'default':
        s = cs.with_default_schema(s, default=None)
    elif wrap == 'union':
        s = cs.union_schema([s, cs.is_instance_schema(Boom)])
    elif wrap == 'list':
        s = cs.list_schema(s)
    elif wrap == 'dict':
        s = cs.dict_schema(cs.str_schema(), s)
    return s


def into(wrap, x):
    return [x] if wrap == 'list' else {'k': x} if wrap == 'dict' else x


def outof(wrap, x):
    return x[0] if wrap == 'list' else x['k'] if wrap == 'dict' else x


class Foreign:
    def __init__(self, **kw):
        self.__dict__.update(kw)


def instance(kind, cls, data, fs, extra):
    if kind == 'root':
        return mk(cls, fs=fs, root=data['a'])
    if kind.startswith('model'):
        return mk(cls, extra=(dict(extra) if kind == 'model_x' else None), fs=fs, **data)
    o = cls.__new__(cls)
    for k, v in data.items():
        object.__setattr__(o, k, v)
    return o


def check_value(v, strict):
    """errors of the two fields"""
    er = []
    if 'a' not in v:
        er.append(('missing', ('a',)))
    elif type(v['a']) is not int:
        if isinstance(v['a'], str) and not strict:
            try:
                int(v['a'])
            except ValueError:
                er.append(('int_parsing', ('a',)))
        else:
            er.append(('int_type', ('a',)))
    if 'b' in v and not isinstance(v['b'], str):
        er.append(('string_type', ('b',)))
    return er


def explore(ctx):
    q = ctx.quick
    kinds = ['model', 'model_x', 'model_f', 'root', 'dc', 'dc_slots', 'dc_x']
    posts = [None, 'ok', 'mutate', 've', 'boom']
    wraps = [None, 'inner-wrap', 'inner-after', 'before', 'after', 'wrap', 'nullable', 'defs', 'default', 'union', 'list', 'dict']
    revals = [(None, 'schema'), ('never', 'schema'), ('always', 'schema'), ('subclass-instances', 'schema'), ('always', 'config'), ('subclass-instances', 'config'), ('never', 'both'), ('always', 'both'), ('subclass-instances', 'both')]
    for kind, post, wrap in ctx.split(itertools.product(kinds, posts, wraps)):
        if post == 'mutate' and kind == 'root':
            continue
        for (reval, rin), generic in itertools.product(revals, (False, True)):
            Orig, Cls, Sub = make_classes(kind, post)
            v = SchemaValidator(make_schema(kind, Orig, Cls, post, reval, rin, wrap, generic))
            for strict in (None, True, False):
                for route in ('dict', 'json', 'strings', 'init', 'exact', 'sub', 'orig', 'foreign', 'foreign-attr', 'mapping'):
                    for di, (data, fs, extra) in enumerate(DATA):
                        one(ctx, kind, post, wrap, reval, rin, generic, Orig, Cls, Sub, v, strict, route, data, fs, extra)
    custom_init(ctx)
    nested(ctx)


DATA = [({'a': 1, 'b': 'x'}, {'a', 'b'}, {}), ({'a': 1, 'b': 'x'}, {'a'}, {'z': 9}), ({'a': '2', 'b': 'y'}, set(), {}), ({'a': 'bad', 'b': 'x'}, {'a'}, {}), ({'a': 'bad', 'b': 5}, {'a', 'b'}, {'z': 9}),
        ({'a': 3}, {'a'}, {}), ({'b': 'only'}, {'b'}, {'z': 1})]


def one(ctx, kind, post, wrap, reval, rin, generic, Orig, Cls, Sub, v, strict, route, data, fs, extra):
    is_model = kind.startswith('model')
    is_root = kind == 'root'
    rt = {'context': CTX, **({} if strict is None else {'strict': strict})}
    k = f'{kind} post={post} wrap={wrap} reval={reval}/{rin} generic={generic} strict={strict} {route} {data} {fs} {extra}'
    if is_root and ('a' not in data or extra):
        return
    if route in ('exact', 'sub', 'orig') and not is_root and not is_model and ('b' not in data or 'a' not in data):
        return
    given = {**data, **extra}
    plain = data['a'] if is_root else given
    inst = None
    self_inst = None
    if route in ('exact', 'sub', 'orig'):
        cls = {'exact': Cls, 'sub': Sub, 'orig': Orig}[route]
        if is_root:
            fs = {'root'} if 'b' in fs else set()
        inst = instance(kind, cls, data, fs, extra)
        if kind == 'dc_x':
            inst.__dict__.update(extra)
        before = snap(inst)
        inp = inst
    elif route in ('foreign', 'foreign-attr'):
        if is_root:
            return
        inp = Foreign(**given)
        if route == 'foreign-attr':
            rt['from_attributes'] = True
    elif route == 'mapping':
        if is_root:
            return
        inp = types.MappingProxyType(given)
    else:
        inp = plain
    LOG.clear()
    try:
        if route == 'json':
            r = v.validate_json(json.dumps(into(wrap, inp)), **rt)
        elif route == 'strings':
            if strict and wrap in ('inner-wrap', 'before', 'wrap'):
                return  # inside a function wrapper the value is an ordinary Python object
            if wrap in ('list', 'union', 'nullable', 'default', 'dict') or any(not isinstance(x, str) for x in given.values()):
                return
            r = v.validate_strings(inp, **rt)
        elif route == 'init':
            if wrap in ('list', 'dict', 'union'):
                return
            self_inst = Sub.__new__(Sub) if 'b' in fs else Cls.__new__(Cls)
            r = v.validate_python(inp, self_instance=self_inst, **rt)
        else:
            r = v.validate_python(into(wrap, inp), **rt)
        got = ('ok', outof(wrap, r))
    except ValidationError as e:
        got = ('err', errs(e))
    except Boom:
        got = ('boom',)
    except Exception as e:
        guard(e, k)
        got = ('exc', repr(e))
    log = list(LOG)
    # ---- reference ---------------------------------------------------------
    pre = (0,) if wrap == 'list' else ('k',) if wrap == 'dict' else ()
    branch = () if wrap != 'union' else (Cls.__name__,)
    st = bool(strict) and route not in ('strings',)
    mode = 'new'
    if inst is not None:
        accepted = route in ('exact', 'sub') or (generic and route == 'orig')
        if not accepted:
            mode = 'reject'
        elif route == 'orig' or reval == 'always' or (reval == 'subclass-instances' and route == 'sub'):
            mode = 'reval'
        else:
            mode = 'keep'
    elif route == 'foreign' or (route == 'foreign-attr' and not is_model) or (route == 'mapping' and (not is_model or st)):
        mode = 'reject'
    elif not is_model and not is_root and st and route in ('dict', 'mapping'):
        mode = 'reject'
    if mode == 'keep':
        okk = got[0] == 'ok' and got[1] is inst and not log and snap(inst) == before
        ctx.check(okk, k, got=got, want='the given instance')
        ctx.ev('keep', k)
        return
    if mode == 'reject':
        ctx.check(got[0] == 'err' and not log, k, got=got, want='rejected')
        if got[0] == 'err' and wrap not in ('union',):
            ctx.check(all(l == pre for t, l in got[1]), k + ' loc', got=got)
        ctx.ev('reject', k)
        return
    if is_root:
        er = [(t, ()) for t, l in check_value({'a': data['a']}, st)]
    else:
        er = check_value(data, st)
    if extra and kind == 'model_f' and route not in ('foreign-attr',) and not (mode == 'reval'):
        er += [('extra_forbidden', ('z',))]
    if er:
        if wrap == 'union':
            ctx.check(got[0] == 'err', k, got=got, want=er)
        else:
            ctx.check(got == ('err', tuple((t, pre + l) for t, l in er)), k, got=got, want=er)
        ctx.check(not log, k + ' post_init ran', got=log)
        if inst is not None:
            ctx.check(snap(inst) == before, k + ' input changed')
        if self_inst is not None:
            ctx.check(snap(self_inst)[0] == canon({}) and not hasattr(self_inst, '__pydantic_fields_set__'), k + ' self changed', got=snap(self_inst))
        ctx.ev('err', k)
        return
    vals = {'root': int(data['a'])} if is_root else {'a': int(data['a']), 'b': data.get('b', 'dft')}
    ext = None
    if mode == 'reval':
        fset = tuple(sorted(fs))
        if kind == 'model_x':
            ext = dict(extra)
    else:
        fset = ('root',) if is_root else tuple(sorted(x for x in data))
        if kind == 'model_x':
            ext = {} if route == 'foreign-attr' else dict(extra)
            fset = tuple(sorted(set(fset) | set(ext)))
    if kind == 'dc_x' and extra:
        vals.update(extra)
        if mode == 'reval':
            k = 'revalidating a dataclass with extras: ' + k
    expsnap = (canon(vals), fset if (is_root or is_model) else None, canon(ext))
    # post_init sees the finished instance, exactly once
    if post is None:
        ctx.check(not log, k + ' post_init ran', got=log)
    else:
        okp = len(log) == 1 and log[0][2] == expsnap and log[0][3] == ((CTX,) if (is_root or is_model) else ())
        ctx.check(okp, k + ' post_init', got=log, want=expsnap)
    if post == 've':
        if wrap == 'union':
            ctx.check(got[0] == 'err', k, got=got)
        else:
            ctx.check(got == ('err', (('value_error', pre),)), k, got=got, want='value_error')
        ctx.ev('post-err', k)
        return
    if post == 'boom':
        ctx.check(got[0] == 'boom', k, got=got, want='Boom')
        ctx.ev('post-boom', k)
        return
    if post == 'mutate':
        vals['b'] = 'post'
        expsnap = (canon(vals),) + expsnap[1:]
    if got[0] != 'ok':
        ctx.fail(k, got=got, want=expsnap)
        return
    o = got[1]
    ctx.check(snap(o) == expsnap, k, got=snap(o), want=expsnap)
    if post is not None:
        ctx.check(log[0][0] == id(o), k + ' post_init ran on another object')
    if route == 'init':
        ctx.check(o is self_inst, k + ' self_instance not returned')
    else:
        ctx.check(type(o) is Cls, k + ' class', got=type(o))
    if inst is not None:
        ctx.check(o is not inst and snap(inst) == before, k + ' input changed', got=snap(inst), want=before)
        if hasattr(o, '__dict__') and not (kind == 'dc_slots'):
            ctx.check(o.__dict__ is not inst.__dict__, k + ' shared dict')
        if is_model or is_root:
            ctx.check(o.__pydantic_fields_set__ is not inst.__pydantic_fields_set__, k + ' shared fields set')
            ctx.check(o.__pydantic_extra__ is None or o.__pydantic_extra__ is not inst.__pydantic_extra__, k + ' shared extra') if not is_root else None
    if is_model:
        ctx.check(o.__pydantic_private__ is None, k + ' private')
    ctx.ev(mode, k)
    ctx.sample(k, expsnap)


def custom_init(ctx):
    """a class with its own __init__: it is called exactly once with the keyword arguments"""
    for deep, wrap, reval in ctx.split(itertools.product((False, True), (None, 'list', 'wrap', 'defs', 'before', 'union', 'dict'), (None, 'always', 'never', 'subclass-instances'))):
        calls = []
        box = {}

        class C(Model):
            def __init__(self, **kw):
                calls.append(dict(kw))
                if kw.get('a') == 'boom':
                    raise Boom('init')
                if kw.get('a') == 've':
                    raise ValueError('init')
                box['v'].validate_python({k: (x + 100 if deep and type(x) is int else x) for k, x in kw.items()}, self_instance=self)

        class S(C):
            pass
        kw = {} if reval is None else {'revalidate_instances': reval}
        sch = lambda: cs.model_schema(C, cs.model_fields_schema({'a': cs.model_field(cs.int_schema()), 'b': cs.model_field(cs.with_default_schema(cs.str_schema(), default='dft'))}), custom_init=True, **kw)
        box['v'] = SchemaValidator(sch())
        s = sch()
        if wrap == 'list':
            s = cs.list_schema(s)
        elif wrap == 'dict':
            s = cs.dict_schema(cs.str_schema(), s)
        elif wrap == 'wrap':
            s = cs.no_info_wrap_validator_function(lambda v, h: h(v), s)
        elif wrap == 'before':
            s = cs.no_info_before_validator_function(lambda v: v, s)
        elif wrap == 'defs':
            s['ref'] = 'R'
            s = cs.definitions_schema(cs.definition_reference_schema('R'), [s])
        elif wrap == 'union':
            s = cs.union_schema([s, cs.is_instance_schema(Boom)])
        v = SchemaValidator(s)
        add = 100 if deep else 0
        for data in ({'a': 1}, {'a': 1, 'b': 'x'}, {'a': 'bad'}, {'a': 'boom'}, {'a': 've'}, {}, {'a': 1, 'b': 5}, {'b': 'q'}):
            for route in ('dict', 'json', 'exact', 'sub', 'direct'):
                for strict in (None, True):
                    calls.clear()
                    rt = {} if strict is None else {'strict': strict}
                    k = f'custom_init deep={deep} wrap={wrap} reval={reval} {data} {route} strict={strict}'
                    inst = None
                    if route in ('exact', 'sub'):
                        if 'a' not in data or data['a'] in ('boom', 've') or 'b' not in data:
                            continue
                        inst = mk(C if route == 'exact' else S, fs={'a'}, **data)
                    pre = (0,) if wrap == 'list' else ('k',) if wrap == 'dict' else ()
                    try:
                        if route == 'direct':
                            if strict:
                                continue
                            pre = ()
                            r = C(**data)
                        elif route == 'json':
                            r = outof(wrap, v.validate_json(json.dumps(into(wrap, data)), **rt))
                        else:
                            r = outof(wrap, v.validate_python(into(wrap, inst if inst is not None else data), **rt))
                        got = ('ok', r)
                    except ValidationError as e:
                        got = ('err', errs(e))
                    except Boom:
                        got = ('boom',)
                    except ValueError as e:
                        got = ('ve',)
                    if inst is not None and not (reval == 'always' or (reval == 'subclass-instances' and route == 'sub')):
                        ctx.check(got[0] == 'ok' and got[1] is inst and not calls, k, got=got)
                        ctx.ev('ci-keep', k)
                        continue
                    ctx.check(calls == [data], k + ' calls', got=calls, want=[data])
                    if data.get('a') == 'boom':
                        ctx.check(got[0] == 'boom', k, got=got)
                    elif data.get('a') == 've':
                        ctx.check((got == ('ve',)) if route == 'direct' else got[0] == 'err' if wrap == 'union' else got == ('err', (('value_error', pre),)), k, got=got)
                    else:
                        er = check_value(data, False)
                        if er:
                            ctx.check(got[0] == 'err' if wrap == 'union' else got == ('err', tuple((t, pre + l) for t, l in er)), k, got=got, want=er)
                        else:
                            w = (canon({'a': data['a'] + add, 'b': data.get('b', 'dft')}), tuple(sorted(data)), canon(None))
                            if got[0] != 'ok':
                                ctx.fail(k, got=got, want=w)
                            else:
                                g = snap(got[1])
                                if inst is not None:
                                    g, w = g[::2], w[::2]
                                ctx.check(g == w and type(got[1]) is C, k, got=g, want=w)
                    ctx.ev('ci', k)


def nested(ctx):
    """models and dataclasses inside one another, up to three levels, built through every route: each level becomes a new
    instance of its own class (the outermost one the instance given, if one is given) and only its own data, and its own
    post_init runs exactly once, inner levels first"""
    kinds = ['model', 'root', 'dc']
    inwraps = [None, 'wrap', 'list', 'nullable', 'union', 'default']
    depths = [c for n in (2, 3) for c in itertools.product(kinds, repeat=n)]
    for chain, iw, frozen, post in ctx.split(itertools.product(depths, inwraps, itertools.product((False, True), repeat=2), (False, True))):
        for generic, reval, strict_cfg in itertools.product((False, True), (None, 'always'), (None, True)):
            order = []
            classes = []
            sch = cs.int_schema()
            for lvl, kind in reversed(list(enumerate(chain))):
                def hook(self, *args, lvl=lvl):
                    order.append((lvl, id(self), snap_names(self)))
                if kind == 'dc':
                    cls = dataclasses.make_dataclass(f'L{lvl}', ['x'])
                    cls.__post_init__ = hook
                else:
                    cls = type(f'L{lvl}', (Model,), {'model_post_init': hook})
                kw = {'frozen': frozen[0 if lvl == 0 else 1]}
                if strict_cfg is not None:
                    kw['strict'] = False if lvl else None
                if reval:
                    kw['revalidate_instances'] = reval
                if generic:
                    kw['generic_origin'] = type('G', (), {})
                if kind == 'root':
                    s = cs.model_schema(cls, sch, root_model=True, **({'post_init': 'model_post_init'} if post else {}), **kw)
                elif kind == 'model':
                    s = cs.model_schema(cls, cs.model_fields_schema({'x': cs.model_field(sch)}), **({'post_init': 'model_post_init'} if post else {}), **kw)
                else:
                    s = cs.dataclass_schema(cls, cs.dataclass_args_schema(f'L{lvl}', [cs.dataclass_field('x', sch)]), ['x'], post_init=post, **kw)
                classes.insert(0, cls)
                if lvl:
                    s = {None: lambda s: s, 'wrap': lambda s: cs.no_info_wrap_validator_function(lambda v, h: h(v), s), 'list': cs.list_schema, 'nullable': cs.nullable_schema,
                         'union': lambda s: cs.union_schema([s, cs.is_instance_schema(Boom)]), 'default': lambda s: cs.with_default_schema(s, default=None)}[iw](s)
                sch = s
            v = SchemaValidator(sch)

            def data(lvl, leaf):
                if lvl == len(chain):
                    return leaf
                d = data(lvl + 1, leaf)
                if iw == 'list' and lvl + 1 < len(chain):
                    d = [d]
                return d if chain[lvl] == 'root' else {'x': d}
            for route in ('dict', 'json', 'init', 'inst', 'init-inst'):
                for leaf in (5, 'bad'):
                    d = data(0, leaf)
                    k = f'nested {chain} inner={iw} frozen={frozen} post={post} generic={generic} reval={reval} {strict_cfg} {route} {leaf}'
                    given = classes[0].__new__(classes[0]) if route in ('init', 'init-inst') else None
                    order.clear()
                    kept = None
                    if route in ('inst', 'init-inst'):
                        # the second level is given as an instance
                        if leaf == 'bad' or iw == 'list':
                            continue
                        try:
                            w = v.validate_python(d)
                        except ValidationError as e:
                            ctx.fail(k, got=errs(e))
                            continue
                        kept = getattr(w, 'root' if chain[0] == 'root' else 'x')
                        d = kept if chain[0] == 'root' else {'x': kept}
                        order.clear()
                    try:
                        r = v.validate_json(json.dumps(d)) if route == 'json' else v.validate_python(d, self_instance=given) if given is not None else v.validate_python(d)
                    except ValidationError as e:
                        ctx.check(leaf == 'bad' and not order, k, got=errs(e), order=order)
                        if given is not None:
                            ctx.check(not vars(given) and not hasattr(given, '__pydantic_fields_set__'), k + ' self changed', got=vars(given))
                        ctx.ev('nested-err', k)
                        continue
                    if leaf == 'bad':
                        ctx.fail(k, got=r, want='rejected')
                        continue
                    o, seen, ok = r, [], True
                    for lvl, kind in enumerate(chain):
                        n = 'root' if kind == 'root' else 'x'
                        ok = ok and type(o) is classes[lvl] and list(vars(o)) == [n] and id(o) not in seen
                        if ok and kind != 'dc':
                            ok = o.__pydantic_fields_set__ == {n} and getattr(o, "__pydantic_extra__", None) is None
                        if not ok:
                            break
                        seen.append(id(o))
                        o = getattr(o, n)
                        if iw == 'list' and lvl + 1 < len(chain):
                            ok = type(o) is list and len(o) == 1
                            o = o[0] if ok else o
                    ok = ok and type(o) is int and o == 5
                    if given is not None:
                        ok = ok and r is given
                    if kept is not None:
                        ok = ok and (seen[1] == id(kept)) == (reval is None)
                    ctx.check(ok, k, got=r, tree=[(type(r).__name__, vars(r))])
                    if ok:
                        want = []
                        if post:
                            ran = range(len(chain)) if kept is None else [0] if reval is None else range(len(chain))
                            want = [(l, seen[l], ('root' if chain[l] == 'root' else 'x',)) for l in reversed(ran)]
                        ctx.check(order == want, k + ' post_init', got=order, want=want)
                    ctx.ev('nested', k)


def snap_names(o):
    return tuple(vars(o))
