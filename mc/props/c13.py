"""C13: function validators.  An interpreter of chains of before / after / wrap / plain functions (each returning, changing, raising
one of the documented exceptions, or using its handler in one of the possible ways) around a leaf, put in every kind of position,
run in Python, JSON and strings mode under strict / lax; outcome, error details and the complete log of calls (value, mode,
context, config, field name, data at the time) must be those of the interpreter.  Then: every zoo schema inside an identity wrap
function gives the same outcome as without it, under every runtime argument."""
import dataclasses, itertools, json
from pydantic_core import PydanticOmit, PydanticUseDefault, PydanticCustomError, PydanticKnownError
from mc.lib import *
from mc.zoo import ZOO, ZN, py_inputs, mk

LEVEL = 'model_checking'
RULE = ('chains of function validators (kind x behaviour) x position x mode x strictness x input, call logs included; and zoo schema x input x runtime arguments '
        'with and without an identity wrap function; place x place x exception x entry point: it leaves unchanged; exception class x kind of function x container x mode; non-trivial: a function was called')
ASSUME = ['in JSON and strings mode the value handed to an inner schema by a function is a Python object, so values whose conversion differs between the modes are not used there',
          'an item omitted in a position that cannot omit (top, argument, union, dataclass field, extra value) is not judged beyond the calls made']
BOUNDS = {'quick': 'chains of 1 and 2 in 19 positions x 3 modes; chains of 3 with 6 behaviours at the top',
          'thorough': 'chains of 2 with all inner behaviours, chains of 3 with all behaviours in all modes'}


class Boom(Exception):
    pass


class VE2(ValueError):
    pass


OTHER = SchemaValidator(cs.typed_dict_schema({'q': cs.typed_dict_field(cs.int_schema())}))
LOG = []
CTX = {'ctx': 1}


class St:
    """the chain under construction: schema pieces refer to the exception objects raised"""
    exc = {}


def raiser(b, tag):
    if b == 've':
        raise ValueError(f'v{tag}')
    if b == 've2':
        raise VE2(f'v{tag}')
    if b == 'ae':
        raise AssertionError(f'a{tag}')
    if b == 'aeempty':
        assert False
    if b == 'cust':
        raise PydanticCustomError('ctype', 'c {n}', {'n': tag})
    if b == 'known':
        raise PydanticKnownError('greater_than', {'gt': tag})
    if b == 'omit':
        raise PydanticOmit()
    if b == 'use':
        raise PydanticUseDefault()
    if b == 'boom':
        raise Boom(tag)
    if b == 'type':
        raise TypeError('t')
    if b == 'inner':
        OTHER.validate_python({'q': 'zz'})


def line(t, loc, inp, msg):
    return (t, loc, inp, msg)


def raised(b, tag, x):
    """reference outcome of raising b at a node whose input was x"""
    c = canon(x)
    if b in ('ve', 've2'):
        return ('err', [line('value_error', (), c, f'Value error, v{tag}')])
    if b == 'ae':
        return ('err', [line('assertion_error', (), c, f'Assertion failed, a{tag}')])
    if b == 'aeempty':
        return ('err', [line('assertion_error', (), c, 'Assertion failed, ')])
    if b == 'cust':
        return ('err', [line('ctype', (), c, f'c {tag}')])
    if b == 'known':
        return ('err', [line('greater_than', (), c, f'Input should be greater than {tag}')])
    if b == 'omit':
        return ('omit',)
    if b == 'use':
        return ('use',)
    if b == 'boom':
        return ('boom', tag)
    if b == 'type':
        return ('type',)
    if b == 'inner':
        return ('err', [line('int_parsing', ('q',), canon('zz'), 'Input should be a valid integer, unable to parse string as an integer')])


RAISE = ['ve', 've2', 'ae', 'aeempty', 'cust', 'known', 'omit', 'use', 'boom', 'type', 'inner']
SIMPLE = ['pass', 'tr'] + RAISE
WRAP = ['pass', 'tr', 'pre', 'skip', 'twice', 'catch', 'swap', 'loc', 'loci', 'fin', 'again'] + RAISE
CORE = ['pass', 'tr', 've', 'boom', 'use']
CFG = None


class Env:
    def __init__(self, mode, strict, config):
        self.mode, self.strict, self.config = {'strings': 'string'}.get(mode, mode), strict, config
        self.key = False
        self.log = []
        self.field = None
        self.data = None


def note(tag, v, info):
    if info is None:
        LOG.append((tag, canon(v)))
    else:
        if repr(info) != f'ValidationInfo(config={info.config!r}, context={info.context!r}, data={info.data!r}, field_name={info.field_name!r})':
            LOG.append(('representation', repr(info)))
        LOG.append((tag, canon(v), info.mode, info.context is CTX, info.field_name, None if info.data is None else canon(info.data), canon(info.config)))


def rnote(env, tag, v, info):
    if not info:
        env.log.append((tag, canon(v)))
    else:
        env.log.append((tag, canon(v), env.mode, True, env.field, None if env.data is None else canon(env.data), canon(env.config)))


class Leaf:
    def __init__(self, t):
        self.t = self.name = t

    def schema(self):
        return {'int': cs.int_schema, 'any': cs.any_schema}[self.t]()

    def ev(self, x, env, depth=0):
        if self.t == 'any':
            return ('ok', x)
        # int leaf; the inputs used are ints, numeric / other strings and lists
        if type(x) is int:
            return ('ok', x)
        if type(x) is str:
            # strings mode: raw string input (no function in between) follows the string rules also in strict mode
            if env.strict and not ((env.mode == 'string' or env.key) and depth == 0):
                return ('err', [line('int_type', (), canon(x), 'Input should be a valid integer')])
            if x.isdigit():
                return ('ok', int(x))
            return ('err', [line('int_parsing', (), canon(x), 'Input should be a valid integer, unable to parse string as an integer')])
        return ('err', [line('int_type', (), canon(x), 'Input should be a valid integer')])


def tr(x, tag):
    """transformations keep the value usable by the int leaf sometimes"""
    return x + 10 if type(x) is int else x + '7' if type(x) is str else [x, tag]


class Fn:
    def __init__(self, kind, b, inner, tag, info):
        self.kind, self.b, self.inner, self.tag, self.info = kind, b, inner, tag, info
        self.name = f'{kind}:{b}{"" if info else "-"}({inner.name})' if inner else f'plain:{b}{"" if info else "-"}'

    def schema(self):
        tag, b, kind = self.tag, self.b, self.kind
        if kind == 'wrap':
            def f(v, h, info=None):
                note(tag, v, info)
                if b == 'pass':
                    return h(v)
                if b == 'tr':
                    return tr(h(v), tag)
                if b == 'pre':
                    return h(tr(v, tag))
                if b == 'skip':
                    return 's'
                if b == 'twice':
                    return [h(v), h(tr(v, tag))]
                if b == 'catch':
                    try:
                        return h(v)
                    except ValidationError as e:
                        return ['caught', [(i['type'], i['loc']) for i in e.errors()]]
                if b == 'swap':
                    try:
                        return h(v)
                    except ValidationError:
                        raise ValueError('swap')
                if b == 'loc':
                    return h(v, 'L')
                if b == 'loci':
                    return h(v, 3)
                if b == 'fin':
                    try:
                        return h(v)
                    finally:
                        LOG.append((tag, 'fin'))
                if b == 'again':
                    try:
                        return h(v)
                    except ValidationError:
                        return h(5)
                r = h(v)
                raiser(b, tag)
                return r
            if self.info:
                return cs.with_info_wrap_validator_function(lambda v, h, i: f(v, h, i), self.inner.schema())
            return cs.no_info_wrap_validator_function(lambda v, h: f(v, h), self.inner.schema())

        def g(v, info=None):
            note(tag, v, info)
            if b == 'tr':
                return tr(v, tag)
            raiser(b, tag)
            return v
        fn = (lambda v, i: g(v, i)) if self.info else (lambda v: g(v))
        if kind == 'plain':
            return (cs.with_info_plain_validator_function if self.info else cs.no_info_plain_validator_function)(fn)
        mkf = {('before', True): cs.with_info_before_validator_function, ('before', False): cs.no_info_before_validator_function,
               ('after', True): cs.with_info_after_validator_function, ('after', False): cs.no_info_after_validator_function}[(kind, self.info)]
        return mkf(fn, self.inner.schema())

    def ev(self, x, env, depth=0):
        b, tag, inner = self.b, self.tag, self.inner
        if self.kind in ('before', 'plain'):
            rnote(env, tag, x, self.info)
            if b in RAISE:
                return raised(b, tag, x)
            y = tr(x, tag) if b == 'tr' else x
            return ('ok', y) if self.kind == 'plain' else inner.ev(y, env, depth + 1)
        if self.kind == 'after':
            r = inner.ev(x, env, depth)
            if r[0] != 'ok':
                return r
            rnote(env, tag, r[1], self.info)
            if b in RAISE:
                return raised(b, tag, x)
            return ('ok', tr(r[1], tag) if b == 'tr' else r[1])
        rnote(env, tag, x, self.info)
        if b == 'skip':
            return ('ok', 's')
        r = inner.ev(tr(x, tag) if b == 'pre' else x, env, depth + 1)
        if b == 'fin':
            env.log.append((tag, 'fin'))
            return r
        if r[0] == 'err':
            if b == 'catch':
                return ('ok', ['caught', [(e[0], e[1]) for e in r[1]]])
            if b == 'swap':
                return ('err', [line('value_error', (), canon(x), 'Value error, swap')])
            if b in ('loc', 'loci'):
                return ('err', [(e[0], ('L' if b == 'loc' else 3,) + e[1]) + e[2:] for e in r[1]])
            if b == 'again':
                return inner.ev(5, env, depth + 1)
        if r[0] != 'ok':
            return r
        if b == 'tr':
            return ('ok', tr(r[1], tag))
        if b == 'twice':
            r2 = inner.ev(tr(x, tag), env, depth + 1)
            return ('ok', [r[1], r2[1]]) if r2[0] == 'ok' else r2
        if b in RAISE:
            return raised(b, tag, x)
        return r


class Cls(Model):
    pass


class Cls2(Model):
    pass


def rec_schema():
    def f(v, info):
        note('g', v, info)
        return v
    return cs.with_info_plain_validator_function(f)


def rrec(env, x):
    rnote(env, 'g', x, True)
    return x


POS = ['top', 'list', 'set', 'dictval', 'dictkey', 'tuple', 'td', 'mf', 'model', 'nested', 'da', 'args', 'union', 'nullable', 'default', 'ref', 'root', 'lax', 'extras']
OMITS = {'list', 'set', 'dictval', 'dictkey', 'tuple', 'td', 'mf', 'model', 'nested'}


def position(name, s):
    g = rec_schema
    if name == 'top':
        return s
    if name == 'list':
        return cs.list_schema(s)
    if name == 'set':
        return cs.list_schema(s, fail_fast=True)
    if name == 'dictval':
        return cs.dict_schema(cs.str_schema(), s)
    if name == 'dictkey':
        return cs.dict_schema(s, cs.any_schema())
    if name == 'tuple':
        return cs.tuple_schema([cs.any_schema(), s, g()])
    if name == 'td':
        return cs.typed_dict_schema({'a': cs.typed_dict_field(g()), 'f': cs.typed_dict_field(s, validation_alias='F'), 'g': cs.typed_dict_field(g())})
    if name == 'mf':
        return cs.model_fields_schema({'a': cs.model_field(g()), 'f': cs.model_field(s), 'g': cs.model_field(g())})
    if name == 'model':
        return cs.model_schema(Cls, cs.model_fields_schema({'a': cs.model_field(g()), 'f': cs.model_field(s), 'g': cs.model_field(g())}), config={'title': 'T'})
    if name == 'nested':
        inner = cs.model_schema(Cls2, cs.model_fields_schema({'f': cs.model_field(s), 'i': cs.model_field(g())}))
        return cs.model_schema(Cls, cs.model_fields_schema({'a': cs.model_field(g()), 'n': cs.model_field(inner), 'g': cs.model_field(g())}))
    if name == 'da':
        return cs.dataclass_args_schema('D', [cs.dataclass_field('a', g()), cs.dataclass_field('f', s), cs.dataclass_field('g', g())])
    if name == 'args':
        return cs.arguments_schema([cs.arguments_parameter('a', g()), cs.arguments_parameter('f', s), cs.arguments_parameter('g', g())])
    if name == 'union':
        return cs.union_schema([cs.none_schema(), s], mode='left_to_right')
    if name == 'nullable':
        return cs.nullable_schema(s)
    if name == 'default':
        return cs.with_default_schema(s, default='D')
    if name == 'ref':
        s = dict(s)
        s['ref'] = 'R'
        return cs.definitions_schema(cs.list_schema(cs.definition_reference_schema('R')), [s])
    if name == 'root':
        return cs.model_schema(Cls, s, root_model=True)
    if name == 'lax':
        return cs.lax_or_strict_schema(s, s) if False else cs.chain_schema([s, g()])
    if name == 'extras':
        return cs.model_fields_schema({'a': cs.model_field(g())}, extra_behavior='allow', extras_schema=s)


def wrap_input(name, x):
    if name in ('list', 'set', 'ref'):
        return [x, x]
    if name == 'dictval':
        return {'k': x, 'l': x}
    if name == 'dictkey':
        return {x: '1', 'zz': '2'}
    if name == 'tuple':
        return ['0', x, '9']
    if name == 'td':
        return {'g': '9', 'F': x, 'a': '0'}
    if name in ('mf', 'model', 'da', 'args'):
        return {'g': '9', 'f': x, 'a': '0'}
    if name == 'nested':
        return {'g': '9', 'n': {'i': '5', 'f': x}, 'a': '0'}
    if name == 'extras':
        return {'x': x, 'a': '0'}
    return x


def at(loc, es):
    return [(e[0], loc + e[1]) + e[2:] for e in es]


def ref_items(node, env, items, fast=False, rec=None):
    """items: (loc, value) -> list of (loc, value) or error"""
    out, es = [], []
    for loc, x in items:
        r = node.ev(x, env)
        if r[0] == 'ok':
            out.append((loc, r[1]))
        elif r[0] == 'err':
            es += at(loc, r[1])
            if fast:
                break
        elif r[0] == 'omit':
            pass
        else:
            return r
    return ('err', es) if es else ('ok', out)


def ref_fields(env, fields):
    """fields: (name, loc, fn(env) -> result); info.data is the dict of the values so far"""
    save = env.field, env.data
    env.data = {}
    es = []
    for name, loc, fn in fields:
        env.field = name
        r = fn()
        if r[0] == 'ok':
            env.data[name] = r[1]
        elif r[0] == 'err':
            es += at(loc, r[1])
        elif r[0] == 'omit':
            pass
        else:
            env.field, env.data = save
            return r
    d = env.data
    env.field, env.data = save
    return ('err', es) if es else ('ok', d)


def daomit(name, r):
    """a dataclass field cannot be omitted: the request goes up"""
    return ('omitup',) if name == 'da' and r[0] == 'omit' else r


def reference(node, name, x, env):
    g = lambda v: (lambda: ('ok', rrec(env, v)))
    if name in ('top',):
        return node.ev(x, env)
    if name in ('list', 'set', 'ref'):
        r = ref_items(node, env, [((0,), x), ((1,), x)], name == 'set')
        return ('ok', [v for _, v in r[1]]) if r[0] == 'ok' else r
    if name == 'dictval':
        r = ref_items(node, env, [(('k',), x), (('l',), x)])
        return ('ok', {l[0]: v for l, v in r[1]}) if r[0] == 'ok' else r
    if name == 'dictkey':
        env.key = env.mode == 'json'
        r = ref_items(node, env, [((x, '[key]'), x), (('zz', '[key]'), 'zz')])
        if 'twice' in node.name or 'catch' in node.name:
            return ('skip',)  # may give unhashable keys
        if r[0] != 'ok':
            return r
        d = {}
        for l, v in r[1]:
            try:
                d[v] = '1' if l[0] == x else '2'
            except TypeError:
                return ('skip',)
        return ('ok', d)
    if name == 'tuple':
        r = ref_items(node, env, [((1,), x)])
        if r[0] in ('ok', 'err'):
            rrec(env, '9')
        return ('ok', ('0',) + tuple(v for _, v in r[1]) + ('9',)) if r[0] == 'ok' else r
    if name in ('td', 'mf', 'model', 'da', 'args'):
        if name == 'args':
            # no data
            env.field = 'a'
            rrec(env, '0')
            env.field = 'f'
            r = node.ev(x, env)
            env.field = 'g'
            if r[0] in ('ok', 'err'):
                rrec(env, '9')
            return ('err', at(('f',), r[1])) if r[0] == 'err' else ('ok', ((), {'a': '0', 'f': r[1], 'g': '9'})) if r[0] == 'ok' else r
        if name == 'model':
            env.config = {'title': 'T'}
        r = ref_fields(env, [('a', ('a',), g('0')), ('f', ('F',) if name == 'td' else ('f',), lambda: daomit(name, node.ev(x, env))), ('g', ('g',), g('9'))])
        return r
    if name == 'nested':
        def inner():
            r = ref_fields(env, [('f', ('f',), lambda: node.ev(x, env)), ('i', ('i',), g('5'))])
            return ('ok', mk(Cls2, None, set(r[1]), **r[1])) if r[0] == 'ok' else r
        return ref_fields(env, [('a', ('a',), g('0')), ('n', ('n',), inner), ('g', ('g',), g('9'))])
    if name == 'union':
        r = node.ev(x, env)
        if r[0] == 'err':
            return ('err', [line('none_required', ('none',), canon(x), 'Input should be None')] + r[1])
        return r
    if name == 'nullable':
        return ('ok', None) if x is None else node.ev(x, env)
    if name == 'default':
        r = node.ev(x, env)
        return ('ok', 'D') if r[0] == 'use' else r
    if name == 'root':
        env.field = 'root'
        return node.ev(x, env)
    if name == 'lax':
        r = node.ev(x, env)
        return ('ok', rrec(env, r[1])) if r[0] == 'ok' else r
    if name == 'extras':
        save = env.field, env.data
        r = ref_fields(env, [('a', ('a',), g('0'))])
        env.skipinfo = True
        r2 = node.ev(x, env)
        return ('ok', {'x': r2[1]}) if r2[0] == 'ok' else ('err', at(('x',), r2[1])) if r2[0] == 'err' else r2


def unpack(name, v):
    if name in ('mf',):
        return v[0]
    if name == 'extras':
        return v[1]
    if name == 'da':
        return v[0]
    if name == 'model':
        return dict(v.__dict__)
    if name == 'nested':
        return dict(v.__dict__)
    if name == 'root':
        return v.root
    return v


def run(v, mode, strict, x):
    try:
        if mode == 'python':
            return ('ok', v.validate_python(x, strict=strict, context=CTX))
        if mode == 'json':
            return ('ok', v.validate_json(json.dumps(x), strict=strict, context=CTX))
        return ('ok', v.validate_strings(x, strict=strict, context=CTX))
    except ValidationError as e:
        return ('err', [line(i['type'], i['loc'], canon(i['input']), i['msg']) for i in e.errors(include_url=False)], e)
    except Boom as e:
        return ('boom', e.args[0])
    except TypeError:
        return ('type',)
    except SchemaError as e:
        if str(e).startswith('Uncaught UseDefault'):
            return ('use',)
        if str(e).startswith('Uncaught Omit'):
            return ('omit',)
        return ('exc', str(e))
    except BaseException as e:
        guard(e, (mode, x))
        return ('exc', type(e).__name__, str(e))


def chain(spec, leaf, info):
    node = leaf
    for i, (kind, b) in enumerate(spec):
        node = Fn(kind, b, None if kind == 'plain' else node, len(spec) - i, info)
    return node


def last_exc_ok(err, got):
    """value_error / assertion_error carry the exception object in ctx"""
    for i in err.errors(include_url=False):
        if i['type'] in ('value_error', 'assertion_error'):
            x = i.get('ctx', {}).get('error')
            if not isinstance(x, ValueError if i['type'] == 'value_error' else AssertionError):
                return False
            if 'v' in str(x) and not i['msg'].endswith(str(x)):
                return False
    return True


INPUTS = [1, '2', 'x']


def one(ctx, node, name, modes, stricts, inputs=INPUTS):
    try:
        v = SchemaValidator(position(name, node.schema()))
    except SchemaError as e:
        ctx.fail(f'build {node.name} in {name}', err=str(e))
        return
    for mode in modes:
        for strict in stricts:
            for x in inputs:
                if mode == 'strings' and type(x) is not str or name == 'dictkey' and mode == 'json' and type(x) is not str:
                    continue
                if name in ('tuple', 'dictkey') and strict and mode != 'json':
                    continue
                env = Env(mode, strict, {} if False else None)
                w = wrap_input(name, x)
                if name in ('list', 'set', 'ref', 'tuple', 'args') and mode == 'strings':
                    continue
                want = reference(node, name, x, env)
                if want[0] == 'omitup':
                    want = ('omit',)
                LOG.clear()
                got = run(v, mode, strict, w)
                log = list(LOG)
                ctx.step()
                key = f'{node.name} in {name} {mode} strict={strict} <- {x!r}'
                if name == 'extras':
                    # the field name and data seen by extras validators are not judged
                    cut = lambda l: [e[:4] if len(e) > 4 and e[0] != 'g' else e for e in l]
                    log, env.log = cut(log), cut(env.log)
                ok = True
                if want[0] == 'skip':
                    continue
                if want[0] == 'omit' or want[0] == 'use':
                    ok = got[0] == want[0]
                elif want[0] == 'ok':
                    ok = got[0] == 'ok' and canon(unpack(name, got[1])) == canon(want[1])
                elif want[0] == 'err':
                    es = want[1]
                    if name in ('union',):
                        # labels of the function branches are names, the rest of the location must follow
                        ge = got[1] if got[0] == 'err' else []
                        ok = got[0] == 'err' and len(ge) == len(es) and ge[0][:2] == es[0][:2] and all((a[0],) + a[2:] == (b[0],) + b[2:] and a[1][1:] == b[1] for a, b in zip(ge[1:], es[1:]))
                    else:
                        ok = got[0] == 'err' and got[1] == es
                    ok = ok and last_exc_ok(got[2], got)
                else:
                    ok = got[:2] == want[:2]
                if not ok:
                    ctx.fail(key, got=got[:2], want=want)
                elif log != env.log:
                    ctx.fail(key + ' calls', got=log, want=env.log)
                ctx.ev(f'{want[0]}-{mode}', key if env.log else None)
                ctx.state((node.name, name, mode, strict, want[0], len(env.log)))
    ctx.trace_done()


RT = [{}, {'strict': True}, {'strict': False}, {'from_attributes': True}, {'from_attributes': False}, {'by_alias': True, 'by_name': True}, {'by_alias': False, 'by_name': True},
      {'by_name': True}, {'by_alias': True, 'by_name': False}, {'strict': True, 'from_attributes': True, 'by_name': True}]


def transparent(ctx, z, ins):
    """an identity wrap / before / after function changes nothing"""
    for ent in [(z.name, z.mk)]:
        base = SchemaValidator(ent[1]())
        forms = {
            'wrap': cs.no_info_wrap_validator_function(lambda v, h: h(v), ent[1]()),
            'wrapinfo': cs.with_info_wrap_validator_function(lambda v, h, i: h(v), ent[1]()),
            'wrap2': cs.no_info_wrap_validator_function(lambda v, h: h(v), cs.no_info_wrap_validator_function(lambda v, h: h(v), ent[1]())),
            'before': cs.no_info_before_validator_function(lambda v: v, ent[1]()),
            'after': cs.no_info_after_validator_function(lambda v: v, ent[1]()),
            'field': cs.typed_dict_schema({'f': cs.typed_dict_field(cs.no_info_wrap_validator_function(lambda v, h: h(v), ent[1]()))}),
            'unionwrap': cs.union_schema([cs.no_info_wrap_validator_function(lambda v, h: h(v), ent[1]()), cs.is_instance_schema(Boom)]),
            'union': cs.union_schema([ent[1](), cs.is_instance_schema(Boom)]),
        }
        vs = {}
        for k, s in forms.items():
            try:
                vs[k] = SchemaValidator(s)
            except SchemaError as e:
                ctx.fail(f'build {ent[0]} {k}', err=str(e))
        for x in ins:
            for rt in (RT if not ctx.quick else RT[:4] + RT[6:7] + RT[9:]):
                a = outcome(base.validate_python, x, with_input=True, with_msg=True, **rt)
                if a[0] == 'exc':
                    continue
                for k, v in vs.items():
                    if k == 'union':
                        continue
                    if k == 'field':
                        b = outcome(v.validate_python, {'f': x}, with_input=True, with_msg=True, **rt)
                        w = ('ok', ('dict', (canon('f'), a[1]))) if a[0] == 'ok' else (a[0], tuple((e[0], ('f',) + e[1]) + e[2:] for e in a[1]))
                    elif k == 'unionwrap':
                        b = outcome(v.validate_python, x, **rt)
                        w = outcome(vs['union'].validate_python, x, **rt)
                        if b[0] == w[0] == 'err':
                            # the label of a function branch is its own name
                            b = tuple((t, l[1:]) for t, l in b[1])
                            w = tuple((t, l[1:]) for t, l in w[1])
                    else:
                        b, w = outcome(v.validate_python, x, with_input=True, with_msg=True, **rt), a
                    ctx.step()
                    if b != w:
                        ctx.fail(f'transparent {ent[0]} {k} {rt} <- {type(x).__name__} {rep(x)}', got=b, want=w)
                    ctx.ev(f'transparent-{a[0]}', (ent[0], k, rep(x), str(rt)))
        ctx.trace_done()


ASG_EV = ['pass', 'tr', 've', 'boom', 'cust', 'omit', 'inner']


def assignment(ctx):
    """model-level and field-level functions under validate_assignment: same chain, same rules"""
    class A(Model):
        pass
    for kind in ('before', 'after', 'wrap'):
        for lvl in ('field', 'model', 'fields'):
            for b in (RAISE + ['pass']):
                seen = []

                def fn(v, *r):
                    info = r[-1]
                    seen.append((info.mode, info.context is CTX, info.field_name, canon(info.data) if info.data is not None else None))
                    out = r[0](v) if kind == 'wrap' else v
                    if arm[0]:
                        raiser(b, 1)
                    return out
                arm = [False]
                w = {'before': cs.with_info_before_validator_function, 'after': cs.with_info_after_validator_function, 'wrap': cs.with_info_wrap_validator_function}[kind]
                fs = cs.int_schema()
                if lvl == 'field':
                    fs = w(fn, fs)
                inner = cs.model_fields_schema({'a': cs.model_field(cs.int_schema()), 'f': cs.model_field(fs), 'g': cs.model_field(cs.int_schema())})
                if lvl == 'fields':
                    inner = w(fn, inner)
                s = cs.model_schema(A, inner)
                if lvl == 'model':
                    s = w(fn, s)
                v = SchemaValidator(s)
                m = v.validate_python({'a': 1, 'f': 2, 'g': 3}, context=CTX)
                seen.clear()
                arm[0] = True
                before = canon(m)
                try:
                    r = v.validate_assignment(m, 'f', '5', context=CTX)
                    got = ('ok',)
                except ValidationError as e:
                    got = ('err', [line(i['type'], i['loc'], 0, i['msg']) for i in e.errors(include_url=False)])
                except Boom as e:
                    got = ('boom', e.args[0])
                except TypeError:
                    got = ('type',)
                except SchemaError as e:
                    got = ('use',) if 'UseDefault' in str(e) else ('omit',)
                except BaseException as e:
                    guard(e, (kind, lvl, b))
                    got = ('exc', repr(e))
                key = f'assignment {kind} {lvl} {b}'
                want = ('ok',) if b == 'pass' else raised(b, 1, 0)
                if want[0] == 'err':
                    want = ('err', [line(e[0], (('f',) if lvl == 'field' else ()) + e[1], 0, e[3]) for e in want[1]])
                ctx.check(got == want, key, got=got, want=want)
                ctx.check(len(seen) == 1 and seen[0][:2] == ('python', True), key + ' calls', seen=seen)
                if lvl == 'field':
                    ctx.check(seen[0][2] == 'f' and seen[0][3] == canon({'a': 1, 'g': 3}), key + ' info', seen=seen)
                    if b != 'pass':
                        ctx.check(canon(m) == before, key + ' changed the instance', before=before, after=canon(m))
                ctx.step()
                ctx.ev(f'assign-{want[0]}', key)
                ctx.trace_done()


LOCS = ['no', 'plain', 'L', 3, '', ('t', 1), 'twice']


def asg_locs(ctx):
    """wrap functions around the field, the fields and the model (or dataclass), each handing an outer location to its handler or not,
    once or twice, over validation and assignment of good, bad, unknown and frozen fields"""
    class A(Model):
        pass

    @dataclasses.dataclass
    class D:
        a: int
        f: int
        z: int = 0

    def wrap(how, s, tag, calls):
        if how == 'no':
            return s

        def fn(v, h):
            calls.append(tag)
            if how == 'plain':
                return h(v)
            if how == 'twice':
                try:
                    return h(v, 'first')
                except ValidationError:
                    return h(v, 'second')
            return h(v, how)
        return cs.no_info_wrap_validator_function(fn, s)
    pre = lambda how: () if how in ('no', 'plain') else ('second',) if how == 'twice' else (how if isinstance(how, (str, int)) else repr(how),)
    two = ['no', 'plain', 'L', 'twice', 3]
    lv = list(itertools.product(LOCS, two if ctx.quick else LOCS, two if ctx.quick else LOCS))
    for kind in ('model', 'dataclass'):
        for hm, hfs, hf in ctx.split(lv):
            for extra in ('forbid', 'allow'):
                calls = []
                fs = wrap(hf, cs.int_schema(), 'f', calls)
                if kind == 'model':
                    inner = cs.model_fields_schema({'a': cs.model_field(cs.int_schema()), 'f': cs.model_field(fs), 'z': cs.model_field(cs.with_default_schema(cs.int_schema(), default=0), frozen=True)}, extra_behavior=extra)
                    s = cs.model_schema(A, wrap(hfs, inner, 'fs', calls), extra_behavior=extra)
                else:
                    inner = cs.dataclass_args_schema('D', [cs.dataclass_field('a', cs.int_schema()), cs.dataclass_field('f', fs), cs.dataclass_field('z', cs.with_default_schema(cs.int_schema(), default=0), frozen=True)], extra_behavior=extra)
                    s = cs.dataclass_schema(D, wrap(hfs, inner, 'fs', calls), ['a', 'f', 'z'])
                v = SchemaValidator(wrap(hm, s, 'm', calls))
                out = pre(hm) + pre(hfs)
                # how often each function runs when everything below it fails
                n = {'m': int(hm != 'no')}
                n['fs'] = int(hfs != 'no') * (2 if hm == 'twice' else 1)
                n['f'] = int(hf != 'no') * (2 if hm == 'twice' else 1) * (2 if hfs == 'twice' else 1)
                for fld, val, ok in (('f', '5', 1), ('f', 'bad', 0), ('a', 'bad', 0), ('z', 5, 0), ('u', 5, extra == 'allow')):
                    for route in ('assign', 'python', 'json'):
                        if route != 'assign' and fld in ('z', 'u'):
                            continue
                        m = v.validate_python({'a': 1, 'f': 2})
                        before = canon(m)
                        calls.clear()
                        data = {'a': 1, 'f': 2, fld: val}
                        try:
                            r = v.validate_assignment(m, fld, val) if route == 'assign' else v.validate_python(data) if route == 'python' else v.validate_json(json.dumps(data))
                            got = ('ok', r.__pydantic_extra__[fld] if fld == 'u' and kind == 'model' else getattr(r, fld))
                        except ValidationError as e:
                            got = ('err', [(i['type'], i['loc']) for i in e.errors()])
                        except BaseException as e:
                            guard(e, (kind, hm, hfs, hf))
                            got = ('exc', repr(e))
                        key = f'locations {kind} {hm!r} {hfs!r} {hf!r} {extra} {route} {fld}={val!r}'
                        if ok:
                            want = ('ok', 5)
                            ctx.check(got == want, key, got=got, want=want)
                            w = {k: min(1, n[k]) if fld == 'f' or k != 'f' or route != 'assign' else 0 for k in n}
                        else:
                            t = 'int_parsing' if val == 'bad' else 'frozen_field' if fld == 'z' else 'no_such_attribute'
                            want = ('err', [(t, out + (fld,) + (pre(hf) if fld == 'f' else ()))])
                            ctx.check(got == want, key, got=got, want=want)
                            ctx.check(canon(m) == before, key + ' changed the instance', before=before, after=canon(m))
                            w = dict(n)
                            if fld != 'f':
                                # the good value of `f` passes at the first attempt of its function, and not at all in an assignment
                                w['f'] = 0 if route == 'assign' else int(hf != 'no') * (2 if hm == 'twice' else 1) * (2 if hfs == 'twice' else 1)
                        have = {k: calls.count(k) for k in n}
                        ctx.check(have == w, key + ' calls', have=have, want=w)
                        ctx.step()
                        ctx.ev(f'locations-{got[0]}', key)
                ctx.trace_done()


class Stop(BaseException):
    """no Exception: like KeyboardInterrupt"""


@dataclasses.dataclass
class DP:
    a: str = 'A'
    f: str = 'F'


def places():
    """(name, schema around s, input around x as python, as JSON data or NotImplemented): every place where a validator holds another one"""
    A = cs.any_schema
    P, P3 = cs.arguments_parameter, cs.arguments_v3_parameter
    mf, td, df = cs.model_field, cs.typed_dict_field, cs.dataclass_field
    lst, dic, dich = (lambda x, g: [g, x]), (lambda x, g: {'a': '0', 'f': x}), (lambda x, g: {'a': g, 'f': x})
    N = NotImplemented
    yield 'list', lambda s: cs.list_schema(s), lst, lst
    yield 'list fail_fast', lambda s: cs.list_schema(s, fail_fast=True), lst, lst
    yield 'set', lambda s: cs.set_schema(s), lst, lst
    yield 'frozenset', lambda s: cs.frozenset_schema(s), lst, lst
    yield 'tuple', lambda s: cs.tuple_schema([A(), s]), lst, lst
    yield 'tuple variadic', lambda s: cs.tuple_schema([A(), s, A()], variadic_item_index=1), lambda x, g: ['0', g, x, '2'], lambda x, g: ['0', g, x, '2']
    yield 'dict key', lambda s: cs.dict_schema(s, A()), lambda x, g: {g: 1, x: 1}, lambda x, g: {g: 1, x: 1}
    yield 'dict value', lambda s: cs.dict_schema(A(), s), dich, dich
    yield 'td field', lambda s: cs.typed_dict_schema({'a': td(A()), 'f': td(s)}), dic, dic
    yield 'td extra', lambda s: cs.typed_dict_schema({'a': td(A())}, extra_behavior='allow', extras_schema=s), dic, dic
    yield 'model fields', lambda s: cs.model_fields_schema({'a': mf(A()), 'f': mf(s)}), dic, dic
    yield 'model fields extra', lambda s: cs.model_fields_schema({'a': mf(A())}, extra_behavior='allow', extras_schema=s), dic, dic
    yield 'model fields extra key', lambda s: cs.model_fields_schema({'a': mf(A())}, extra_behavior='allow', extras_keys_schema=s), lambda x, g: {'a': 1, x: 1}, lambda x, g: {'a': 1, x: 1}
    yield 'model', lambda s: cs.model_schema(Cls, cs.model_fields_schema({'a': mf(A()), 'f': mf(s)})), dic, dic
    yield 'root model', lambda s: cs.model_schema(Cls2, s, root_model=True), lambda x, g: x, lambda x, g: x
    yield 'dataclass', lambda s: cs.dataclass_schema(DP, cs.dataclass_args_schema('DP', [df('a', A()), df('f', s)]), ['a', 'f']), dic, dic
    yield 'dataclass args', lambda s: cs.dataclass_args_schema('DP', [df('a', A(), kw_only=False), df('f', s, kw_only=False)]), lambda x, g: ArgsKwargs(('0', x)), N
    yield 'dataclass init_only', lambda s: cs.dataclass_args_schema('DP', [df('a', A()), df('f', s, init_only=True)], collect_init_only=True), dic, dic
    yield 'dataclass extra', lambda s: {**cs.dataclass_args_schema('DP', [df('a', A())], extra_behavior='allow'), 'extras_schema': s}, dic, dic
    for v3, p, sch in ((False, P, cs.arguments_schema), (True, P3, cs.arguments_v3_schema)):
        t = ' v3' if v3 else ''
        for mode in ('positional_only', 'positional_or_keyword', 'keyword_only'):
            ps = lambda s, p=p, mode=mode: [p('a', A(), mode=mode), p('f', s, mode=mode)]
            if mode != 'keyword_only':
                yield f'{mode} by position{t}', lambda s, ps=ps, sch=sch: sch(ps(s)), lambda x, g: ArgsKwargs(('0', x)), N if v3 else lst
            if mode != 'positional_only':
                yield f'{mode} by name{t}', lambda s, ps=ps, sch=sch: sch(ps(s)), lambda x, g: ArgsKwargs((), {'a': '0', 'f': x}), N if v3 else dic
            if v3:
                yield f'{mode} from a mapping', lambda s, ps=ps, sch=sch: sch(ps(s)), dic, dic
        va = (lambda s: cs.arguments_schema([P('a', A())], var_args_schema=s)) if not v3 else (lambda s: cs.arguments_v3_schema([P3('a', A()), P3('args', s, mode='var_args')]))
        yield f'var args{t}', va, lambda x, g: ArgsKwargs(('0', g, x)), N if v3 else (lambda x, g: ['0', g, x])
        vk = (lambda s: cs.arguments_schema([P('a', A())], var_kwargs_schema=s)) if not v3 else (lambda s: cs.arguments_v3_schema([P3('a', A()), P3('kw', s, mode='var_kwargs_uniform')]))
        yield f'var kwargs{t}', vk, lambda x, g: ArgsKwargs(('0',), {'e': g, 'f': x}), N
        inner = lambda s: cs.typed_dict_schema({'f': td(s)})
        vt = (lambda s, inner=inner: cs.arguments_schema([P('a', A())], var_kwargs_mode='unpacked-typed-dict', var_kwargs_schema=inner(s))) if not v3 else \
            (lambda s, inner=inner: cs.arguments_v3_schema([P3('a', A()), P3('kw', inner(s), mode='var_kwargs_unpacked_typed_dict')]))
        yield f'unpacked kwargs{t}', vt, lambda x, g: ArgsKwargs(('0',), {'f': x}), N
        if v3:
            yield 'var args from a mapping', va, lambda x, g: {'a': '0', 'args': [g, x]}, lambda x, g: {'a': '0', 'args': [g, x]}
            yield 'var kwargs from a mapping', vk, lambda x, g: {'a': '0', 'kw': {'e': g, 'f': x}}, lambda x, g: {'a': '0', 'kw': {'e': g, 'f': x}}
            yield 'unpacked kwargs from a mapping', vt, lambda x, g: {'a': '0', 'kw': {'f': x}}, lambda x, g: {'a': '0', 'kw': {'f': x}}
    yield 'call argument', lambda s: cs.call_schema(cs.arguments_schema([P('f', s)]), lambda f: f), lambda x, g: ArgsKwargs((x,)), lambda x, g: [x]
    yield 'call return', lambda s: cs.call_schema(cs.arguments_schema([P('f', A())]), lambda f: f, return_schema=s), lambda x, g: ArgsKwargs((x,)), lambda x, g: [x]
    same, one_ = (lambda x, g: x), (lambda x: x)
    yield 'union first', lambda s: cs.union_schema([s, cs.none_schema()]), same, same
    yield 'union last', lambda s: cs.union_schema([cs.none_schema(), s], mode='left_to_right'), same, same
    yield 'tagged union', lambda s: cs.tagged_union_schema({'t': s, 'u': cs.none_schema()}, lambda v: 't'), same, same
    yield 'nullable', lambda s: cs.nullable_schema(s), same, same
    yield 'chain first', lambda s: cs.chain_schema([s, A()]), same, same
    yield 'chain last', lambda s: cs.chain_schema([A(), s]), same, same
    yield 'lax or strict', lambda s: cs.lax_or_strict_schema(s, s), same, same
    yield 'json or python', lambda s: cs.json_or_python_schema(s, s), same, same
    yield 'json', lambda s: cs.json_schema(s), lambda x, g: json.dumps(x), lambda x, g: json.dumps(x)
    yield 'definitions', lambda s, c=itertools.count(): (lambda r: cs.definitions_schema(cs.list_schema(cs.definition_reference_schema(r)), [{**s, 'ref': r}]))(f'R{next(c)}'), lst, lst
    yield 'default', lambda s: cs.with_default_schema(s, default='D'), same, same
    yield 'validated default', lambda s: cs.typed_dict_schema({'a': td(A()), 'f': td(cs.with_default_schema(s, default='boom', validate_default=True))}), lambda x, g: {'a': 1} if x == 'boom' else dic(x, g), lambda x, g: {'a': 1} if x == 'boom' else dic(x, g)
    yield 'before', lambda s: cs.no_info_before_validator_function(one_, s), same, same
    yield 'after', lambda s: cs.no_info_after_validator_function(one_, s), same, same
    yield 'wrap', lambda s: cs.no_info_wrap_validator_function(lambda v, h: h(v), s), same, same
    yield 'generator', lambda s: cs.no_info_after_validator_function(list, cs.generator_schema(s)), lst, lst


SCALAR_ONLY = ('set', 'frozenset', 'dict key', 'model fields extra key', 'validated default')


def propagate(ctx):
    """An exception which is no error of validation leaves every entry point as it is, from every place of a schema (and every place inside
    a place), even when errors were found before it; the validator is as good as new afterwards.  Omission and use-default requests reach
    validate_python, validate_json and isinstance_python alike."""
    P = list(places())
    excs = [Boom('b'), Stop('s'), KeyboardInterrupt('k'), RecursionError('r'), StopIteration('i'), MemoryError('m'), KeyError('key'), AttributeError('at')]
    arm = [None]

    def f(v):
        if v == 'boom':
            raise arm[0]
        if v == 'err':
            raise ValueError('earlier')
        return 'ok'
    sers = lambda: cs.no_info_plain_validator_function(f)
    for (n1, s1, x1, j1) in ctx.split(P):
        for n2, s2, x2, j2 in [('', lambda s: s, lambda x, g: x, lambda x, g: x)] + P:
            if n2 and (n1 in SCALAR_ONLY or n1 == 'json' and j2 is NotImplemented or n2 in ('validated default', 'json') and n1 != 'list'):
                continue
            key = f'propagate: {n1}' + (f' of {n2}' if n2 else '')
            try:
                V = SchemaValidator(s1(s2(sers())))
            except SchemaError as e:
                assert 'Duplicate ref' in str(e), (key, e)
                continue
            px = j2 if n1 == 'json' else x2

            def inputs(make):
                """good, failing, failing after an error"""
                return [make('x', 'y'), make('boom', 'y'), make('boom', 'err')]
            routes = []
            for route, fn in (('python', V.validate_python), ('isinstance', V.isinstance_python)):
                data = inputs(lambda x, g: x1(px(x, g), px('y', 'y')))
                data.append(x1(px('boom', 'y'), px('err', 'y')))
                routes.append((route, lambda i, fn=fn, data=data: fn(data[i])))
            if j1 is not NotImplemented and j2 is not NotImplemented:
                data = [json.dumps(d) for d in inputs(lambda x, g: j1(j2(x, g), j2('y', 'y'))) + [j1(j2('boom', 'y'), j2('err', 'y'))]]
                routes.append(('json', lambda i, data=data: V.validate_json(data[i])))
            eager = not any(w in key for w in ('fail_fast', 'generator')) 
            for route, call in routes:
                for e in (excs if not n2 else excs[:2] if ctx.quick else excs[:4]):
                    if type(e) is StopIteration and 'generator' in key:
                        continue    # it is how an iterator ends
                    arm[0] = e
                    for i in (1, 2, 3) if eager else (1,):
                        ctx.step()
                        try:
                            r = ('ok', call(i))
                        except BaseException as x:
                            r = ('exc', x)
                        ctx.check(r[0] == 'exc' and r[1] is e, f'{key}: {route}: {type(e).__name__}', got=r, variant=i)
                        try:
                            r = ('ok', call(0))
                        except BaseException as x:
                            r = ('exc', x)
                        ctx.check(r[0] == 'ok' and r[1] is not False, f'{key}: {route}: unusable afterwards', got=r)
                    ctx.ev('propagated', (n1, n2, route, type(e).__name__))
            # omission and defaults: the same everywhere
            for e, text in ((PydanticOmit(), 'Uncaught Omit'), (PydanticUseDefault(), 'Uncaught UseDefault'), (ValueError('ve'), 've'), (AssertionError('ae'), 'ae')):
                arm[0] = e
                rs = []
                for route, call in routes:
                    try:
                        r = call(1)
                        rs.append('yes' if r is not False else 'no')
                    except ValidationError:
                        rs.append('no')
                    except SchemaError as x:
                        rs.append(str(x))
                    except BaseException as x:
                        rs.append(repr(x))
                ctx.check(len(set(rs)) == 1, f'{key}: {type(e).__name__} differs between entry points', got=list(zip([r for r, _ in routes], rs)))
                ctx.check(rs[0] in ('yes', 'no') or text in rs[0], f'{key}: {type(e).__name__} outcome', got=rs)
                ctx.check(not isinstance(e, (ValueError, AssertionError)) or rs[0] == 'no' or 'union' in n1 + n2, f'{key}: {type(e).__name__} accepted', got=rs)
                ctx.ev('control ' + rs[0][:12], (n1, n2, type(e).__name__))


class AE2(AssertionError):
    pass


class AE3(AE2):
    def __str__(self):
        return 'told'


class Both(AssertionError, ValueError):
    pass


class VKey(ValueError, KeyError):
    pass


class TyVal(TypeError, ValueError):
    pass


class Falsy(ValueError):
    def __bool__(self):
        return False

    def __len__(self):
        return 0

    def __eq__(self, o):
        raise Boom('eq')
    __hash__ = ValueError.__hash__


class Mute(ValueError):
    def __str__(self):
        raise Boom('str')


class MuteA(AssertionError):
    def __str__(self):
        raise Boom('str')


class Custom2(PydanticCustomError):
    pass


class Liar(Exception):
    """says it is a ValueError, is not one"""
    __class__ = ValueError


def kinds_of_exception():
    """(name, a fresh exception, (type, message, whether the context carries the exception) or the type of what escapes)"""
    from pydantic_core import PydanticSerializationError, PydanticSerializationUnexpectedValue
    for c in (ValueError, AssertionError, VE2, AE2, AE3, Both, VKey, TyVal, Falsy):
        for args in ((), ('m',), ('m', 2), ('\u00e9\x00',), (5,)):
            e = c(*args)
            a = not isinstance(e, ValueError)
            yield f'{c.__name__}{args}', e, ('assertion_error' if a else 'value_error', ('Assertion failed, ' if a else 'Value error, ') + str(e), True)
    e = UnicodeDecodeError('utf-8', b'\xff', 0, 1, 'why')
    yield 'UnicodeDecodeError', e, ('value_error', 'Value error, ' + str(e), True)
    e = json.JSONDecodeError('bad', 'doc', 1)
    yield 'JSONDecodeError', e, ('value_error', 'Value error, ' + str(e), True)
    for c in (PydanticSerializationError, PydanticSerializationUnexpectedValue):
        e = c('sm')
        yield c.__name__, e, ('value_error', 'Value error, ' + str(e), True)
    for c in (PydanticCustomError, Custom2):
        yield c.__name__, c('mine', 'got {n}', {'n': 3}), ('mine', 'got 3', False)
        yield c.__name__ + ' bare', c('mine', 'plain'), ('mine', 'plain', False)
    yield 'PydanticKnownError', PydanticKnownError('greater_than', {'gt': 3}), ('greater_than', 'Input should be greater than 3', False)
    yield 'Mute', Mute(), Boom
    yield 'MuteA', MuteA(), Boom
    yield 'surrogate', ValueError('\ud800'), UnicodeEncodeError
    yield 'surrogate assertion', AssertionError('\ud800'), UnicodeEncodeError
    for c in (TypeError, KeyError, LookupError, RuntimeError, ArithmeticError, OSError, Exception, BaseException, KeyboardInterrupt, StopIteration, Boom, Liar, SchemaError, NotImplementedError):
        yield c.__name__, c('x'), None
    yield 'ExceptionGroup', ExceptionGroup('g', [ValueError('v')]), None


def exception_classes(ctx):
    """what each class of exception a function raises becomes, for every kind of function and way of calling: an error of validation about the
    input if (and only if) it is a ValueError or AssertionError, subclasses included; anything else escapes as it is"""
    arm = [None]

    def go():
        raise arm[0]
    A, I = cs.any_schema, cs.int_schema
    kinds = {
        'plain': cs.no_info_plain_validator_function(lambda v: go()), 'plain info': cs.with_info_plain_validator_function(lambda v, i: go()),
        'before': cs.no_info_before_validator_function(lambda v: go(), I()), 'before info': cs.with_info_before_validator_function(lambda v, i: go(), I()),
        'after': cs.no_info_after_validator_function(lambda v: go(), I()), 'after info': cs.with_info_after_validator_function(lambda v, i: go(), I()),
        'wrap': cs.no_info_wrap_validator_function(lambda v, h: go(), I()), 'wrap info': cs.with_info_wrap_validator_function(lambda v, h, i: go(), I()),
        'wrap late': cs.no_info_wrap_validator_function(lambda v, h: (h(v), go()), I()),
        'through handler': cs.no_info_wrap_validator_function(lambda v, h: h(v), cs.no_info_after_validator_function(lambda v: go(), I())),
        'before of before': cs.no_info_before_validator_function(lambda v: v, cs.no_info_before_validator_function(lambda v: go(), I())),
    }
    shapes = {
        'bare': (lambda s: s, lambda x: x, ()), 'list': (lambda s: cs.list_schema(s), lambda x: [x], (0,)), 'dict': (lambda s: cs.dict_schema(cs.str_schema(), s), lambda x: {'k': x}, ('k',)),
        'field': (lambda s: cs.typed_dict_schema({'a': cs.typed_dict_field(s)}), lambda x: {'a': x}, ('a',)),
        'model': (lambda s: cs.model_schema(type('M', (), {'__slots__': ('__dict__', '__pydantic_fields_set__', '__pydantic_extra__', '__pydantic_private__')}), cs.model_fields_schema({'a': cs.model_field(s)})), lambda x: {'a': x}, ('a',)),
        'nullable': (lambda s: cs.nullable_schema(s), lambda x: x, ()), 'default': (lambda s: cs.with_default_schema(s, default=1), lambda x: x, ()),
        'chain': (lambda s: cs.chain_schema([A(), s]), lambda x: x, ()),
    }
    for kn, k in ctx.split(list(kinds.items())):
        for sn, (sh, mk, loc) in shapes.items():
            V = SchemaValidator(sh(k))
            for en, e, want in kinds_of_exception():
                if kn == 'through handler' and en.startswith('surrogate'):
                    continue    # an encoding error is itself a ValueError to the outer function
                for route in ('python', 'json', 'strings'):
                    if route == 'strings' and sn == 'list':
                        continue    # no such strings
                    x = '5' if route == 'strings' else 5
                    arm[0] = e
                    key = f'exception classes: {kn} in {sn}: {en}: {route}'
                    ctx.step()
                    try:
                        r = V.validate_python(mk(x)) if route == 'python' else V.validate_json(json.dumps(mk(x))) if route == 'json' else V.validate_strings(mk(x))
                        got = ('value', r)
                    except BaseException as g:
                        got = ('exc', g)
                    g = got[1]
                    if isinstance(want, tuple):
                        ctx.check(got[0] == 'exc' and type(g) is ValidationError, f'{key}: not an error of validation', got=got)
                        if type(g) is not ValidationError:
                            continue
                        es = g.errors(include_url=False)
                        i = es[0]
                        ctx.check(len(es) == 1 and (i['type'], i['msg']) == want[:2] and i['loc'] == loc, f'{key}: wrong line', got=es, want=want)
                        ctx.check(type(i['input']) is type(x) and i['input'] == x, f'{key}: wrong input', got=es)
                        ctx.check((i.get('ctx', {}).get('error') is e) == want[2], f'{key}: the exception in the context', got=es)
                    elif want is None:
                        ctx.check(got[0] == 'exc' and g is e, f'{key}: not escaped as it is', got=got)
                    else:
                        ctx.check(got[0] == 'exc' and type(g) is want, f'{key}: what its str raises', got=got)
                ctx.ev('exception class', (kn, sn, en))


def explore(ctx):
    q = ctx.quick
    modes = ['python', 'json', 'strings']
    heads = [(k, b) for k in ('before', 'after') for b in SIMPLE] + [('wrap', b) for b in WRAP]
    plains = [('plain', b) for b in SIMPLE]
    leaves = [Leaf('int'), Leaf('any')]
    for h in ctx.split(heads + plains):
        for leaf in leaves:
            for info in (True, False):
                n = chain((h,), leaf, info)
                for name in POS:
                    one(ctx, n, name, modes, [False, True])
        ctx.sample('single', h)
    core2 = [h for h in heads if h[1] in CORE + ['twice', 'catch', 'loc', 'skip', 'omit', 'inner', 'cust']]
    pos2 = POS
    for outer in ctx.split(heads):
        for inner in (heads + plains if not q else core2 + [('plain', b) for b in CORE]):
            n = chain((inner, outer), leaves[0], True)
            for name in pos2:
                one(ctx, n, name, modes if not q or name == 'top' else ['python', 'json'], [False, True] if name == 'top' else [False])
    h3 = [h for h in heads if h[1] in ('pass', 've', 'tr', 'twice', 'catch', 'use')] if q else [h for h in heads if h[1] not in ('ve2', 'aeempty', 'known', 'loci')]
    for o, m in ctx.split(list(itertools.product(h3, h3))):
        for i in h3:
            one(ctx, chain((i, m, o), leaves[0], True), 'top', ['python'] if q else modes, [False])
    for _ in ctx.split([0]):
        assignment(ctx)
    asg_locs(ctx)
    propagate(ctx)
    exception_classes(ctx)
    ins = [x for x in py_inputs() if not hasattr(x, '__next__')]
    for e in ctx.split(ZOO):
        transparent(ctx, e, ins)
