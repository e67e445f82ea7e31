"""C02: strict acceptance implies lax acceptance; strict can be asked for in three ways; isinstance agrees."""
import itertools
from mc.lib import *
from mc.zoo import *

LEVEL = 'exploration'
RULE = ('product of (schema catalogue x enclosing schemas) x (alphabet of Python inputs, JSON texts, strings) x runtime options; pairs of executions are compared '
        '(strict vs lax, schema vs config vs call strict, isinstance vs validate); non-trivial when at least one execution of the pair accepts')
ASSUME = ['left_to_right unions and lax-or-strict schemas with different arms are declared to choose differently in lax mode, so only acceptance (not the value) is compared there']

ENC = {
    'plain': (lambda s: s, lambda x: x),
    'list': (lambda s: cs.list_schema(s), lambda x: [x]),
    'dict': (lambda s: cs.dict_schema(cs.str_schema(), s), lambda x: {'k': x}),
    'nullable': (lambda s: cs.nullable_schema(s), lambda x: x),
    'tuple': (lambda s: cs.tuple_schema([s, cs.any_schema()]), lambda x: (x, x)),
    'td': (lambda s: cs.typed_dict_schema({'f': cs.typed_dict_field(s)}), lambda x: {'f': x}),
    'default': (lambda s: cs.with_default_schema(s, default=None), lambda x: x),
    'after': (lambda s: cs.no_info_after_validator_function(lambda v: v, s), lambda x: x),
    'wrap': (lambda s: cs.no_info_wrap_validator_function(lambda v, h: h(v), s), lambda x: x),
    'defref': (lambda s: cs.definitions_schema(cs.definition_reference_schema('R'), [dict(s, ref='R')]) if s['type'] not in ('definitions',) else s, lambda x: x),
    'union1': (lambda s: cs.union_schema([s, cs.none_schema()]), lambda x: x),
    'gen': (lambda s: cs.chain_schema([s, cs.any_schema()]), lambda x: x),
    'model': (lambda s: cs.model_schema(MOuter, cs.model_fields_schema({'f': cs.model_field(s)})), lambda x: {'f': x}),
    'args': (lambda s: cs.arguments_schema([cs.arguments_parameter('f', s)]), lambda x: ArgsKwargs((x,), {})),
}


class MOuter(Model):
    pass


class MOuterI:
    pass


def drain(r):
    """generators: the validated items"""
    if type(r).__name__ == 'ValidatorIterator':
        out = []
        try:
            for i in r:
                out.append(i)
        except ValidationError as e:
            raise e
        return ('gen', out)
    return r


EXCLUDE_VALUE = ('union_ltr', 'union_m')
NO_CONFIG = ('model', 'model2', 'model_x', 'model_alias', 'model_reval', 'model_root', 'model_strict', 'model_attr', 'model_rec', 'dataclass', 'dataclass_slots', 'union_m', 'typed_dict', 'typed_dict_x', 'typed_dict_f', 'tagged')


def explore(ctx):
    items = [(z, e) for z in ZOO for e in ENC if e in ('plain', 'list', 'nullable', 'td', 'model', 'union1', 'wrap') or not ctx.quick or z.scalar]
    items += [(z, a + '/' + b) for z in ZOO for a in ENC for b in ENC if 'plain' not in (a, b) and (not ctx.quick or (z.name in ('int', 'model', 'union', 'date', 'set', 'enum') and a in ('list', 'union1', 'model') ))]
    for z, e in ctx.split(items):
        if '/' in e:
            e1, e2 = e.split('/')
            enc, inp = (lambda s: ENC[e1][0](ENC[e2][0](s))), (lambda x: ENC[e1][1](ENC[e2][1](x)))
        else:
            enc, inp = ENC[e]
        try:
            s = enc(z.schema())
            v = SchemaValidator(s)
        except SchemaError as ex:
            ctx.ev('unbuildable')
            continue
        vs = SchemaValidator(enc(z.schema()), {'strict': True})
        ctx.sample(z.name, e)
        lax_inputs = [inp(x) for x in py_inputs()]
        fresh = lambda: [inp(x) for x in py_inputs()]
        rows = {}
        for name, fn in {
            'strict': lambda x: v.validate_python(x, strict=True), 'lax': lambda x: v.validate_python(x, strict=False), 'none': lambda x: v.validate_python(x),
            'cfg': lambda x: vs.validate_python(x), 'cfg_lax': lambda x: vs.validate_python(x, strict=False),
            'is': lambda x: v.isinstance_python(x), 'is_strict': lambda x: v.isinstance_python(x, strict=True), 'is_lax': lambda x: v.isinstance_python(x, strict=False), 'is_cfg': lambda x: vs.isinstance_python(x),
        }.items():
            rows[name] = [outcome(lambda y: drain(fn(y)), x) for x in fresh()]
        names = [rep_short(x) for x in lax_inputs]
        for i, x in enumerate(names):
            compare(ctx, z, e, x, {k: r[i] for k, r in rows.items()}, 'py')
        # JSON
        if 'args' not in e:
            wrapj = {'list': lambda t: f'[{t}]', 'dict': lambda t: '{"k": %s}' % t, 'tuple': lambda t: f'[{t}, {t}]', 'td': lambda t: '{"f": %s}' % t, 'model': lambda t: '{"f": %s}' % t}
            for t in JSON_TEXTS:
                for part in reversed(e.split('/')):
                    t = wrapj.get(part, lambda t: t)(t)
                row = {'strict': outcome(lambda: drain(v.validate_json(t, strict=True))), 'lax': outcome(lambda: drain(v.validate_json(t, strict=False))), 'none': outcome(lambda: drain(v.validate_json(t))),
                       'cfg': outcome(lambda: drain(vs.validate_json(t))), 'cfg_lax': outcome(lambda: drain(vs.validate_json(t, strict=False)))}
                compare(ctx, z, e, t, row, 'json')
    # isinstance under every combination of runtime options
    opts = list(products(strict=(None, True, False), from_attributes=(None, True, False), names=((None, None), (True, False), (False, True), (True, True)), context=(None, {'c': 1})))
    sel = [z for z in ZOO if z.name in ('model', 'model_alias', 'model_attr', 'model2', 'typed_dict', 'dataclass', 'tagged', 'union_m', 'model_fields', 'list', 'int', 'model_rec', 'dataclass_args', 'model_root', 'model_strict', 'model_reval', 'wrap', 'generator')]
    for z in ctx.split(sel):
        v = SchemaValidator(z.schema())
        for o in opts:
            kw = {'strict': o['strict'], 'from_attributes': o['from_attributes'], 'by_alias': o['names'][0], 'by_name': o['names'][1], 'context': o['context']}
            a = [outcome(v.validate_python, x, **kw) for x in py_inputs()]
            b = [outcome(v.isinstance_python, x, **kw) for x in py_inputs()]
            for x, ra, rb in zip(py_inputs(), a, b):
                isi(ctx, z, 'opts', rep_short(x), ra, rb, kw)
    # self_instance: isinstance against a model under construction
    for z in ctx.split([ZN['model'], ZN['dataclass'], ZN['model_x']]):
        v = SchemaValidator(z.schema())
        for x in py_inputs():
            cls = {'model': M1, 'dataclass': D1, 'model_x': MX}[z.name]
            ra = outcome(v.validate_python, x, self_instance=cls.__new__(cls))
            rb = outcome(v.isinstance_python, x, self_instance=cls.__new__(cls))
            isi(ctx, z, 'self', rep_short(x), ra, rb, None)
    # callbacks that raise: isinstance must raise the same
    for exc in ctx.split([ValueError('v'), AssertionError('a'), TypeError('t'), KeyError('k'), RuntimeError('r'), ZeroDivisionError()]):
        def f(v, *a):
            raise exc
        for mk in (lambda: cs.no_info_plain_validator_function(f), lambda: cs.no_info_before_validator_function(f, cs.int_schema()), lambda: cs.no_info_wrap_validator_function(f, cs.int_schema()),
                   lambda: cs.list_schema(cs.no_info_after_validator_function(f, cs.any_schema())), lambda: cs.union_schema([cs.no_info_plain_validator_function(f), cs.int_schema()])):
            v = SchemaValidator(mk())
            for x in (1, [1], 'x'):
                ra, rb = outcome(v.validate_python, x), outcome(v.isinstance_python, x)
                isi(ctx, repr(exc), 'raise', x, ra, rb, None)


def rep_short(x):
    from mc.core import rep
    return rep(x, 80)


def isi(ctx, z, e, x, ra, rb, kw):
    ctx.ev(f'isinstance {ra[0]}', (repr(z), e, x, repr(kw)) if ra[0] == 'ok' else None)
    exp = ('ok', ('bool', True)) if ra[0] == 'ok' else ('ok', ('bool', False)) if ra[0] == 'err' else ra
    ctx.check(rb == exp, f'isinstance {z} {e}', x=x, kw=kw, validate=ra, isinstance=rb)


def compare(ctx, z, e, x, r, how):
    n = z.name
    nt = (n, e, how, x)
    ctx.ev(f'{how} strict {r["strict"][0]} lax {r["lax"][0]}', nt if 'ok' in (r['strict'][0], r['lax'][0]) else None)
    key = f'{n} {e} {how}'
    if r['strict'][0] == 'ok':
        if ctx.check(r['lax'][0] == 'ok', f'strict accepts, lax rejects: {key}', x=x, strict=r['strict'], lax=r['lax']) and n not in EXCLUDE_VALUE:
            ctx.check(r['strict'] == r['lax'], f'strict and lax values differ: {key}', x=x, strict=r['strict'], lax=r['lax'])
    if n not in ('model_strict', 'int_c_strict', 'lax_or_strict'):
        ctx.check(r['none'] == r['lax'], f'strict=False differs from the default: {key}', x=x, none=r['none'], lax=r['lax'])
    if n not in NO_CONFIG and not {'model', 'td'} & set(e.split('/')) and n not in ('lax_or_strict',):
        ctx.check(r['cfg'] == r['strict'], f'config strict differs from strict=True: {key}', x=x, cfg=r['cfg'], strict=r['strict'])
        ctx.check(r['cfg_lax'] == r['lax'], f'strict=False over config strict differs from lax: {key}', x=x, cfg_lax=r['cfg_lax'], lax=r['lax'])
    for a, b in (('none', 'is'), ('strict', 'is_strict'), ('lax', 'is_lax'), ('cfg', 'is_cfg')):
        if b in r:
            ra, rb = r[a], r[b]
            if n == 'generator':
                continue  # validated lazily: isinstance answers without pulling an item
            isi(ctx, z, f'{e} {b}', x, ra, rb, None)
