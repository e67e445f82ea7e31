"""C29: indirection is transparent - wrappers, references, pickling and prebuilding change no result."""
import copy, json, pickle
from pydantic_core import validate_core_schema
from mc.lib import *
from mc.zoo import *
from pydantic_core import to_jsonable_python

LEVEL = 'exploration'
RULE = ('every catalogue schema S x every transparent wrapper form (depth one and two) x every position (root, item, key, value, field, argument, union member, ...) x '
        'input alphabet x entry point; every result, error type, location, message and input, and every serialized form and warning, equals that of plain S in that position')
ASSUME = ['inputs that trigger a wrapper (None for nullable, PydanticUndefined for default) are not compared for it',
          'definition references disable partial validation (documented), so allow_partial is not compared',
          'iterators of generator schemas are compared by what they yield',
          'warnings of serializers are compared by number and value, not by the name of the expected type']
BOUNDS = {'quick': 'all catalogue schemas x 13 wrappers x 14 positions x 150 Python inputs, 110 JSON texts; pairs of wrappers in a list on a third of the inputs',
          'thorough': 'pairs of wrappers in all positions, all inputs'}


class CM(Model):
    pass


@dataclasses.dataclass
class CD:
    f: typing.Any


# --------------------------------------------------------------------------- wrappers
SENT = object()


def is_defs(s): return s['type'] in ('definitions', 'definition-ref')


DEFN = []  # definitions made by the wrappers of the schema being built: they are put around the whole


def w_def(s):
    """a reference, which may be used more than once"""
    if is_defs(s) or 'ref' in s: return None
    DEFN.append({**s, 'ref': f'X{len(DEFN)}'})
    return cs.definition_reference_schema(DEFN[-1]['ref'])


def w_defdef(s):
    """a reference to a definition which comes after it and refers to one which comes later still, with unused ones around"""
    if is_defs(s) or 'ref' in s: return None
    n = len(DEFN)
    DEFN.insert(0, cs.list_schema(cs.definition_reference_schema(f'U{n}'), ref=f'U{n}'))
    DEFN.append({'type': 'nullable', 'schema': cs.definition_reference_schema(f'Z{n}'), 'ref': f'Y{n}'})
    DEFN.append({**s, 'ref': f'Z{n}'})
    return cs.definition_reference_schema(f'Y{n}')


def w_inner(s):
    """definitions inside, not around"""
    if is_defs(s) or 'ref' in s: return None
    return cs.definitions_schema(cs.definition_reference_schema('I1'), [{**s, 'ref': 'I1'}])


def w_unused(s): return cs.definitions_schema(s, [cs.int_schema(ref='U3')])


def w_ref(s):
    if is_defs(s) or 'ref' in s: return None
    return {**s, 'ref': 'R1'}


def w_meta(s): return {**s, 'metadata': {'a': [1]}}


WRAPPERS = {
    'def': w_def, 'defdef': w_defdef, 'inner def': w_inner, 'unused': w_unused, 'ref': w_ref, 'meta': w_meta,
    'nullable': lambda s: cs.nullable_schema(s),
    'default': lambda s: cs.with_default_schema(s, default=SENT),
    'default_factory': lambda s: cs.with_default_schema(s, default_factory=lambda: SENT),
    'chain': lambda s: cs.chain_schema([s]),
    'lax_or_strict': lambda s: cs.lax_or_strict_schema(s, s),
    'json_or_python': lambda s: cs.json_or_python_schema(s, s),
    'union_of_one': lambda s: cs.union_schema([s]),
}
ONCE = {'inner def', 'unused', 'ref'}  # cannot be used twice in one schema: references are unique
TWICE = {'tuple', 'typed dict', 'argument', 'lax_or_strict', 'json_or_python'}


def triggers(ws, x):
    """would input x be taken by one of the wrappers themselves?"""
    if x is None and ('nullable' in ws or 'defdef' in ws): return True
    return x is UNDEF and ('default' in ws or 'default_factory' in ws)


def wrapped(base, ws, pos):
    """the schema of a position with the wrapped base in it (None: no such schema)"""
    DEFN.clear()
    s, used = base, None
    if s['type'] == 'definitions':
        DEFN.extend(s['definitions'])
        s = s['schema']
    for w in ws:
        if used and (w in TWICE or w in ONCE): return None
        if w in ONCE: used = True
        s = WRAPPERS[w](s)
        if s is None: return None
    if used and pos.name in TWICE: return None
    if DEFN and pos.name == 'strict fields': return None  # definitions outside of the model do not have its configuration
    s = pos.schema(s)
    return cs.definitions_schema(s, list(DEFN)) if DEFN else s


# --------------------------------------------------------------------------- positions
def F(s): return {'f': cs.model_field(s)}


HASH = object()


def hashable(x):
    try: hash(x)
    except Exception: return False
    return True


class P:
    def __init__(self, name, schema, py, js=None, ser=None):
        self.name, self.schema, self.py, self.js, self.ser = name, schema, py, js, ser


def cm(x): return mk(CM, f=x)


def keyjs(t): return '{' + t + ': 1}' if t.startswith('"') else None


POS = [
    P('root', lambda s: s, lambda x: x, lambda t: t, lambda x: x),
    P('list', lambda s: cs.list_schema(s), lambda x: [x], lambda t: f'[{t}]', lambda x: [x, x]),
    P('key', lambda s: cs.dict_schema(s, cs.int_schema()), lambda x: {x: 1}, keyjs, lambda x: {x: 1}),
    P('value', lambda s: cs.dict_schema(cs.str_schema(), s), lambda x: {'k': x, 'l': x}, lambda t: '{"k": %s, "l": %s}' % (t, t), lambda x: {'k': x}),
    P('tuple', lambda s: cs.tuple_schema([s, s]), lambda x: (x, x), lambda t: f'[{t}, {t}]', lambda x: (x, x)),
    P('set', lambda s: cs.set_schema(s), lambda x: [x], lambda t: f'[{t}]', None),
    P('model', lambda s: cs.model_schema(CM, cs.model_fields_schema(F(s))), lambda x: {'f': x}, lambda t: '{"f": %s}' % t, cm),
    P('attributes', lambda s: cs.model_schema(CM, cs.model_fields_schema(F(s), from_attributes=True)), lambda x: Attr(f=x), None, None),
    P('typed dict', lambda s: cs.typed_dict_schema({'f': cs.typed_dict_field(s), 'g': cs.typed_dict_field(cs.list_schema(s), required=False)}), lambda x: {'f': x, 'g': [x]}, lambda t: '{"f": %s}' % t, lambda x: {'f': x, 'g': [x]}),
    P('dataclass', lambda s: cs.dataclass_schema(CD, cs.dataclass_args_schema('CD', [cs.dataclass_field('f', s)]), ['f']), lambda x: {'f': x}, lambda t: '{"f": %s}' % t, lambda x: CD(x)),
    P('argument', lambda s: cs.arguments_schema([cs.arguments_parameter('f', s)], var_args_schema=s, var_kwargs_schema=s), lambda x: ArgsKwargs((x, x), {'k': x}), lambda t: '[%s, %s]' % (t, t), None),
    P('union', lambda s: cs.union_schema([(s, 'L'), (cs.is_instance_schema(Color), 'C')]), lambda x: x, lambda t: t, lambda x: x),
    P('union ltr', lambda s: cs.union_schema([(cs.is_instance_schema(D2), 'C'), (s, 'L'), (cs.list_schema(cs.list_schema(cs.none_schema())), 'LL')], mode='left_to_right'), lambda x: x, None, lambda x: x),
    P('union smart', lambda s: cs.union_schema([(cs.typed_dict_schema({'a': cs.typed_dict_field(cs.int_schema()), 'b': cs.typed_dict_field(cs.str_schema())}), 'T'), (s, 'L'), (cs.float_schema(), 'F'), (cs.str_schema(strict=True), 'S')]), lambda x: x, lambda t: t, None),
    P('union none', lambda s: cs.union_schema([(cs.none_schema(), 'N'), (s, 'L'), (cs.list_schema(cs.list_schema(cs.none_schema())), 'LL')]), lambda x: x, None, lambda x: x),
    P('tagged', lambda s: cs.tagged_union_schema({'t': s, 'u': cs.none_schema()}, lambda v: 't'), lambda x: x, None, lambda x: x),
    P('function', lambda s: cs.no_info_wrap_validator_function(lambda v, h: h(v), s), lambda x: x, None, None),
    P('on error', lambda s: cs.list_schema(cs.with_default_schema(s, default=SENT, on_error='omit')), lambda x: [x, x], lambda t: f'[{t}]', None),
    P('strict fields', lambda s: cs.model_schema(CM, cs.model_fields_schema(F(s)), config={'strict': True, 'ser_json_bytes': 'base64', 'str_to_upper': True}), lambda x: {'f': x}, lambda t: '{"f": %s}' % t, cm),
]


def drain(x, d=0):
    """replace live iterators of generator schemas by what they yield"""
    if type(x).__name__ == 'ValidatorIterator':
        out = []
        try:
            for i in x: out.append(i)
        except ValidationError as e: out.append(('E', errs(e, True, True)))
        except Exception as e: out.append(('X', repr(e)))
        return ['generated', out]
    if d > 4: return x
    if type(x) in (list, tuple): return type(x)(drain(i, d + 1) for i in x)
    if type(x) is dict: return {k: drain(v, d + 1) for k, v in x.items()}
    if isinstance(x, ArgsKwargs): return (drain(x.args, d + 1), drain(x.kwargs, d + 1))
    if isinstance(x, (CM, CD)): return [type(x).__name__, drain(x.__dict__, d + 1), getattr(x, '__pydantic_fields_set__', None)]
    return x


def call(gen, f, *a, **k):
    if gen: return outcome(lambda: drain(f(*a, **k)), with_input=True, with_msg=True)
    return outcome(f, *a, **k, with_input=True, with_msg=True)


ONESHOT = ('generator', 'list_iterator', 'map', 'zip')


def inputs():
    return [x for x in py_inputs() if type(x).__name__ not in ONESHOT]


def val_outcomes(v, z, pos, xs, ws=(), full=True):
    """{case: outcome} of one validator on everything"""
    gen = z.name == 'generator'
    out = {}
    for i, x in enumerate(xs):
        if triggers(ws, x): continue
        if pos.name in ('key', 'set') and not hashable(x): continue
        e = pos.py(x)
        out['lax', i] = call(gen, v.validate_python, e)
        if full or i % 3 == 0: out['strict', i] = call(gen, v.validate_python, e, strict=True)
        if pos.name in ('root', 'list', 'model', 'value') and (full or i % 5 == 0):
            out['attrs', i] = call(gen, v.validate_python, e, from_attributes=True)
        if pos.name in ('root', 'model', 'value', 'dataclass') and isinstance(x, (str, dict)) and type(x) in (str, dict):
            out['strings', i] = call(gen, v.validate_strings, e)
    if pos.js:
        for j, t in enumerate(JSON_TEXTS):
            if t == 'null' and triggers(ws, None): continue
            e = pos.js(t)
            if e is None: continue
            out['json', j] = call(gen, v.validate_json, e)
            if full: out['json strict', j] = call(gen, v.validate_json, e, strict=True)
    if pos.name in ('model', 'dataclass', 'strict fields', 'attributes') and full:
        for i, x in enumerate(xs):
            if triggers(ws, x) or i % 2: continue
            inst = mk(CM, f=0) if pos.name != 'dataclass' else CD(0)
            out['assign', i] = call(gen, v.validate_assignment, inst, 'f', x)
    return out


SKIP_SER = {'is_subclass'}
SER_FLAGS = [{}, {'exclude_none': True}, {'exclude_defaults': True}, {'exclude_unset': True, 'by_alias': True}, {'round_trip': True}, {'serialize_as_any': True}]


class M1Sub(M1): __slots__ = ()
class D1Sub(D1): pass


def ser_values(z):
    vals = list(z.good)
    vals += [None, 1, 'x', 1.5, b'b', [1], ['x'], (1, 'x'), {'a': 1}, {1: 2}, {1, 2}, Decimal('1.5'), date(2020, 1, 1), DT(2020, 1, 1), Color.red, Num.one, D1(1, 'x'), D1Sub(1, 'x'), mk(M1, a=1, b='x'), mk(M1Sub, a=1, b='x'), mk(MX, extra={'q': 1}, a=1), object, Url('http://x.com/'), UUID(int=1), Attr(a=1)]
    return vals


def ser_outcomes(s, z, pos, vals, ws=(), full=True):
    out = {}
    for i, x in enumerate(vals):
        if triggers(ws, x): continue
        if pos.name == 'key' and not hashable(x): continue
        if type(x) in (M1, M2, MX, MRoot, MRec, MAl) and pos.name == 'key': continue
        e = pos.ser(x)
        for k, kw in enumerate(SER_FLAGS if full and i < len(z.good) + 4 else SER_FLAGS[:1]):
            for m, f, a in (('python', s.to_python, {}), ('json mode', s.to_python, {'mode': 'json'}), ('json', s.to_json, {})):
                r, w = ser_outcome(f, e, **a, **kw)
                if r[0] == 'exc' and r[1] == 'PydanticSerializationError': r = r[:2]
                out[m, i, k] = (r, len(w))
        if full and i < len(z.good):
            for m, kw in (('include', {'include': {0: True, 'f': True, 'a': True, 'k': True}}), ('exclude', {'exclude': {0: {0}, 'f': {'a'}, 'a': True, 'k': {0}}})):
                r, w = ser_outcome(s.to_python, e, **kw)
                out[m, i, -1] = (r, len(w))
    return out


def compare(ctx, key, want, got, show, **info):
    n = 0
    for k, g in got.items():
        n += 1
        if g != want[k]:
            twice = 'model_before' in key and '!!' in str(g) and str(g).replace('!!', '!') == str(want[k])
            ctx.fail(f'{key}: {"before function applied twice, " if twice else ""}{k[0]}', case=show(k), got=str(g)[:400], want=str(want[k])[:400], **info)
    ctx.ev(key.split(' | ')[0], (key, str(sorted(info.items()))), n)


def build(ctx, cls, s, key, **info):
    try: return cls(s)
    except Exception as e:
        ctx.fail(f'{key}: not built', err=f'{type(e).__name__}: {e}'[:300], **info)


def variants(s, v):
    """other routes to the same object"""
    yield 'deepcopy', lambda: copy.deepcopy(v)
    yield 'copy', lambda: copy.copy(v)
    def pick():
        try: d = pickle.dumps(v)
        except (AttributeError, pickle.PicklingError, TypeError): return None
        return pickle.loads(d)
    yield 'pickle', pick
    yield 'rebuilt', lambda: type(v)(s)
    yield 'validated schema', lambda: type(v)(validate_core_schema(s))
    yield 'deepcopied schema', lambda: type(v)(copy.deepcopy(s))


CFGS = [{'ser_json_timedelta': 'float', 'ser_json_bytes': 'base64', 'ser_json_inf_nan': 'strings', 'title': 'Cfg'},
        {'strict': True, 'str_strip_whitespace': True, 'str_max_length': 3, 'allow_inf_nan': False}, {'coerce_numbers_to_str': True, 'from_attributes': True, 'extra_fields_behavior': 'forbid', 'hide_input_in_errors': True},
        {'val_json_bytes': 'hex', 'ser_json_bytes': 'hex', 'loc_by_alias': False, 'str_to_upper': True}]


def explore(ctx):
    xs = inputs()
    jobs = [(z, pos) for z in ZOO for pos in POS]
    def show(k):
        if k[0].startswith('json'): return (k[0], JSON_TEXTS[k[1]])
        return (k[0], rep(xs[k[1]]))
    two = [(a, b) for a in WRAPPERS for b in WRAPPERS]
    for z, pos in ctx.split(jobs):
        if wrapped(z.schema(), (), pos) is None: continue
        plain = build(ctx, SchemaValidator, wrapped(z.schema(), (), pos), f'{z} in {pos.name}')
        if plain is None: continue
        want = val_outcomes(plain, z, pos, xs)
        for ws in [(w,) for w in WRAPPERS] + (two if not ctx.quick or pos.name == 'list' else []):
            s = wrapped(z.schema(), ws, pos)
            if s is None: continue
            ctx.case('validate', z.name, pos.name, ws)
            key = f'validate | {"+".join(ws)}'
            v = build(ctx, SchemaValidator, s, key, schema=z.name, pos=pos.name)
            if v is None: continue
            if ctx.quick and len(ws) == 2:
                got = val_outcomes(v, z, pos, [x if i % 3 == 0 else UNDEF for i, x in enumerate(xs)], (*ws, 'default'), False)
            else: got = val_outcomes(v, z, pos, xs, ws)
            compare(ctx, key, want, got, show, schema=z.name, pos=pos.name)
        if pos.name in ('root', 'model', 'list'):
            s0 = wrapped(z.schema(), (), pos)
            for how, mkv in variants(s0, plain):
                try: v = mkv()
                except Exception as e:
                    ctx.fail(f'{how} of validator: not made', err=f'{type(e).__name__}: {e}'[:300], schema=z.name, pos=pos.name)
                    continue
                if v is None: continue
                ctx.check(type(v) is SchemaValidator and v.title == plain.title, f'{how}: title', schema=z.name)
                compare(ctx, f'validate | {how}', want, val_outcomes(v, z, pos, xs), show, schema=z.name, pos=pos.name)
        # ------------------------------------------------------------------ serializers
        if pos.ser is None or not z.ser or z.name in SKIP_SER: continue
        vals = ser_values(z)
        def show2(k): return (k[0], rep(vals[k[1]]), SER_FLAGS[k[2]] if k[2] >= 0 else None)
        plain = build(ctx, SchemaSerializer, wrapped(z.schema(), (), pos), f'serializer {z} in {pos.name}')
        if plain is None: continue
        want = ser_outcomes(plain, z, pos, vals)
        for ws in [(w,) for w in WRAPPERS] + (two if not ctx.quick or pos.name == 'list' else []):
            s = wrapped(z.schema(), ws, pos)
            if s is None: continue
            ctx.case('serialize', z.name, pos.name, ws)
            key = f'serialize | {"+".join(ws)}'
            v = build(ctx, SchemaSerializer, s, key, schema=z.name, pos=pos.name)
            if v is None: continue
            compare(ctx, key, want, ser_outcomes(v, z, pos, vals, ws, len(ws) == 1 or not ctx.quick), show2, schema=z.name, pos=pos.name)
        if pos.name in ('root', 'model', 'list'):
            for how, mkv in variants(wrapped(z.schema(), (), pos), plain):
                try: v = mkv()
                except Exception as e:
                    ctx.fail(f'{how} of serializer: not made', err=f'{type(e).__name__}: {e}'[:300], schema=z.name, pos=pos.name)
                    continue
                if v is None: continue
                compare(ctx, f'serialize | {how}', want, ser_outcomes(v, z, pos, vals), show2, schema=z.name, pos=pos.name)
    # the configuration handed to the constructor goes along with copies and pickles
    ROOT = next(p for p in POS if p.name == 'root')
    for z, cfg in ctx.split(list(itertools.product(ZOO, CFGS))):
        if wrapped(z.schema(), (), ROOT) is None: continue
        for cls, of, over in ((SchemaValidator, val_outcomes, xs), (SchemaSerializer, ser_outcomes, ser_values(z))):
            if cls is SchemaSerializer and (ROOT.ser is None or not z.ser or z.name in SKIP_SER): continue
            try: a = cls(z.schema(), cfg)
            except Exception: continue
            want = of(a, z, ROOT, over)
            for how, mk_ in variants(None, a):
                if how in ('rebuilt', 'deepcopied schema', 'validated schema', 'copy') or cls is SchemaValidator and how == 'deepcopy' and ctx.quick: continue
                b = mk_()
                if b is None: continue
                compare(ctx, f'{cls.__name__} with a config | {how}', want, of(b, z, ROOT, over), lambda k: (k[0], rep(over[k[1]]) if isinstance(k[1], int) and k[1] < len(over) and not k[0].startswith('json') else k), schema=z.name, config=str(cfg))
    for job in ctx.split(list(prebuilt_jobs()) + [recursive]):
        job(ctx)


# --------------------------------------------------------------------------- prebuilt classes
def attrs(cls, **kw):
    for k, v in kw.items():
        if v is None:
            if k in cls.__dict__: delattr(cls, k)
        else: setattr(cls, k, v)


PRE = {'model': M1, 'model2': M1, 'model_x': MX, 'model_alias': MAl, 'model_reval': M1, 'model_root': MRoot, 'model_strict': M1, 'model_attr': M1, 'model_rec': MRec, 'dataclass': D1, 'dataclass_slots': DS,
       'model_cfg': M1, 'model_after': M1, 'model_chain': M1, 'model_def_after': M1, 'model_def_wrap_ser': M1, 'model_default': M1, 'model_nullable': M1, 'model_wrap': M1, 'model_before': M1, 'model_plain_ser': M1, 'model_wrap_ser': M1, 'model_init': M1, 'model_frozen': M1, 'model_fn_before': M1}


def more(v):
    """a function which is not idempotent"""
    if isinstance(v, M1) and type(v.__dict__.get('b')) is str: return mk(M1, **{**v.__dict__, 'b': v.__dict__['b'] + '!'})
    if isinstance(v, dict) and type(v.get('b')) is str: return {**v, 'b': v['b'] + '!'}
    return v


def extra_schemas():
    return {
        'model_cfg': lambda: m1s(config={'strict': True, 'title': 'T', 'ser_json_timedelta': 'float', 'hide_input_in_errors': True}),
        'model_after': lambda: cs.no_info_after_validator_function(more, m1s()),
        'model_wrap': lambda: cs.no_info_wrap_validator_function(lambda v, h: more(h(v)), m1s()),
        'model_before': lambda: cs.no_info_before_validator_function(more, m1s()),
        'model_chain': lambda: cs.chain_schema([m1s(), cs.no_info_plain_validator_function(more)]),
        'model_def_after': lambda: cs.definitions_schema(cs.definition_reference_schema('MA'), [{**cs.no_info_after_validator_function(more, m1s()), 'ref': 'MA'}]),
        'model_def_wrap_ser': lambda: cs.definitions_schema(cs.definition_reference_schema('MA'), [m1s(ref='MA', serialization=cs.wrap_serializer_function_ser_schema(lambda o, h: ['wrap', h(o)]))]),
        'model_default': lambda: cs.with_default_schema(m1s(), default='dflt'),
        'model_nullable': lambda: cs.nullable_schema(m1s()),
        'model_plain_ser': lambda: m1s(serialization=cs.plain_serializer_function_ser_schema(lambda o: ['ser', o.a])),
        'model_wrap_ser': lambda: m1s(serialization=cs.wrap_serializer_function_ser_schema(lambda o, h: ['wrap', h(o)])),
        'model_init': lambda: m1s(post_init='mpi'),
        'model_frozen': lambda: m1s(frozen=True),
        'model_fn_before': lambda: cs.model_schema(M1, cs.no_info_before_validator_function(lambda v: v, cs.model_fields_schema({'a': cs.model_field(cs.int_schema()), 'b': cs.model_field(cs.str_schema())}))),
    }


def prebuilt_jobs():
    ex = extra_schemas()
    for name, cls in PRE.items():
        z = ZN.get(name) or Z(name, ex[name], [mk(M1, a=1, b='x'), mk(M1, fs=['a'], a=2, b='dft')])
        yield lambda ctx, z=z, cls=cls: prebuilt(ctx, z, cls)


def prebuilt(ctx, z, cls):
    """the schema of a class inside of another schema, built before and after the class is marked complete"""
    attrs(cls, mpi=lambda self, c: None)
    own = z.schema() if z.name != 'model2' else m1s()
    cv, csr = SchemaValidator(own), SchemaSerializer(own)
    attrs(cls, __pydantic_validator__=cv, __pydantic_serializer__=csr)
    try:
        xs = inputs()
        for pos in POS:
            for ws in [()] + [(w,) for w in WRAPPERS]:
                s = wrapped(z.schema(), ws, pos)
                if s is None: continue
                ctx.case('prebuilt', z.name, pos.name, ws)
                def show(k): return (k[0], JSON_TEXTS[k[1]]) if k[0].startswith('json') else (k[0], rep(xs[k[1]]))
                plain = build(ctx, SchemaValidator, s, f'prebuilt {z.name}')
                attrs(cls, __pydantic_complete__=True)
                pre = build(ctx, SchemaValidator, s, f'prebuilt {z.name}')
                attrs(cls, __pydantic_complete__=None)
                if plain is None or pre is None: continue
                uses = 'Prebuilt' in repr(pre)
                compare(ctx, f'prebuilt validator {uses} | {z.name}', val_outcomes(plain, z, pos, xs, ws, not ws), val_outcomes(pre, z, pos, xs, ws, not ws), show, pos=pos.name, ws=str(ws))
                if pos.name in ('root', 'list'):
                    for i, inst in enumerate(z.good):
                        for f, x in (('a', '3'), ('a', 'q'), ('x', [2]), ('zz', 1), ('root', [3]), ('v', 4)):
                            a, b = [call(False, q.validate_assignment, copy.deepcopy(inst), f, x) for q in (plain, pre)]
                            twice = z.name == 'model_before' and str(b).replace('!!', '!').replace('[more(), function-before[more(), M1]]', '[more(), M1]') == str(a)
                            ctx.check(a == b, f'prebuilt validator {uses} | {z.name}: {"before function applied twice, " if twice else ""}validate_assignment', want=str(a)[:300], got=str(b)[:300], pos=pos.name, ws=str(ws), field=f, value=rep(x))
                            ctx.ev('assignment ' + a[0], (z.name, pos.name, ws, i, f, rep(x)))
                if pos.ser is None: continue
                vals = ser_values(z)
                def show2(k): return (k[0], rep(vals[k[1]]), SER_FLAGS[k[2]] if k[2] >= 0 else None)
                plain = build(ctx, SchemaSerializer, s, f'prebuilt {z.name}')
                attrs(cls, __pydantic_complete__=True)
                pre = build(ctx, SchemaSerializer, s, f'prebuilt {z.name}')
                attrs(cls, __pydantic_complete__=None)
                uses = 'Prebuilt' in repr(pre)
                compare(ctx, f'prebuilt serializer {uses} | {z.name}', ser_outcomes(plain, z, pos, vals, ws, True), ser_outcomes(pre, z, pos, vals, ws, True), show2, pos=pos.name, ws=str(ws))
    finally:
        attrs(cls, __pydantic_validator__=None, __pydantic_serializer__=None, __pydantic_complete__=None, mpi=None)


# --------------------------------------------------------------------------- recursion unrolled
def rec_families():
    """(name, recursive schema, step: inner schema -> schema one level up, bottom values)"""
    R = cs.definition_reference_schema
    yield 'list', (lambda r: cs.list_schema(r)), lambda k: [k], lambda j: f'[{j}]', '[]', []
    yield 'nullable td', (lambda r: cs.nullable_schema(cs.typed_dict_schema({'v': cs.typed_dict_field(cs.int_schema()), 'n': cs.typed_dict_field(r)}))), lambda k: {'v': '1', 'n': k}, lambda j: '{"v": 1, "n": %s}' % j, 'null', None
    yield 'tuple', (lambda r: cs.nullable_schema(cs.tuple_schema([cs.str_schema(), r]))), lambda k: ('a', k), lambda j: f'["a", {j}]', 'null', None
    yield 'dict', (lambda r: cs.dict_schema(cs.int_schema(), r)), lambda k: {'1': k}, lambda j: '{"1": %s}' % j, '{}', {}
    yield 'model', (lambda r: cs.model_schema(MRec, cs.model_fields_schema({'v': cs.model_field(cs.int_schema()), 'kids': cs.model_field(cs.list_schema(r))}))), lambda k: {'v': 1, 'kids': [k, k]}, lambda j: '{"v": 1, "kids": [%s, %s]}' % (j, j), '{"v": 2, "kids": []}', {'v': 2, 'kids': []}
    yield 'union', (lambda r: cs.union_schema([(cs.int_schema(), 'I'), (cs.list_schema(r), 'L'), (cs.dict_schema(cs.str_schema(), r), 'D')])), lambda k: [1, {'k': k}], lambda j: '[1, {"k": %s}]' % j, '3', 3
    yield 'wrap', (lambda r: cs.no_info_wrap_validator_function(lambda v, h: h(v), cs.nullable_schema(cs.list_schema(r)))), lambda k: [k], lambda j: f'[{j}]', 'null', None


def recursive(ctx):
    """a recursive definition and its unrolling agree on inputs less deep than the unrolling"""
    for name, step, up, upj, bj, bottom in rec_families():
        rs = step(cs.definition_reference_schema('REC'))
        rec = cs.definitions_schema(cs.definition_reference_schema('REC'), [{**rs, 'ref': 'REC'}])
        rec2 = cs.definitions_schema(step(cs.definition_reference_schema('REC')), [{**step(cs.definition_reference_schema('REC')), 'ref': 'REC'}])
        mutual = cs.definitions_schema(cs.definition_reference_schema('A'), [{**step(cs.definition_reference_schema('B')), 'ref': 'A'}, {**step(cs.definition_reference_schema('A')), 'ref': 'B'}])
        depth = 6
        un = cs.none_schema()
        for _ in range(depth): un = step(un)
        ref = SchemaValidator(un)
        for how, s in (('recursive', rec), ('stepped', rec2), ('mutual', mutual), ('nullable-free', cs.chain_schema([rec]))):
            v = build(ctx, SchemaValidator, s, f'recursive {name}')
            if v is None: continue
            bots = [(bottom, bj), ('bad', '"bad"'), ([], '[]'), ({}, '{}'), (7, '7'), (None, 'null'), ({'v': 'x'}, '{"v": "x"}'), (['a', 1], '["a", 1]'), ([[1]], '[[1]]')]
            for x, j in bots:
                for d in range(0, 2 if name == 'union' else depth - 2):
                    for mode in ('lax', 'strict', 'json', 'json strict', 'attrs'):
                        if mode.startswith('json'): a, b = [call(False, q.validate_json, j, strict=mode != 'json') for q in (ref, v)]
                        else: a, b = [call(False, q.validate_python, x, strict=mode == 'strict', from_attributes=mode == 'attrs') for q in (ref, v)]
                        ctx.case('recursive', name, how, d, rep(x), mode)
                        ctx.check(a == b, f'recursive | {name}', how=how, input=rep(x), mode=mode, want=str(a)[:300], got=str(b)[:300])
                        ctx.ev('recursive ' + a[0], (name, how, d, rep(x), mode))
                        if mode == 'lax' and a[0] == 'ok':
                            val = ref.validate_python(x)
                            sa, sb = SchemaSerializer(un), SchemaSerializer(s)
                            for m, f in (('python', lambda q: ser_outcome(q.to_python, val)), ('json', lambda q: ser_outcome(q.to_json, val)), ('mode json', lambda q: ser_outcome(q.to_python, val, mode='json', exclude_none=True))):
                                ctx.check(f(sa) == f(sb), f'recursive serializer | {name}', how=how, input=rep(x), mode=m, want=str(f(sa))[:300], got=str(f(sb))[:300])
                    x, j = up(x), upj(j)
