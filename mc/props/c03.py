"""C03: JSON validation against Python validation of the parsed document; input kinds; string cache; strings mode."""
import itertools, json
from mc.lib import *
from mc.zoo import *
from pydantic_core import from_json
from mc.props.c02 import ENC, drain

LEVEL = 'exploration'
RULE = ('product of (schema catalogue x enclosing schemas) x JSON texts: lax JSON against lax Python of the parsed text; strict JSON against lax JSON restricted by a leaf-type table; '
        'x text kind (str, bytes, bytearray, memoryview) x cache_strings (all, keys, none, True, False) x history of previous documents; non-trivial when an execution accepts or an error is located below the root')
ASSUME = ['schemas whose rules differ by declaration between JSON and Python (is-instance, callable, json-or-python with different arms, function-before receiving Python objects in strict mode) are compared through their documented JSON rule only']

PY_ONLY = ('union_m','is_instance', 'is_subclass', 'callable', 'arguments', 'call', 'json', 'json_any')
JENC = ('plain', 'list', 'dict', 'nullable', 'tuple', 'td', 'default', 'after', 'wrap', 'defref', 'union1', 'gen', 'model')


FAMILY = ('bool_', 'date_', 'datetime_', 'time_delta_', 'time_', 'complex_')


def norm(o):
    """Error types of a family are one for ints of 19 digits and more (a JSON big int is not tried as a number of
    seconds, a Python int is) and for complex strings (JSON says complex_str_parsing, Python complex_type)"""
    o = nd(o)
    if o[0] != 'err':
        return o
    out = []
    for t, l, i in o[1]:
        if t.startswith('complex_') or i[0] == 'int' and abs(i[1]) >= 2 ** 63 - 1:
            t = next((f for f in FAMILY if t.startswith(f)), t)
            if t == 'datetime_':
                t = 'date_'
        if t in ('model_attributes_type', 'model_type'):
            t = 'dict_type'  # tagged unions accept objects in Python only
        out.append((t, l, i))
    return ('err', tuple(out))


def wrap_text(e, t):
    return {'list': f'[{t}]', 'dict': '{"k": %s}' % t, 'tuple': f'[{t}, {t}]', 'td': '{"f": %s}' % t, 'model': '{"f": %s}' % t}.get(e, t)


def nd(o):
    """Decimals from JSON floats may be written with another exponent: compare numerically"""
    if isinstance(o, tuple):
        if len(o) == 2 and o[0] == 'Decimal':
            import decimal
            d = decimal.Decimal(o[1])
            return ('Decimal', str(d.normalize()) if d.is_finite() and len(d.as_tuple().digits) < 28 else str(d))
        return tuple(nd(i) for i in o)
    return o


# strict mode in JSON: which JSON leaf kinds each scalar accepts
STRICT = {
    'none': 'z', 'bool': 'b', 'int': 'i', 'int_c': 'i', 'float': 'if', 'float_c': 'if', 'decimal': 'ifs', 'decimal_c': 'ifs', 'complex': 's', 'str': 's', 'str_c': 's', 'bytes': 's',
    'date': 's', 'time': 's', 'datetime': 's', 'timedelta': 's', 'uuid': 's', 'uuid4': 's', 'url': 's', 'murl': 's', 'any': 'zbifs', 'enum': 'zbifs', 'enum_int': 'i', 'enum_str': 's', 'enum_float': 'if', 'literal': 'zbifs',
}
LEAVES = [('z', 'null'), ('b', 'true'), ('b', 'false')] + [('i', t) for t in ('0', '1', '-1', '2', '98', '9223372036854775807', '9223372036854775808', '-9223372036854775809', '1' + '0' * 40, '1577836800', '86400')] + \
    [('f', t) for t in ('1.0', '1.5', '-0.0', '1e3', '5e-324', '1577836800.5', '0.5', '2.0', '1.0e20')] + [('s', t) for t in JSON_TEXTS if t.startswith('"') and t.endswith('"') and len(t) > 1 and '\\x' not in t and 'ud800"' not in t and t != '"\\"']
KEY_OK = ('bool', 'int', 'int_c', 'float', 'float_c', 'decimal', 'decimal_c', 'complex', 'str', 'str_c', 'bytes', 'date', 'time', 'datetime', 'timedelta', 'uuid', 'uuid4', 'enum_int', 'enum_str', 'enum_float', 'enum', 'literal')
CONT = {
    'list': (cs.list_schema, '[%s]', lambda v: ('list', v)), 'set': (cs.set_schema, '[%s]', lambda v: ('set', v)), 'frozenset': (cs.frozenset_schema, '[%s]', lambda v: ('frozenset', v)),
    'tuple': (lambda s: cs.tuple_schema([s], variadic_item_index=0), '[%s]', lambda v: ('tuple', v)), 'dictv': (lambda s: cs.dict_schema(cs.str_schema(), s), '{"k": %s}', lambda v: ('dict', (('str', 'k'), v))),
    'td': (lambda s: cs.typed_dict_schema({'k': cs.typed_dict_field(s)}), '{"k": %s}', lambda v: ('dict', (('str', 'k'), v))),
}


def explore(ctx):
    q = ctx.quick
    # 1. lax JSON against lax Python
    for z, e in ctx.split([(z, e) for z in ZOO if z.name not in PY_ONLY for e in JENC]):
        try:
            s = ENC[e][0](z.schema())
            v = SchemaValidator(s)
        except SchemaError:
            continue
        ctx.sample(z.name, e)
        for t0 in JSON_TEXTS:
            t = wrap_text(e, t0)
            rj = outcome(lambda: drain(v.validate_json(t)), with_input=True)
            try:
                data = from_json(t)
            except ValueError:
                ctx.ev('not json')
                ctx.check(rj[0] == 'err' and rj[1][0][0] == 'json_invalid' and len(rj[1]) == 1, f'invalid JSON {z} {e}', text=t, got=rj)
                continue
            rp = outcome(lambda: drain(v.validate_python(data)), with_input=True)
            ctx.ev(f'lax {rj[0]}', (z.name, e, t) if rj[0] == 'ok' or any(x[1] for x in rj[1]) else None)
            if z.name == 'timedelta' and t0 in ('true', 'false', '9223372036854775807'):
                continue  # Python bools are ints to the timedelta validator, JSON ones are not; no documented rule
            if t0.count('"a"') == 2 and z.name.startswith('dict'):
                ctx.check(norm(rj) == norm(rp), f'duplicate-key object under dict: {z} {e}', text=t, json=rj, python=rp)
                continue
            ctx.check(norm(rj) == norm(rp), f'json vs python (lax): {z} {e}', text=t, json=rj, python=rp)
            # text kinds and repeat
            for kind, tt in (('bytes', t.encode()), ('bytearray', bytearray(t.encode()))):
                r = outcome(lambda: drain(v.validate_json(tt)), with_input=True)
                if not ctx.check(nan_eq(r, rj), f'{kind} input differs: {z} {e}', text=t, str=rj, other=r):
                    break
            rs = outcome(lambda: drain(v.validate_json(t, strict=True)))
            if rs[0] == 'ok' and z.name not in ('union_ltr', 'union_m'):
                ctx.check(rs == outcome(lambda: drain(v.validate_json(t))), f'strict json value differs from lax json: {z} {e}', text=t, strict=rs, lax=rj)
    # 2. strict JSON by the leaf table
    for name, cont in ctx.split([(n, c) for n in STRICT for c in [None, *CONT]]):
        s = ZN[name].schema()
        v = SchemaValidator(s if cont is None else CONT[cont][0](s))
        fmt = '%s' if cont is None else CONT[cont][1]
        for kind, leaf in LEAVES:
            t = fmt % leaf
            rs, rl = outcome(v.validate_json, t, strict=True), outcome(v.validate_json, t, strict=False)
            ctx.ev(f'strict {rs[0]} lax {rl[0]}', (name, cont, t))
            if name == 'date' and 'T00' in leaf or name == 'datetime' and len(leaf) == 12 and leaf[5] == '-':
                ctx.check(rs[0] == 'err', f'strict json crosses date and datetime: {name} {cont}', text=t, strict=rs)
            elif kind in STRICT[name]:
                ctx.check(rs == rl or rs[0] == rl[0] == 'err', f'strict json differs from lax json on a natural leaf: {name} {cont}', text=t, strict=rs, lax=rl)
            else:
                ctx.check(rs[0] == 'err', f'strict json accepts a {kind} leaf: {name} {cont}', text=t, strict=rs)
    # 3. string keys stand for scalars: a key is validated as the lax JSON/strings leaf
    for name in ctx.split(list(KEY_OK)):
        vk = SchemaValidator(cs.dict_schema(ZN[name].schema(), cs.any_schema()))
        vl = SchemaValidator(ZN[name].schema())
        for kind, leaf in LEAVES:
            if kind != 's':
                continue
            for strict in (None, True, False):
                rk = outcome(vk.validate_json, '{%s: 1}' % leaf, strict=strict)
                rp = outcome(vk.validate_python, {json.loads(leaf): 1})
                ctx.ev(f'key {rk[0]}', (name, leaf, strict))
                if strict and name in ('date', 'datetime') and rk[0] == 'err':
                    continue
                if name not in ('enum', 'literal'):
                    ctx.check(rk == rp or name == 'complex' and rk[0] == rp[0] == 'err', f'json key vs python key: {name} strict={strict}', text=leaf, json=rk, python=rp)
                ref = outcome(vl.validate_json, leaf)
                exp = ('ok', ('dict', (ref[1], ('int', 1)))) if ref[0] == 'ok' else ('err', tuple((t, (json.loads(leaf), '[key]') + l) for t, l in ref[1]))
                if '\\u0000' not in leaf:
                    ctx.check(rk == exp, f'json key vs json leaf: {name} strict={strict}', text=leaf, got=rk, leaf=exp)
    # 4. strings mode agrees with JSON of the leaf written as a string
    for name in ctx.split([n for n in STRICT if n not in ('none', 'any')] + ['union', 'nullable', 'default', 'custom_error', 'lax_or_strict']):
        v = SchemaValidator(ZN[name].schema())
        vm = SchemaValidator(cs.typed_dict_schema({'a': cs.typed_dict_field(ZN[name].schema())}))
        vd = SchemaValidator(cs.dict_schema(cs.str_schema(), ZN[name].schema()))
        for kind, leaf in LEAVES:
            x = json.loads(leaf) if kind == 's' else leaf
            for strict in (None, True, False):
                rs = outcome(v.validate_strings, x, strict=strict)
                rj = outcome(v.validate_json, json.dumps(x))
                ctx.ev(f'strings {rs[0]}', (name, x, strict))
                if strict and name in ('date', 'datetime') and rs[0] == 'err':
                    continue
                if name in ('union', 'nullable', 'literal', 'enum'):
                    if name in ('enum', 'literal'):
                        pass
                    elif strict:
                        pass
                    else:
                        continue
                    continue
                ctx.check(rs == rj, f'strings vs json: {name} strict={strict}', x=x, strings=rs, json=rj)
                for vv, key in ((vm, 'a'), (vd, 'z')):
                    r2 = outcome(vv.validate_strings, {key: x}, strict=strict)
                    exp = ('ok', ('dict', (('str', key), rs[1]))) if rs[0] == 'ok' else ('err', tuple((t, (key,) + l) for t, l in rs[1]))
                    ctx.check(r2 == exp, f'strings nested: {name}', x=x, got=r2, exp=exp)
    # 5. cache_strings and history: the outcome of a document does not depend on either
    docs = ['"abc"', '{"abc": "abc", "ab": "a"}', '["a", "b", "a", ""]', '{"a": 1, "b": "x"}', '"' + 'k' * 63 + '"', '"' + 'k' * 64 + '"', '"' + 'k' * 65 + '"', '"\\u0061bc"', '"\\n"', '"é"', '"\\u00e9"', '{"é": "é", "\\u00e9": 1}', '[', '"abc', '{"a": 1, "a": "abc"}',
            '["\\ud83d\\ude00", "\U0001f600"]', '[1.5, 9223372036854775808, null, true, "1.5"]']
    modes = ['all', 'keys', 'none', True, False]
    schemas = {'any': lambda: cs.any_schema(), 'str': lambda: cs.str_schema(), 'strl': lambda: cs.str_schema(to_lower=True, strip_whitespace=True), 'list': lambda: cs.list_schema(cs.str_schema()), 'dict': lambda: cs.dict_schema(cs.str_schema(), cs.any_schema()), 'td': lambda: tds(), 'model': lambda: m1s(), 'bytes': lambda: cs.bytes_schema(), 'json': lambda: cs.json_schema()}
    for sname, mode in ctx.split([(a, b) for a in schemas for b in modes]):
        v = SchemaValidator(schemas[sname](), {'cache_strings': mode})
        base = [outcome(SchemaValidator(schemas[sname](), {'cache_strings': 'none'}).validate_json, d, with_input=True) for d in docs]
        for hist in itertools.product(range(len(docs)), repeat=2 if q else 3):
            for k, i in enumerate(hist):
                r = outcome(v.validate_json, docs[i], with_input=True)
                ctx.ev(f'cache {r[0]}', (sname, mode, hist[:k + 1]))
                ctx.check(nan_eq(r, base[i]), f'cache_strings={mode} or history changes the outcome: {sname}', hist=[docs[j] for j in hist[:k + 1]], got=r, base=base[i])
        for i, d in enumerate(docs):
            for m2 in modes:
                r = outcome(lambda: from_json(d, cache_strings=m2))
                r0 = outcome(lambda: from_json(d, cache_strings='none'))
                ctx.ev(f'from_json {r[0]}', (m2, d))
                ctx.check(r == r0, f'from_json cache_strings={m2}', text=d, got=r, base=r0)
    # 6. many strings through the cache: collisions must never return another string
    N = 20000 if q else 120000
    for mode, shape in ctx.split([(m, sh) for m in ('all', 'keys') for sh in ('%d', 'a%d', '%dz', 'é%d', '\\u00e9%d', 'k' * 50 + '%06d', '%d' + 'x' * 58)]):
        v = SchemaValidator(cs.any_schema(), {'cache_strings': mode})
        for lo in range(0, N, 500):
            ks = [shape % i for i in range(lo, lo + 500)]
            text = '{' + ', '.join(f'"{k}": "{k}"' for k in ks) + '}'
            real = [k.replace('\\u00e9', 'é') for k in ks]
            got = v.validate_json(text)
            got2 = from_json(text, cache_strings=mode)
            ctx.ev('collisions', (mode, shape, lo))
            ctx.check(list(got) == real and list(got.values()) == real and got2 == got, f'cache returned another string {mode} {shape}', lo=lo)


def nan_eq(a, b):
    return a == b
