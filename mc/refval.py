"""A reference interpreter of core schemas for union choice: value, errors, exactness and number of
fields set.  Leaves are run alone (the oracle for a leaf's own value and errors is the leaf itself,
which other properties decide); everything about *choosing* is computed here."""
import collections, datetime, decimal, enum, json
from mc.lib import *

EXACT, STRICT, LAX = 2, 1, 0
Ok = collections.namedtuple('Ok', 'value ex cnt')
Err = collections.namedtuple('Err', 'lines')
OmitR = collections.namedtuple('OmitR', '')


class N:
    wrap_label = None
    built = None

    def alone(self, inp, mode, strict):
        if self.built is None:
            self.built = SchemaValidator(self.schema())
        if mode == 'json':
            return raw(self.built.validate_json, json.dumps(inp), strict=strict)
        return raw(self.built.validate_python, inp, strict=strict)

    def label(self):
        if self.built is None:
            self.built = SchemaValidator(self.schema())
        return self.built.title


class Leaf(N):
    def __init__(self, name, schema, exfn):
        self.name, self.sch, self.exfn = name, schema, exfn

    def schema(self):
        return dict(self.sch)

    def ref(self, inp, mode, strict=None):
        k, v = self.alone(inp, mode, strict)
        if k == 'ok':
            return Ok(v, self.exfn(inp, mode, self), None)
        if k == 'err':
            return Err(list(errs(v)))
        raise v


def ex_type(t, json_exact=()):
    """exact: the type itself; strict: anything else the leaf accepts in strict mode; lax: the rest"""
    def f(inp, mode, leaf):
        if mode == 'json':
            if type(inp) in json_exact:
                return EXACT
        elif type(inp) is t:
            return EXACT
        return STRICT if leaf.alone(inp, mode, True)[0] == 'ok' else LAX
    return f


def const(e):
    return lambda inp, mode, leaf: e


class Color(enum.Enum):
    red = 'red'
    one = 1


class SStr(str):
    pass


class SInt(int):
    pass


class Fl(float):
    pass


LEAVES = {
    'int': Leaf('int', cs.int_schema(), ex_type(int, (int,))),
    'float': Leaf('float', cs.float_schema(), ex_type(float, (float,))),
    'str': Leaf('str', cs.str_schema(), ex_type(str)),
    'bool': Leaf('bool', cs.bool_schema(), ex_type(bool, (bool,))),
    'bytes': Leaf('bytes', cs.bytes_schema(), ex_type(bytes)),
    'none': Leaf('none', cs.none_schema(), const(EXACT)),
    'any': Leaf('any', cs.any_schema(), const(STRICT)),
    'lit': Leaf('lit', cs.literal_schema(['1', 1, 'red']), const(EXACT)),
    'date': Leaf('date', cs.date_schema(), ex_type(datetime.date)),
    'datetime': Leaf('datetime', cs.datetime_schema(), ex_type(datetime.datetime)),
    'time': Leaf('time', cs.time_schema(), ex_type(datetime.time)),
    'timedelta': Leaf('timedelta', cs.timedelta_schema(), ex_type(datetime.timedelta)),
    'decimal': Leaf('decimal', cs.decimal_schema(), ex_type(decimal.Decimal)),
    'uuid': Leaf('uuid', cs.uuid_schema(), ex_type(uuid.UUID)),
    'url': Leaf('url', cs.url_schema(), lambda i, m, l: EXACT if isinstance(i, Url) and m == 'python' else LAX),
    'enum': Leaf('enum', cs.enum_schema(Color, list(Color.__members__.values())), lambda i, m, l: EXACT if isinstance(i, Color) else LAX),
    'isinst': Leaf('isinst', cs.is_instance_schema(str), const(EXACT)),
    'int_c': Leaf('int_c', cs.int_schema(ge=1), ex_type(int, (int,))),
    'int_s': Leaf('int_s', cs.int_schema(strict=True), ex_type(int, (int,))),
    'str_c': Leaf('str_c', cs.str_schema(min_length=2), ex_type(str)),
    'str_num': Leaf('str_num', cs.str_schema(coerce_numbers_to_str=True), ex_type(str)),
    'callable': Leaf('callable', cs.callable_schema(), const(LAX)),
}


def floor(cur, e):
    return min(cur, e)


def addc(a, b):
    return b if a is None else a if b is None else a + b


class ListOf(N):
    def __init__(self, item, kind='list'):
        self.item, self.kind = item, kind

    def schema(self):
        return {'type': self.kind, 'items_schema': self.item.schema()} if self.kind != 'tuple' else \
            cs.tuple_schema([self.item.schema()], variadic_item_index=0)

    def ref(self, inp, mode, strict=None):
        t = {'list': list, 'tuple': tuple, 'set': set}[self.kind]
        if mode == 'json':
            if type(inp) is not list:
                return Err([(self.kind + '_type', ())])
            ex = EXACT if self.kind == 'list' else STRICT
        elif type(inp) is t:
            ex = EXACT
        elif not strict and type(inp) in (list, tuple, set):
            ex = LAX
        else:
            return Err([(self.kind + '_type', ())])
        out, er, cnt = [], [], None
        for i, x in enumerate(inp):
            r = self.item.ref(x, mode, strict)
            if isinstance(r, Err):
                er += [(t_, (i,) + l) for t_, l in r.lines]
            elif isinstance(r, OmitR):
                continue
            else:
                out.append(r.value)
                if not (self.kind != 'tuple' and self.item is LEAVES['any']):   # no item validation at all
                    ex = floor(ex, r.ex)
                cnt = addc(cnt, r.cnt)
        if er:
            return Err(er)
        return Ok(t(out), ex, cnt)


class DictOf(N):
    def __init__(self, item):
        self.item = item

    def schema(self):
        return cs.dict_schema(cs.any_schema() if False else None, self.item.schema()) if False else cs.dict_schema(values_schema=self.item.schema())

    def ref(self, inp, mode, strict=None):
        if type(inp) is not dict:
            return Err([('dict_type', ())])
        ex, cnt, out, er = (STRICT, None, {}, [])
        # keys go through an any validator, which is never an exact match
        if not inp:
            ex = EXACT
        for k, x in inp.items():
            r = self.item.ref(x, mode, strict)
            if isinstance(r, Err):
                er += [(t_, (k,) + l) for t_, l in r.lines]
            elif isinstance(r, OmitR):
                continue
            else:
                out[k] = r.value
                ex = floor(ex, r.ex)
                cnt = addc(cnt, r.cnt)
        return Err(er) if er else Ok(out, ex, cnt)


class FieldsN(N):
    """typed-dict / model / dataclass.  fields: name -> (N, required, default)"""

    def __init__(self, kind, name, fields, extra='ignore', td_total=True):
        self.kind, self.name, self.fields, self.extra = kind, name, fields, extra
        if kind == 'model':
            self.cls = type(name, (Model,), {})
        elif kind == 'dataclass':
            import dataclasses
            self.cls = dataclasses.make_dataclass(name, [(k, object) for k in fields], eq=True)
        else:
            self.cls = None

    def schema(self):
        def f(n, req):
            s = n.schema()
            return s if req else cs.with_default_schema(s, default='DEF')
        if self.kind == 'typed-dict':
            return cs.typed_dict_schema({k: cs.typed_dict_field(f(n, True), required=req) for k, (n, req) in self.fields.items()},
                                        extra_behavior=self.extra, cls_name=self.name)
        if self.kind == 'model':
            return cs.model_schema(self.cls, cs.model_fields_schema({k: cs.model_field(f(n, req)) for k, (n, req) in self.fields.items()},
                                                                    extra_behavior=self.extra, model_name=self.name))
        return cs.dataclass_schema(self.cls, cs.dataclass_args_schema(self.name, [cs.dataclass_field(k, f(n, req)) for k, (n, req) in self.fields.items()],
                                                                      extra_behavior=self.extra), list(self.fields))

    def ref(self, inp, mode, strict=None):
        if self.cls is not None and isinstance(inp, self.cls):
            return Ok(inp, EXACT, None)
        if self.cls is not None and strict and mode == 'python':
            if self.kind == 'dataclass':
                return Err([('dataclass_exact_type', ())])
            if type(inp) is not dict:
                return Err([('model_type', ())])
        if type(inp) is not dict:
            return Err([({'typed-dict': 'dict_type', 'model': 'model_type', 'dataclass': 'dataclass_type'}[self.kind], ())])
        ex = EXACT if self.kind == 'typed-dict' else STRICT
        out, er, cnt, own, extra = {}, [], None, 0, {}
        for k, (n, req) in self.fields.items():
            if k in inp:
                r = n.ref(inp[k], mode, strict)
                if isinstance(r, Err):
                    er += [(t, (k,) + l) for t, l in r.lines]
                elif isinstance(r, OmitR):
                    pass
                else:
                    out[k] = r.value
                    own += 1
                    ex = floor(ex, r.ex)
                    cnt = addc(cnt, r.cnt)
            elif req:
                er.append(('missing', (k,)))
            elif self.kind != 'typed-dict':
                out[k] = 'DEF'
        for k, v in inp.items():
            if k not in self.fields:
                if self.extra == 'forbid':
                    er.append(('unexpected_keyword_argument' if self.kind == 'dataclass' else 'extra_forbidden', (k,)))
                elif self.extra == 'allow':
                    extra[k] = v
        if er:
            return Err(er)
        cnt = addc(cnt, own)
        if self.kind == 'typed-dict':
            return Ok({**out, **extra}, ex, cnt)
        obj = self.cls.__new__(self.cls)
        if self.kind == 'model':
            object.__setattr__(obj, '__dict__', out)
            object.__setattr__(obj, '__pydantic_fields_set__', {k for k in self.fields if k in inp and k in out} | set(extra))
            object.__setattr__(obj, '__pydantic_extra__', extra if self.extra == 'allow' else None)
            object.__setattr__(obj, '__pydantic_private__', None)
        else:
            obj.__dict__.update(out)
            obj.__dict__.update(extra)
        return Ok(obj, ex, cnt)


class Wrapped(N):
    """transparent wrappers: same value, errors, exactness and count"""
    KINDS = ['nullable', 'after', 'before', 'wrap', 'def', 'default', 'chain', 'jop', 'nested1', 'ltr_fail', 'los']

    def __init__(self, inner, kind):
        self.inner, self.kind = inner, kind

    def schema(self):
        s = self.inner.schema()
        k = self.kind
        if k == 'nullable':
            return cs.nullable_schema(s)
        if k == 'after':
            return cs.no_info_after_validator_function(lambda v: v, s)
        if k == 'before':
            return cs.no_info_before_validator_function(lambda v: v, s)
        if k == 'wrap':
            return cs.no_info_wrap_validator_function(lambda v, h: h(v), s)
        if k == 'def':
            s['ref'] = f'r{id(self)}'
            return cs.definitions_schema(cs.definition_reference_schema(s['ref']), [s])
        if k == 'default':
            return cs.with_default_schema(s, default='unused')
        if k == 'chain':
            return cs.chain_schema([s])
        if k == 'jop':
            return cs.json_or_python_schema(s, s)
        if k == 'nested1':
            return cs.union_schema([s], auto_collapse=False)
        if k == 'los':
            return cs.lax_or_strict_schema(s, self.strict_arm().schema())
        if k == 'ltr_fail':
            return cs.union_schema([cs.is_instance_schema(Nope), s], mode='left_to_right')
        raise AssertionError(k)

    def strict_arm(self):
        if not hasattr(self, '_sa'):
            self._sa = FieldsN('typed-dict', 'SA', {'a': (LEAVES['int'], True), 'b': (LEAVES['bool'], True)})
        return self._sa

    def ref(self, inp, mode, strict=None):
        if self.kind == 'los':
            r = self.strict_arm().ref(inp, mode, strict)
            if strict or isinstance(r, Ok):
                return r
            r = self.inner.ref(inp, mode, strict)
            return Ok(r.value, LAX, r.cnt) if isinstance(r, Ok) else r
        if self.kind == 'nullable' and inp is None:
            return Ok(None, EXACT, None)
        r = self.inner.ref(inp, mode, strict)
        if isinstance(r, Err) and self.kind == 'nested1':
            return Err([(t, (self.inner.label(),) + l) for t, l in r.lines])
        if isinstance(r, Err) and self.kind == 'ltr_fail':
            return Err([('is_instance_of' if mode == 'python' else 'needs_python_object', ('is-instance[Nope]',))] + [(t, (self.inner.label(),) + l) for t, l in r.lines])
        return r


class Nope:
    pass


class Union(N):
    def __init__(self, branches, mode='smart', labels=None, custom=False):
        self.branches, self.mode, self.labels, self.custom = branches, mode, labels or [None] * len(branches), custom

    def schema(self):
        ch = [b.schema() if l is None else (b.schema(), l) for b, l in zip(self.branches, self.labels)]
        kw = {}
        if self.custom:
            kw = dict(custom_error_type='my_err', custom_error_message='m')
        return cs.union_schema(ch, mode=self.mode, auto_collapse=False, **kw)

    def ref(self, inp, mode, strict=None):
        er, best = [], None
        for b, l in zip(self.branches, self.labels):
            r = b.ref(inp, mode, strict)
            if isinstance(r, OmitR):
                return r
            if isinstance(r, Err):
                lab = l if l is not None else b.label()
                er += [(t, (lab,) + loc) for t, loc in r.lines]
                continue
            if self.mode == 'left_to_right':
                return r
            if best is None:
                best = r
            elif best.cnt is not None and r.cnt is not None and best.cnt != r.cnt:
                if r.cnt > best.cnt:
                    best = r
            elif r.ex > best.ex:
                best = r
            if r.ex == EXACT and r.cnt is None:
                best = r
                break
        if best is not None:
            return best
        return Err([('my_err', ())] if self.custom else er)


class OmitN(N):
    def schema(self):
        from pydantic_core import PydanticOmit

        def f(x):
            if x == 'OMIT':
                raise PydanticOmit
            raise ValueError('no')
        return cs.no_info_plain_validator_function(f)

    def ref(self, inp, mode, strict=None):
        return OmitR() if inp == 'OMIT' else Err([('value_error', ())])
