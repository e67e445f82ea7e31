"""Shared pieces: canonical forms of results, guarded calls, small combinators."""
from __future__ import annotations
import collections, dataclasses, datetime, decimal, enum, itertools, math, uuid, warnings, re, types
from pydantic_core import (SchemaValidator, SchemaSerializer, ValidationError, SchemaError, Url, MultiHostUrl,
                           PydanticUndefined, PydanticSerializationError, ArgsKwargs, core_schema as cs)

UNDEF = PydanticUndefined
CUR = None  # current Ctx, for panic reporting


def set_ctx(ctx):
    global CUR
    CUR = ctx


def canon(x, depth=0):
    """A hashable, type-exact, order-preserving canonical form."""
    t = type(x)
    if x is None or t is bool or t is int or t is str or t is bytes:
        return (t.__name__, x)
    if t is float:
        return ('float', repr(x))
    if depth > 60:
        return ('deep',)
    d = depth + 1
    if t is list or t is tuple:
        return (t.__name__,) + tuple([canon(i, d) for i in x])
    if t is dict:
        return ('dict',) + tuple([(canon(k, d), canon(v, d)) for k, v in x.items()])
    if t is set or t is frozenset:
        return (t.__name__,) + tuple(sorted([canon(i, d) for i in x], key=repr))
    if isinstance(x, enum.Enum):
        return ('enum', t.__name__, x.name)
    if isinstance(x, (Url, MultiHostUrl)):
        return (t.__name__, str(x))
    if t is decimal.Decimal:
        return ('Decimal', str(x))
    if isinstance(x, (datetime.datetime, datetime.time)):
        off = x.utcoffset()
        return (t.__name__, x.replace(tzinfo=None).isoformat(), x.fold, None if off is None else off.total_seconds(), x.tzinfo is None)
    if isinstance(x, (datetime.date, datetime.timedelta, uuid.UUID)):
        return (t.__name__, repr(x))
    if t is complex:
        return ('complex', repr(x))
    if isinstance(x, ArgsKwargs):
        return ('ArgsKwargs', canon(x.args, d), canon(x.kwargs, d))
    if x is UNDEF:
        return ('Undefined',)
    if isinstance(x, type):
        return ('type', x.__name__)
    if isinstance(x, BaseException):
        return ('exc', t.__name__, str(x))
    if isinstance(x, (int, str, bytes, float, list, tuple, dict, set, frozenset)):
        base = next(b for b in (int, str, bytes, float, list, tuple, dict, set, frozenset) if isinstance(x, b))
        return ('sub', t.__name__, canon(base(x), d))
    if isinstance(x, (types.FunctionType, types.BuiltinFunctionType, types.MethodType)):
        return ('fn', getattr(x, '__name__', '?'))
    if isinstance(x, collections.deque):
        return ('deque',) + tuple(canon(i, d) for i in x)
    dct = getattr(x, '__dict__', None)
    slots = tuple((s, canon(getattr(x, s), d)) for c in t.__mro__ for s in _slots(c)
                  if s not in ('__dict__', '__weakref__', '__pydantic_fields_set__', '__pydantic_extra__', '__pydantic_private__') and hasattr(x, s))
    out = ('obj', t.__name__)
    if dct is not None:
        out += (tuple((k, canon(v, d)) for k, v in dct.items()),)
    if slots:
        out += (('slots',) + slots,)
    fs = getattr(x, '__pydantic_fields_set__', None)
    if fs is not None:
        out += (('set', tuple(sorted(fs, key=str))),)
    ex = getattr(x, '__pydantic_extra__', None)
    if ex is not None:
        out += (('extra', canon(ex, d)),)
    return out


def _slots(c):
    s = c.__dict__.get('__slots__', ())
    return (s,) if isinstance(s, str) else tuple(s)


class Model:
    """A model class as pydantic would make it."""
    __slots__ = '__dict__', '__pydantic_fields_set__', '__pydantic_extra__', '__pydantic_private__'

    def __repr__(self):
        return f'{type(self).__name__}({self.__dict__!r}, set={getattr(self, "__pydantic_fields_set__", None)!r}, extra={getattr(self, "__pydantic_extra__", None)!r})'


def errs(e, with_input=False, with_msg=False):
    out = []
    for x in e.errors(include_url=False):
        r = (x['type'], x['loc'])
        if with_msg:
            r += (x['msg'],)
        if with_input:
            r += (canon(x['input']),)
        out.append(r)
    return tuple(out)


def is_panic(e):
    return type(e).__name__ == 'PanicException' or isinstance(e, SystemError)


def guard(e, what):
    if is_panic(e) and CUR is not None:
        CUR.fail(f'panic {type(e).__name__}: {str(e)[:200]}', what=what, exc=f'{type(e).__name__}: {e}')


def outcome(fn, *a, with_input=False, with_msg=False, **kw):
    """('ok', canon) | ('err', ((type, loc), ...)) | ('exc', typename, text)"""
    try:
        r = fn(*a, **kw)
    except ValidationError as e:
        return ('err', errs(e, with_input, with_msg))
    except Exception as e:
        if is_panic(e):
            guard(e, (a, kw))
        return ('exc', type(e).__name__, str(e))
    except BaseException as e:
        guard(e, (a, kw))
        if not is_panic(e):
            if isinstance(e, (KeyboardInterrupt, SystemExit)):
                raise
        return ('exc', type(e).__name__, str(e))
    return ('ok', canon(r))


def raw(fn, *a, **kw):
    """('ok', value) | ('err', ValidationError) | ('exc', exception)"""
    try:
        return ('ok', fn(*a, **kw))
    except ValidationError as e:
        return ('err', e)
    except BaseException as e:
        if isinstance(e, (KeyboardInterrupt, SystemExit)):
            raise
        guard(e, (a, kw))
        return ('exc', e)


def ser_outcome(fn, *a, **kw):
    """Serialization with the warnings it issued: (outcome, warnings)"""
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        r = outcome(fn, *a, **kw)
    return r, tuple(str(x.message) for x in w)


def products(**axes):
    names = list(axes)
    for combo in itertools.product(*axes.values()):
        yield dict(zip(names, combo))


def seqs(alphabet, maxlen, minlen=0):
    for n in range(minlen, maxlen + 1):
        yield from itertools.product(alphabet, repeat=n)


def rep(x, n=200):
    try:
        s = repr(x)
    except Exception as e:
        s = f'<{type(x).__name__}>'
    return s[:n]
