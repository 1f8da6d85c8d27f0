"""Shared by the property modules: objects that cases stand for, comparison, calling the code under test, strategies."""

from __future__ import annotations

import collections
import collections.abc
import dataclasses
import datetime as dt
import decimal
import enum
import fractions
import json
import math
import re
import uuid
from typing import Any

import gen as st
import pydantic_core as pc
from core import Skip, Violation, X, ensure, short  # noqa: F401
from pydantic_core import PydanticUndefined, SchemaSerializer, SchemaValidator, ValidationError  # noqa: F401

Decimal = decimal.Decimal


# ------------------------------------------------------------------------------------------------ stand-in objects
class IntSub(int):
    pass


class FloatSub(float):
    pass


class StrSub(str):
    pass


class BytesSub(bytes):
    pass


class DecimalSub(Decimal):
    pass


class ListSub(list):
    pass


class TupleSub(tuple):
    pass


class SetSub(set):
    pass


class FrozenSetSub(frozenset):
    pass


class DictSub(dict):
    pass


class DateSub(dt.date):
    pass


class DateTimeSub(dt.datetime):
    pass


class TimeSub(dt.time):
    pass


class TimedeltaSub(dt.timedelta):
    pass


class UUIDSub(uuid.UUID):
    pass


class Opaque:
    """An object no validator has a reason to accept."""

    def __repr__(self):
        return 'Opaque()'

    def __eq__(self, other):
        return type(other) is Opaque

    def __hash__(self):
        return 17


class HasFloat:
    def __init__(self, f):
        self.f = f

    def __float__(self):
        return float(self.f)

    def __eq__(self, other):
        return type(other) is HasFloat and same(other.f, self.f)

    def __hash__(self):
        return 18

    def __repr__(self):
        return f'HasFloat({self.f!r})'


class HasIndex:
    def __init__(self, i):
        self.i = i

    def __index__(self):
        return self.i

    def __eq__(self, other):
        return type(other) is HasIndex and other.i == self.i

    def __hash__(self):
        return 19

    def __repr__(self):
        return f'HasIndex({self.i!r})'


class MyMapping(collections.abc.Mapping):
    def __init__(self, d):
        self.d = d

    def __getitem__(self, k):
        return self.d[k]

    def __iter__(self):
        return iter(self.d)

    def __len__(self):
        return len(self.d)

    def __repr__(self):
        return f'MyMapping({self.d!r})'


class MySequence(collections.abc.Sequence):
    def __init__(self, items):
        self.items = items

    def __getitem__(self, i):
        return self.items[i]

    def __len__(self):
        return len(self.items)

    def __eq__(self, other):
        return type(other) is MySequence and same(other.items, self.items)

    def __hash__(self):
        return 20

    def __repr__(self):
        return f'MySequence({self.items!r})'


class Attrs:
    """Plain attributes, for from_attributes."""

    def __init__(self, **kw):
        self.__dict__.update(kw)

    def __eq__(self, other):
        return type(other) is Attrs and other.__dict__ == self.__dict__

    def __hash__(self):
        return 21

    def __repr__(self):
        return f'Attrs({self.__dict__!r})'


class BadAttrs(Attrs):
    """Some attributes raise when they are asked for."""

    def __getattribute__(self, name):
        if name in ('b', 'x'):
            raise RuntimeError(f'no {name} today')
        return object.__getattribute__(self, name)


class PlainE(enum.Enum):
    A = 1
    B = 'b'
    C = 2.5
    D = 'a'


class IntE(enum.IntEnum):
    ONE = 1
    TWO = 2
    BIG = 2**70


class StrE(str, enum.Enum):
    A = 'a'
    B = 'b'
    NUM = '12'


class FloatE(float, enum.Enum):
    H = 0.5
    T = 2.0


class MixE(enum.Enum):
    one = '1'
    two = 2
    tup = (1, 2)
    none = None
    tru = True


class MissE(enum.Enum):
    """Finds some members by itself."""

    X = 'x'
    Y = 7

    @classmethod
    def _missing_(cls, value):
        if value == 'odd':
            return 17
        if value in ('zero', 'empty', 'no', 'other'):
            return {'zero': 0, 'empty': '', 'no': False, 'other': PlainE.A}[value]
        if value == 'bad':
            raise RuntimeError('bad value')
        if isinstance(value, (list, dict)):
            return cls.Y
        return cls.X if isinstance(value, str) and value.lower() == 'x' else None


class FlagE(enum.IntFlag):
    R = 1
    W = 2
    BIG = 2**65


class BytesE(bytes, enum.Enum):
    A = b'a'
    E = b''


class NestE(enum.Enum):
    L = [1, 'a']
    D = frozenset({1})
    I = IntE.ONE  # noqa: E741
    T = 'true'
    SAME = 'true'


class ModelBase:
    """The attributes pydantic's BaseModel has for its validator; properties for computed fields."""

    __slots__ = '__dict__', '__pydantic_fields_set__', '__pydantic_extra__', '__pydantic_private__'

    @property
    def p_len(self):
        return len(self.__dict__)

    @property
    def p_none(self):
        return None

    @property
    def p_obj(self):
        return {'a': 1, 'b': None, 'c': [1, 2]}

    def post_note(self, ctx):
        self.__dict__['noted'] = (sorted(self.__dict__), ctx)

    def post_fail(self, ctx):
        if len(self.__dict__) % 2:
            raise ValueError('an odd number of fields')

    def __eq__(self, other):
        return type(other) is type(self) and same(model_state(self), model_state(other))

    __hash__ = None

    def __repr__(self):
        return f'{type(self).__name__}{model_state(self)}'


def model_state(m):
    return tuple(getattr(m, k, '<unset>') for k in ('__dict__', '__pydantic_fields_set__', '__pydantic_extra__', '__pydantic_private__'))


class M0(ModelBase):
    __slots__ = ()


class M1(M0):
    __slots__ = ()


class M2(ModelBase):
    __slots__ = ()


class M3(ModelBase):
    __slots__ = ()


class MI(ModelBase):
    """Has an __init__ of its own."""

    __slots__ = ()
    validator: Any = None
    calls = 0

    def __init__(self, /, **kw):
        MI.calls += 1
        MI.validator.validate_python(kw, self_instance=self)


class DcBase:
    def __repr__(self):
        return f'{type(self).__name__}{_dc_state(self)}'

    @property
    def p_len(self):
        return 2

    @property
    def p_none(self):
        return None

    @property
    def p_obj(self):
        return {'a': 1, 'b': None, 'c': [1, 2]}


def _dc_eq(self, other):
    return type(other) is type(self) and same(_dc_state(self), _dc_state(other))


def _dc_state(self):
    d = dict(getattr(self, '__dict__', ()))
    for k in ('a', 'b', 'c'):
        if k not in d:
            try:
                d[k] = getattr(self, k)
            except AttributeError:
                pass
    return {k: d[k] for k in sorted(d)}


@dataclasses.dataclass(eq=False, repr=False)
class D0(DcBase):
    a: Any
    b: Any = None
    __eq__ = _dc_eq
    __hash__ = None


@dataclasses.dataclass(eq=False, repr=False)
class D1(D0):
    c: Any = None
    __eq__ = _dc_eq
    __hash__ = None


@dataclasses.dataclass(eq=False, repr=False, slots=True)
class D2(DcBase):
    a: Any
    b: Any = None
    c: Any = None
    __eq__ = _dc_eq
    __hash__ = None


@dataclasses.dataclass(eq=False, repr=False)
class D3(DcBase):
    a: Any
    b: Any = None
    c: Any = None
    __eq__ = _dc_eq
    __hash__ = None

    def __post_init__(self, *args):
        self.__dict__['posted'] = (args, sorted(self.__dict__))
        if args == (1,):
            raise ValueError('one')


CLASSES = {c.__name__: c for c in (M0, M1, M2, M3, MI, D0, D1, D2, D3)}
DC_FIELDS = {'D0': ['a', 'b'], 'D1': ['a', 'b', 'c'], 'D2': ['a', 'b', 'c'], 'D3': ['a', 'b', 'c']}


def _inst(cls, fields, fields_set=None, extra=None):
    m = CLASSES[cls].__new__(CLASSES[cls])
    m.__dict__.update(_kwargs(fields))
    m.__pydantic_fields_set__ = set(fields if fields_set is None else fields_set)
    m.__pydantic_extra__ = None if extra is None else _kwargs(extra)
    m.__pydantic_private__ = None
    return m


def _dci(cls, fields):
    m = CLASSES[cls].__new__(CLASSES[cls])
    for k, v in fields.items():
        setattr(m, k, mk(v))
    return m


# functions for function serializers: the name says what they take
def _filter(f):
    if f is None or f is ... or f is True:
        return '...' if f else None
    d = f if isinstance(f, dict) else {k: ... for k in f}
    return {k: v for k, v in sorted((repr(k), _filter(v)) for k, v in d.items())}


def _info(info):
    return {
        'mode': info.mode, 'include': _filter(info.include), 'exclude': _filter(info.exclude), 'by_alias': info.by_alias,
        'exclude_unset': info.exclude_unset, 'exclude_defaults': info.exclude_defaults, 'exclude_none': info.exclude_none,
        'round_trip': info.round_trip, 'context': info.context, 'as_any': info.serialize_as_any,
    }


def _fail(*_):
    raise ValueError('no')


def _unexpected(*_):
    raise pc.PydanticSerializationUnexpectedValue('odd')


def _sererr(*_):
    raise pc.PydanticSerializationError('told so')


def _items(v, h):
    """Each item by the handler, which knows which are left out."""
    out = []
    pairs = enumerate(v) if isinstance(v, (list, tuple)) else v.items() if isinstance(v, dict) else [(0, v), ('a', v)]
    for i, x in pairs:
        try:
            out.append([i, h(x, i)])
        except pc.PydanticOmit:
            out.append('left out')
    return out


CALLS: list = []


def _logged(name, f):
    def call(*args):
        CALLS.append(name)
        return f(*args)

    return call


SER_FUNCTIONS = {
    'p_list': lambda v: [v, {'a': 1}],
    'p_type': lambda v: type(v).__name__,
    'p_none': lambda v: None,
    'p_same': lambda v: v,
    'p_fail': _fail,
    'p_unexpected': _unexpected,
    'p_sererr': _sererr,
    'pi_info': lambda v, info: [v, _info(info)],
    'pf_model': lambda self, v: [type(self).__name__, v],
    'pfi_info': lambda self, v, info: [type(self).__name__, v, info.field_name, _info(info)],
    'w_same': lambda v, h: h(v),
    'w_tag': lambda v, h: {'w': h(v), 'a': 2},
    'w_skip': lambda v, h: 'skipped',
    'w_fail': _fail,
    'w_items': _items,
    'w_sererr': _sererr,
    'w_twice': lambda v, h: [h(v), h(v)],
    'wi_info': lambda v, h, info: [h(v), _info(info)],
    'wf_model': lambda self, v, h: [type(self).__name__, h(v)],
    'wfi_info': lambda self, v, h, info: [h(v), info.field_name, _info(info)],
}
SER_FUNCTIONS = {k: _logged(k, f) for k, f in SER_FUNCTIONS.items()}

def kind_of(v):
    return v.get('kind') if isinstance(v, dict) else getattr(v, 'kind', None)


def type_name(v):
    return type(v).__name__


DISCRIMINATOR_FUNCTIONS = {'kind_of': kind_of, 'type_name': type_name}



# functions for function validators; LOG tells what each was called with
class Boom(Exception):
    """Not a validation error."""


class HandlerError(ValueError):
    """What a handler of the model raises in the place of a ValidationError."""

    def __init__(self, errors):
        self.errors_ = errors

    def error_count(self):
        return len(self.errors_)


LOG: list = []
HANDLER_ERRORS = (ValidationError, HandlerError)


def snap(v, d=()):
    """A text for the present state of `v`."""
    if len(d) > 60 or id(v) in d:
        return '...'
    d = (*d, id(v))
    if type(v).__name__ in ('ValidatorIterator', 'SerializationIterator'):
        return type(v).__name__
    if isinstance(v, ModelBase):
        return type(v).__name__ + snap(model_state(v), d)
    if isinstance(v, DcBase):
        return type(v).__name__ + snap(_dc_state(v), d)
    if isinstance(v, (set, frozenset)):
        return f'{type(v).__name__}[{",".join(sorted(snap(x, d) for x in v))}]'
    if isinstance(v, pc.ArgsKwargs):
        return f'ArgsKwargs{snap(v.args, d)}{snap(v.kwargs, d)}'
    if isinstance(v, (list, tuple)):
        return f'{type(v).__name__}[{",".join(snap(x, d) for x in v)}]'
    if isinstance(v, dict):
        return f'{type(v).__name__}[{",".join(snap(k, d) + ":" + snap(x, d) for k, x in v.items())}]'
    return re.sub(r' at 0x[0-9a-f]+', '', canon(v))


def _v_log(name, f):
    def call(v, *rest):
        info = rest[-1] if rest and hasattr(rest[-1], 'field_name') else None
        LOG.append((name, snap(v), info and (info.mode, snap(info.context), None if info.data is None else snap({k: info.data[k] for k in sorted(info.data, key=repr)}), info.field_name, snap(info.config or None))))
        return f(v, *rest)

    call.__name__ = name
    return call


def _raise(e):
    raise e


def _called(name, f):
    def call(*args, **kwargs):
        LOG.append((name, snap(args), snap(kwargs)))
        return f(args, kwargs)

    call.__name__ = name
    return call


class BoomValue(Boom, ValueError):
    """A ValueError that is none of validation."""


CALLED = {k: _called(k, f) for k, f in {
    'c_both': lambda a, k: (a, k), 'c_first': lambda a, k: (*a, *k.values(), None)[0], 'c_list': lambda a, k: list(a),
    'c_count': lambda a, k: len(a) + len(k), 'c_text': lambda a, k: str(len(a)), 'c_boom': lambda a, k: _raise(Boom('called')),
    'c_value': lambda a, k: _raise(BoomValue('called')),
}.items()}


def fussy(v):
    return isinstance(v, str) or v is True or (isinstance(v, list) and len(v) > 1)


def _maybe(make):
    return lambda v, *_: _raise(make(v)) if fussy(v) else v


def _other(v):
    return SchemaValidator({'type': 'list', 'items_schema': {'type': 'int'}}).validate_python(['x', 1, {}])


def _caught(f):
    def call(v, h, *info):
        try:
            return h(v)
        except HANDLER_ERRORS as e:
            return f(e, v)

    return call


def _edit_data(v, info):
    if info.data is not None:
        info.data['edited'] = v
    return v


V_FUNCTIONS = {
    'same': lambda v, *_: v,
    'listed': lambda v, *_: [v],
    'first': lambda v, *_: v[0] if isinstance(v, list) and v else v,
    'texted': lambda v, *_: str(v) if isinstance(v, (int, float)) else v,
    'inc': lambda v, *_: v + 1 if type(v) is int else v,
    'null': lambda v, *_: None,
    'value_error': _maybe(lambda v: ValueError('no such thing')),
    'assertion': _maybe(lambda v: AssertionError('not so')),
    'custom': _maybe(lambda v: pc.PydanticCustomError('my_type', 'say {x}', {'x': type(v).__name__})),
    'custom_bare': _maybe(lambda v: pc.PydanticCustomError('my_bare', 'say')),
    'known': _maybe(lambda v: pc.PydanticKnownError('greater_than', {'gt': 3})),
    'known_bare': _maybe(lambda v: pc.PydanticKnownError('int_type')),
    'omit': _maybe(lambda v: pc.PydanticOmit()),
    'use_default': _maybe(lambda v: pc.PydanticUseDefault()),
    'boom': lambda v, *_: _raise(Boom()) if isinstance(v, list) and len(v) > 1 else v,
    'other': lambda v, *_: _other(v) if fussy(v) else v,
    'always': lambda v, *_: _raise(ValueError('never')),
    'w_same': lambda v, h, *_: h(v),
    'w_twice': lambda v, h, *_: [h(v), h(v)],
    'w_skip': lambda v, h, *_: v,
    'w_caught': _caught(lambda e, v: 'caught'),
    'w_count': _caught(lambda e, v: _raise(pc.PydanticCustomError('many', '{n} of them', {'n': e.error_count()}))),
    'w_default': _caught(lambda e, v: _raise(pc.PydanticUseDefault())),
    'w_omit': _caught(lambda e, v: _raise(pc.PydanticOmit())),
    'w_again': lambda v, h, *_: _caught(lambda e, v: h([v]))(v, h),
    'w_loc': lambda v, h, *_: h(v, 'outer'),
    'w_loc_int': lambda v, h, *_: h(v, 3),
    'w_change': lambda v, h, *_: h([v]),
    'w_str': lambda v, h, *_: h(str(v) if isinstance(v, (int, float)) else v),
    'w_after': lambda v, h, *_: _maybe(lambda x: ValueError('afterwards'))(h(v)),
    'w_wrapped': lambda v, h, *_: {'w': h(v)},
}
V_FUNCTIONS = {k: _v_log(k, f) for k, f in V_FUNCTIONS.items()}


def _f_log(name, f):
    def call(*args):
        LOG.append((name, *map(snap, args)))
        return f(*args)

    return call


FACTORIES = {
    'f_list': lambda: [],
    'f_text': lambda: 'made',
    'f_one': lambda: 1,
    'f_boom': lambda: _raise(Boom()),
    'f_keys': lambda data: sorted(data, key=repr),
    'f_count': lambda data: len(data),
}
FACTORIES = {k: _f_log(k, f) for k, f in FACTORIES.items()}

ENUMS = {'PlainE': PlainE, 'IntE': IntE, 'StrE': StrE, 'FloatE': FloatE, 'MixE': MixE, 'MissE': MissE, 'FlagE': FlagE, 'BytesE': BytesE, 'NestE': NestE}


def _gen(items):
    yield from items


def _raising_iter(items):
    yield from items
    raise RuntimeError('iterator broke')


def _tz(spec):
    if spec is None:
        return None
    if spec == 'utc':
        return dt.timezone.utc
    return dt.timezone(dt.timedelta(seconds=spec))


def _kwargs(d):
    return {k: mk(v) for k, v in d.items()}


BUILDERS: dict[str, Any] = {
    'int': lambda v: IntSub(v),
    'float': lambda v: FloatSub(v),
    'str': lambda v: StrSub(v),
    'bytes': lambda v: BytesSub(v),
    'dec': lambda v: DecimalSub(v),
    'ba': lambda v: bytearray(v),
    'mv': lambda v: memoryview(v),
    'list': lambda v: ListSub(mk(v)),
    'tuple': lambda v: TupleSub(mk(v)),
    'set': lambda v: SetSub(mk(v)),
    'fset': lambda v: FrozenSetSub(mk(v)),
    'dict': lambda v: DictSub(mk(v)),
    'odict': lambda v: collections.OrderedDict(mk(v)),
    'mapping': lambda v: MyMapping(mk(v)),
    'seq': lambda v: MySequence(mk(v)),
    'deque': lambda v: collections.deque(mk(v)),
    'gen': lambda v: _gen(mk(v)),
    'badgen': lambda v: _raising_iter(mk(v)),
    'iter': lambda v: iter(mk(v)),
    'keys': lambda v: mk(v).keys(),
    'values': lambda v: mk(v).values(),
    'items': lambda v: mk(v).items(),
    'range': lambda *a: range(*a),
    'date': lambda y, m, d: DateSub(y, m, d),
    'datetime': lambda *a: DateTimeSub(*a),
    'dt': lambda y, mo, d, h, mi, s, us, tz=None: dt.datetime(y, mo, d, h, mi, s, us, tzinfo=_tz(tz)),
    't': lambda h, mi, s, us, tz=None: dt.time(h, mi, s, us, tzinfo=_tz(tz)),
    'td': lambda d, s, us: dt.timedelta(d, s, us),
    'tdsub': lambda d, s, us: TimedeltaSub(d, s, us),
    'd': lambda y, m, d: dt.date(y, m, d),
    'opaque': lambda: Opaque(),
    'hasfloat': lambda v: HasFloat(v),
    'hasindex': lambda v: HasIndex(v),
    'attrs': lambda d: Attrs(**_kwargs(d)),
    'battrs': lambda d: BadAttrs(**_kwargs(d)),
    'frac': lambda a, b: fractions.Fraction(a, b),
    'enum': lambda cls, name: ENUMS[cls][name],
    'cplx': lambda a, b: complex(a, b),
    'cls': lambda name: {'int': int, 'str': str, 'Opaque': Opaque, 'PlainE': PlainE}[name],
    'fn': lambda: len,
    'ellipsis': lambda: Ellipsis,
    'uuid': lambda i: uuid.UUID(int=i),
    'uuidsub': lambda i: UUIDSub(int=i),
    'url': lambda s: pc.Url(s),
    'murl': lambda s: pc.MultiHostUrl(s),
    'inst': _inst,
    'dci': _dci,
    'class': lambda name: CLASSES[name],
    'sf': lambda name: SER_FUNCTIONS[name],
    'vf': lambda name: V_FUNCTIONS[name],
    'cf': lambda name: CALLED[name],
    'ff': lambda name: FACTORIES[name],
    'df': lambda name: DISCRIMINATOR_FUNCTIONS[name],
    'enumcls': lambda name: ENUMS[name],
    'ak': lambda a, k=None: pc.ArgsKwargs(tuple(mk(a)), mk(k) if k is not None else None),
}


def mk(x: Any) -> Any:
    """The object a case stands for."""
    if isinstance(x, X):
        return BUILDERS[x.kind](*x.args)
    t = type(x)
    if t is list:
        return [mk(v) for v in x]
    if t is tuple:
        return tuple(mk(v) for v in x)
    if t is dict:
        return {mk(k): mk(v) for k, v in x.items()}
    if t is set:
        return {mk(v) for v in x}
    if t is frozenset:
        return frozenset(mk(v) for v in x)
    return x


# ------------------------------------------------------------------------------------------------------ comparison
def same(a: Any, b: Any, ordered_sets: bool = False) -> bool:
    """Equality of value *and* type, all the way down (NaN equals NaN, 0.0 is not -0.0, 1 is not True)."""
    if a is b:
        return True
    ta = type(a)
    if ta is not type(b):
        return False
    if ta is float or isinstance(a, float):
        if a != a:
            return b != b
        return a == b and math.copysign(1.0, a) == math.copysign(1.0, b)
    if ta is complex:
        return same(a.real, b.real) and same(a.imag, b.imag)
    if isinstance(a, Decimal):
        return a.as_tuple() == b.as_tuple()
    if isinstance(a, dt.datetime):
        return a.replace(tzinfo=None) == b.replace(tzinfo=None) and a.utcoffset() == b.utcoffset() and a.fold == b.fold
    if isinstance(a, dt.time):
        return a.replace(tzinfo=None) == b.replace(tzinfo=None) and a.utcoffset() == b.utcoffset()
    if isinstance(a, (list, tuple, collections.deque)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        if len(a) != len(b):
            return False
        return all(same(x, y) for x, y in zip(a.items(), b.items()))
    if isinstance(a, (set, frozenset)):
        if len(a) != len(b):
            return False
        return sorted(map(canon, a)) == sorted(map(canon, b))
    if ta in UNCOMPARABLE:
        return True
    if ta is pc.ArgsKwargs:
        return same((a.args, a.kwargs), (b.args, b.kwargs))
    return bool(a == b)


# two of a kind that a case builds twice: nothing more to compare
UNCOMPARABLE = (type(_gen(())), type(iter([])), type({}.keys()), type({}.values()), type({}.items()), type(iter(())), MyMapping,
                MySequence, Attrs, BadAttrs, HasFloat, HasIndex, memoryview)


def canon(a: Any) -> str:
    """A text that two objects share exactly when `same` holds (for hashable scalars and tuples)."""
    t = type(a)
    if t in UNCOMPARABLE:
        return t.__name__
    if isinstance(a, (tuple, list)):
        return f'{t.__name__}[{",".join(canon(x) for x in a)}]'
    if isinstance(a, (set, frozenset)):
        return f'{t.__name__}[{",".join(sorted(canon(x) for x in a))}]'
    if isinstance(a, dict):
        return f'{t.__name__}[{",".join(canon(k) + ":" + canon(v) for k, v in a.items())}]'
    if isinstance(a, float) and a != a:
        return f'{t.__name__}:nan'
    if isinstance(a, (dt.datetime, dt.time)):
        return f'{t.__name__}:{a.replace(tzinfo=None).isoformat()}:{a.utcoffset()}'
    return f'{t.__name__}:{a!r}'


def ensure_same(got: Any, want: Any, what: str, *details: Any) -> None:
    if not same(got, want):
        raise Violation(f'{what}: got {short(got)} ({type(got).__name__}), expected {short(want)} ({type(want).__name__})'
                        + ''.join(' | ' + short(d) for d in details))


# ------------------------------------------------------------------------------------------ calling the code
def err_list(e: ValidationError) -> list[tuple[str, tuple]]:
    return [(x['type'], x['loc']) for x in e.errors(include_url=False, include_context=False, include_input=False)]


def attempt(fn, *args, **kw) -> tuple[str, Any]:
    """('ok', value) or ('err', [(type, loc), ...]); every other exception escapes and is a violation."""
    try:
        return 'ok', fn(*args, **kw)
    except ValidationError as e:
        return 'err', err_list(e)


def validate(v: SchemaValidator, mode: str, value: Any, **kw) -> tuple[str, Any]:
    if mode == 'python':
        return attempt(v.validate_python, value, **kw)
    if mode == 'json':
        return attempt(v.validate_json, value, **kw)
    return attempt(v.validate_strings, value, **kw)


def core_validator(schema: dict, config: dict | None = None) -> SchemaValidator:
    return SchemaValidator(schema, pc.core_schema.CoreConfig(**config) if config else None)


# ------------------------------------------------------------------------------------------------------ strategies
BOUNDARY_INTS = sorted(
    {
        s * (b + d)
        for b in (0, 1, 2, 7, 10, 31, 32, 59, 60, 100, 127, 128, 255, 256, 1000, 86399, 86400, 2**31, 2**32, 2**53, 2**62,
                  2**63, 2**64, 10**18, 10**19, 20_000_000_000, 10**12, 10**30)
        for d in (-1, 0, 1)
        for s in (1, -1)
    }
)


def ints(big: bool = True) -> st.SearchStrategy[int]:
    parts = [st.sampled_from(BOUNDARY_INTS), st.integers(-20, 20), st.integers(-(2**65), 2**65)]
    if big:
        parts.append(st.integers(-(2**200), 2**200))
    return st.one_of(parts)


BOUNDARY_FLOATS = [
    0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 1.5, 2.0, 0.1, 0.30000000000000004, 1e-9, 1e-7, 123456.789, 1e15, 1e16, 1e17, 1e21, 1e22,
    1e23, 9007199254740992.0, 9007199254740993.0, 9.223372036854775e18, 9.223372036854776e18, 9.223372036854778e18,
    -9.223372036854776e18, 1.8446744073709552e19, 1e100, 1.7976931348623157e308, 5e-324, 2.2250738585072014e-308, 1e-5, 1e-4,
    123.0, 3.14, 99999999999.5,
]


def floats(nonfinite: bool = True) -> st.SearchStrategy[float]:
    parts = [
        st.sampled_from(BOUNDARY_FLOATS + [-f for f in BOUNDARY_FLOATS]),
        st.floats(),
        st.integers(-(10**6), 10**6).map(float),
        st.integers(-(10**6), 10**6).map(lambda i: i / 100),
    ]
    if nonfinite:
        parts.append(st.sampled_from([math.inf, -math.inf, math.nan]))
    return st.one_of(parts)


def decimals(nonfinite: bool = True) -> st.SearchStrategy[Decimal]:
    finite = st.builds(
        lambda sign, digits, exp: Decimal((sign, tuple(map(int, str(digits))), exp)),
        st.integers(0, 1),
        st.one_of(st.integers(0, 9999), st.integers(0, 10**35)),
        st.one_of(st.integers(-6, 4), st.integers(-40, 30)),
    )
    if not nonfinite:
        return finite
    return st.one_of(finite, finite, finite, st.sampled_from([Decimal('NaN'), Decimal('Infinity'), Decimal('-Infinity')]))


ODD_CHARS = ['\0', '\t', '\n', ' ', '"', '\\', '/', '\x1f', '\x7f', '\x85', '\xa0', 'é', 'ß', 'İ', 'ǅ', 'Σ', 'ς', '٣', '\u2028',
             '\u3000', '\ufeff', '中', '\uffff', '😀', '𝟘', '_', '-', '+', '.', 'e', '0', '1', 'a', 'Z']


def texts(max_size: int = 8) -> st.SearchStrategy[str]:
    return st.one_of(
        st.text(st.sampled_from('abcXYZ012 _-.'), max_size=max_size),
        st.text(st.sampled_from(ODD_CHARS), max_size=max_size),
        st.text(st.characters(), max_size=max_size),
    )


def uuids() -> st.SearchStrategy:
    return st.one_of(st.integers(0, 2**128 - 1), st.builds(uuid_int, st.integers(0, 2**128 - 1), st.integers(0, 9), st.integers(0, 3)))


def uuid_int(i: int, version: int, variant: int) -> int:
    i &= ~(0xF << 76)
    i |= version << 76
    if variant < 3:  # 10xx: RFC 4122
        i &= ~(0xC << 60)
        i |= 0x8 << 60
    return i


OFFSETS = [0, 60, 3600, -3600, 19800, -16200, 86340, -86340, 45, 86399, -86399, 3601]


def dates() -> st.SearchStrategy[X]:
    d = st.one_of(st.dates(), st.dates(dt.date(1960, 1, 1), dt.date(2040, 1, 1)),
                  st.sampled_from([dt.date.min, dt.date.max, dt.date(1970, 1, 1), dt.date(2000, 2, 29), dt.date(1969, 12, 31)]))
    return d.map(lambda v: X('d', v.year, v.month, v.day))


def times(tz: bool = True) -> st.SearchStrategy[X]:
    us = st.one_of(st.sampled_from([0, 1, 10, 100, 1000, 123000, 123456, 999999, 500000]), st.integers(0, 999999))
    tzs = st.one_of(st.none(), st.none(), st.just('utc'), st.sampled_from(OFFSETS), st.integers(-1439, 1439).map(lambda m: m * 60)) if tz else st.none()
    return st.builds(lambda h, m, s, u, z: X('t', h, m, s, u, z), st.integers(0, 23), st.integers(0, 59), st.integers(0, 59), us, tzs)


def datetimes(tz: bool = True) -> st.SearchStrategy[X]:
    return st.builds(lambda d, t: X('dt', *d.args, *t.args), dates(), times(tz))


def timedeltas() -> st.SearchStrategy[X]:
    return st.builds(
        lambda d, s, u: X('td', d, s, u),
        st.one_of(st.integers(-3, 3), st.sampled_from([-999999999, 999999999, 0, 1, -1, 365, -366, 1000]), st.integers(-(10**6), 10**6)),
        st.one_of(st.sampled_from([0, 1, 59, 60, 3599, 3600, 86399]), st.integers(0, 86399)),
        st.one_of(st.sampled_from([0, 1, 999999, 500000, 1000, 123456]), st.integers(0, 999999)),
    )


def scalars() -> st.SearchStrategy:
    """Any Python object that is not a container, builtin or not."""
    return st.one_of(
        st.none(),
        st.booleans(),
        ints(),
        floats(),
        texts(),
        st.binary(max_size=6),
        decimals(),
        dates(),
        times(),
        datetimes(),
        timedeltas(),
        uuids().map(lambda i: X('uuid', i)),
        ints().map(lambda i: X('int', i)),
        floats().map(lambda f: X('float', f)),
        texts().map(lambda s: X('str', s)),
        st.binary(max_size=4).map(lambda s: X('bytes', s)),
        st.binary(max_size=4).map(lambda s: X('ba', s)),
        st.sampled_from([X('opaque'), X('hasfloat', 1.0), X('hasfloat', 2.5), X('hasindex', 3), X('frac', 3, 2), X('frac', 4, 1),
                         X('dec', '1.0'), X('dec', '1.5'), X('mv', b'12'), X('ellipsis'), X('fn'), X('cls', 'int'),
                         X('cplx', 1.0, 0.0), X('cplx', 1.5, -2.0), X('url', 'http://a.b/c'), X('date', 2000, 1, 1),
                         X('datetime', 2000, 1, 1), X('tdsub', 1, 0, 0)]),
        st.sampled_from([X('enum', c, m.name) for c, e in ENUMS.items() for m in e]),
    )


def json_scalars() -> st.SearchStrategy:
    return st.one_of(st.none(), st.booleans(), ints(), floats(False), texts())


def json_values(max_leaves: int = 8, scalars_=None) -> st.SearchStrategy:
    return st.recursive(
        scalars_ or json_scalars(),
        lambda c: st.one_of(st.lists(c, max_size=4), st.dictionaries(texts(4), c, max_size=4)),
        max_leaves=max_leaves,
    )


def dumps(v: Any) -> str:
    return json.dumps(v, ensure_ascii=False)


def rust_float_display(f: float) -> str:
    """What Rust's `Display` writes for an f64: the shortest digits, never an exponent, no `.0`."""
    if f != f:
        return 'NaN'
    if f in (math.inf, -math.inf):
        return 'inf' if f > 0 else '-inf'
    s = format(Decimal(repr(f)), 'f')
    if '.' in s:
        s = s.rstrip('0').rstrip('.')
    return s


def rust_float_alike(text: str, f: float) -> bool:
    """`text` is a shortest decimal writing of `f` (there can be two equally near ones; CPython and Rust then differ)."""
    want = rust_float_display(f)
    return text == want or (len(text) == len(want) and float(text) == f)


def opt(d: dict) -> dict:
    """Drops keys whose value is None."""
    return {k: v for k, v in d.items() if v is not None}
