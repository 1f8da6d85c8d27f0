"""Objects that misbehave: one of their special methods raises, or returns what it must not return."""

from __future__ import annotations

import collections.abc
from typing import Any

import lib
from lib import mk


class Evil(Exception):
    """What a method of a misbehaving object raises."""


lib.Evil = Evil


def fail(*_: Any, **__: Any) -> Any:
    raise Evil('evil')


def gives(x: Any) -> Any:
    return lambda *_, **__: x


def _items_then_fail(self: Any) -> Any:
    yield from ()
    raise Evil('evil')


RAISES = {f'{m}': (f'__{m}__', fail) for m in ('eq', 'hash', 'len', 'iter', 'getitem', 'contains', 'bool', 'repr', 'str', 'getattribute', 'int', 'float', 'index', 'next', 'format', 'lt', 'neg', 'add', 'reversed', 'deepcopy', 'copy', 'reduce_ex', 'setattr', 'instancecheck', 'call', 'length_hint')}
RAISES.update({'keys': ('keys', fail), 'items': ('items', fail), 'values': ('values', fail), 'get': ('get', fail), 'iter-late': ('__iter__', _items_then_fail),
               'class': ('__class__', property(fail)), 'dict': ('__dict__', property(fail)), 'fields_set': ('__pydantic_fields_set__', property(fail)),
               'dataclass': ('__dataclass_fields__', property(fail)), 'serializer': ('__pydantic_serializer__', property(fail)), 'extra': ('__pydantic_extra__', property(fail)),
               'value': ('value', property(fail)), 'attr-a': ('a', property(fail)), 'utcoffset': ('utcoffset', fail), 'total_seconds': ('total_seconds', fail)})
WRONG = {'len-neg': ('__len__', gives(-1)), 'len-big': ('__len__', gives(2**40)), 'iter-int': ('__iter__', gives(3)), 'hash-str': ('__hash__', gives('x')), 'bool-str': ('__bool__', gives('x')), 'items-int': ('items', gives(5)),
         'items-list': ('items', gives([1, 2])), 'items-triples': ('items', gives([(1, 2, 3)])), 'items-empty': ('items', gives([()])), 'keys-none': ('keys', gives(None)), 'repr-int': ('__repr__', gives(1)), 'str-none': ('__str__', gives(None)),
         'float-str': ('__float__', gives('x')), 'int-str': ('__int__', gives('x')), 'index-str': ('__index__', gives('x')), 'eq-none': ('__eq__', gives(None)), 'class-int': ('__class__', property(gives(int))), 'class-wrong': ('__class__', 5),
         'dict-list': ('__dict__', property(gives([1]))), 'fields_set-int': ('__pydantic_fields_set__', 5), 'dataclass-int': ('__dataclass_fields__', 5), 'serializer-int': ('__pydantic_serializer__', 5), 'extra-list': ('__pydantic_extra__', [1]),
         'attr-self': ('__getattr__', lambda self, n: self), 'deepcopy-none': ('__deepcopy__', gives(None)), 'length_hint-neg': ('__length_hint__', gives(-5)), 'repr-surrogate': ('__repr__', gives('\ud800')), 'str-surrogate': ('__str__', gives('\udfff'))}
lib.EVILS = {**RAISES, **WRONG}


class Mapping(collections.abc.Mapping):
    def __init__(self, d: Any = ()):
        object.__setattr__(self, 'd', dict(d))

    def __getitem__(self, k: Any) -> Any:
        return object.__getattribute__(self, 'd')[k]

    def __iter__(self) -> Any:
        return iter(object.__getattribute__(self, 'd'))

    def __len__(self) -> int:
        return len(object.__getattribute__(self, 'd'))


class Iter:
    def __init__(self, items: Any = ()):
        object.__setattr__(self, 'it', iter(items))

    def __iter__(self) -> Any:
        return self

    def __next__(self) -> Any:
        return next(object.__getattribute__(self, 'it'))


BASES = {'dict': dict, 'list': list, 'object': object, 'str': str, 'int': int, 'tuple': tuple, 'mapping': Mapping, 'set': set, 'iter': Iter, 'model': lib.M0, 'dc': lib.D0}
_CLASSES: dict = {}


def make(method: str, base: str, value: Any = None) -> Any:
    value = mk(value)
    key = method, base
    if key not in _CLASSES:
        name, what = lib.EVILS[method]
        ns = {name: what}
        if name == '__eq__':
            ns['__hash__'] = BASES[base].__hash__
        _CLASSES[key] = type(f'Evil_{method}_{base}', (BASES[base],), ns)
    cls = _CLASSES[key]
    if base in ('dict', 'mapping'):
        return cls(value if isinstance(value, dict) else {'a': value})
    if base in ('list', 'tuple', 'iter'):
        return cls(value if isinstance(value, (list, tuple)) else [value])
    if base == 'set':
        return cls(x for x in (value if isinstance(value, (list, tuple)) else [value]) if x.__hash__)
    if base in ('str', 'int'):
        return cls(value if type(value) is BASES[base] else BASES[base]())
    obj = cls.__new__(cls)
    fields = value if isinstance(value, dict) and all(isinstance(k, str) for k in value) else {'a': value}
    try:
        if base == 'model':
            object.__setattr__(obj, '__dict__', dict(fields))
            object.__setattr__(obj, '__pydantic_fields_set__', set(fields))
            object.__setattr__(obj, '__pydantic_extra__', None)
            object.__setattr__(obj, '__pydantic_private__', None)
        else:
            for k, v in {**{f: 1 for f in 'abcd'}, **fields}.items():
                object.__setattr__(obj, k, v)
    except (AttributeError, TypeError, Evil):
        pass
    return obj


lib.BUILDERS['evil'] = make
