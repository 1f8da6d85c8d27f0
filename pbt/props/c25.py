"""C25: everything a validator or a serializer holds can be collected, nothing it uses leaks, nothing that is in use is freed."""

from __future__ import annotations

import enum
import gc
import sys
import types
import weakref

import gen as st
import lib
import pydantic_core as pc
import serspecs as ss
from core import Test, ensure
from lib import LOG, Skip, X, mk
from models import compose, everything, recursion
from props import c17, c21
from props.c21 import ENDS, outcome
from pydantic_core import SchemaError, SchemaSerializer, SchemaValidator
from specs import chance, pick

RULE = 'non-trivial: at least two objects other than the schema lead to the validator or serializer, or there is a call that is made again and again'
ASSUMPTIONS = ['ValidationError objects are not part of a cycle', 'the collector of CPython 3.12, run on purpose']


# ------------------------------------------------------------------------------------------------------ cycles
class Box:
    """What every holder leads to; leads to the validator and the serializer, and to what the functions were given."""

    def __init__(self, keep):
        self.things, self.kept, self.keep = [], [], keep


class Holder:
    """A callable (or a value) that leads to the box."""

    def __init__(self, f, box):
        self.f, self.box = f, box
        self.__name__ = getattr(f, '__name__', 'holder')

    def __call__(self, *args):
        if self.box.keep and len(self.box.kept) < 40:
            self.box.kept.extend(a for a in args if type(a).__module__.startswith('pydantic_core') and not isinstance(a, Exception))
        return self.f(*args)


def held_enum(cls, box):
    members = [(m.name, m.value) for m in cls]
    if issubclass(cls, enum.IntEnum):
        new = enum.IntEnum(cls.__name__, members)
    else:
        mixin = next((t for t in (str, float, bytes) if issubclass(cls, t)), None)
        new = enum.Enum(cls.__name__, members, **({'type': mixin} if mixin else {}))
    new.box = box
    return new


class Planter:
    """Puts a holder in every place of a schema that takes an object of the user."""

    def __init__(self, box, only=None):
        self.box, self.only, self.n, self.held, self.names, self.classes = box, only, 0, [], [], {}

    def turn(self, name):
        self.n += 1
        on = self.only is None or (self.n - 1) in self.only
        if on:
            self.names.append(name)
        return on

    def hold(self, new):
        self.held.append(new)
        return new

    def cls(self, cls):
        if cls not in self.classes:
            try:
                self.classes[cls] = self.hold(type(cls)(cls.__name__, (cls,), {'box': self.box, '__slots__': ()} if hasattr(cls, '__slots__') else {'box': self.box}))
            except TypeError:
                self.classes[cls] = cls
        return self.classes[cls]

    def go(self, x, kind=None):
        if type(x) is dict:
            kind = x.get('type', kind) if isinstance(x.get('type', kind), str) else kind
            if kind == 'enum' and isinstance(x.get('cls'), type):
                x = dict(x)
                if self.turn('enum cls'):
                    new = self.hold(held_enum(x['cls'], self.box))
                    x['cls'], x['members'] = new, list(new)
                if 'missing' in x and self.turn('enum missing'):
                    x['missing'] = self.hold(Holder(x['missing'], self.box))
                return {k: self.go(v, kind) if k == 'serialization' else v for k, v in x.items()}
            return {k: self.item(k, v, kind) for k, v in x.items()}
        if type(x) in (list, tuple):
            return type(x)(self.go(v, kind) for v in x)
        if callable(x) and not isinstance(x, type) and not isinstance(x, (Holder, enum.Enum)) and type(x) in (types.FunctionType, types.BuiltinFunctionType, types.MethodType):
            return self.hold(Holder(x, self.box)) if self.turn('function') else x
        return x

    def item(self, k, v, kind):
        if k == 'type':
            return v
        if k == 'default' and self.turn('default'):
            return self.hold(Holder(v, self.box))
        if k == 'expected' and kind == 'literal' and self.turn('expected'):
            return [*v, self.hold(Holder(1, self.box))]
        if k in ('cls', 'generic_origin') and isinstance(v, type) and v not in (int, str) and self.turn(f'{kind} {k}'):
            return self.cls(v)
        if k == 'custom_error_context' and self.turn(k):
            return {**v, 'held': self.hold(Holder(1, self.box))}
        if k == 'choices' and type(v) is dict:
            return {tag: self.go(c, kind) for tag, c in v.items()}
        return self.go(v, kind)


def places(spec):
    """How many places there are."""
    p = Planter(Box(False))
    try:
        p.go(compose.build(spec))
    except Exception:
        return 0
    return p.n


def boxed(s, v):
    """Some leafs of a value become the box."""
    t = type(v)
    if t is list:
        return [boxed(s, x) for x in v]
    if t is dict:
        return {k: boxed(s, x) for k, x in v.items()}
    if t is X and v.kind in ('inst', 'dci', 'attrs', 'mapping'):
        return X(v.kind, *[boxed(s, a) if type(a) is dict else a for a in v.args])
    return X('box') if chance(s, 1, 6) else v


BOX: list = []
lib.BUILDERS['box'] = lambda: BOX[-1]


def richer(s, x):
    """Schemas with classes in them where functions and computed fields say what they return."""
    if type(x) is list:
        return [richer(s, v) for v in x]
    if type(x) is not dict:
        return x
    out = {k: richer(s, v) for k, v in x.items()}
    if out.get('type') in ('function-wrap', 'function-plain', 'computed-field', 'function-after', 'function-before') and 'items_schema' not in out:
        if out['type'] == 'computed-field' or (type(out.get('function')) is X and chance(s, 1, 2)):
            if s.draw(2):
                out['return_schema'] = everything.tree(s, 'python', s.draw(3))
            if out['type'] == 'function-wrap' and chance(s, 1, 3):
                out['schema'] = everything.tree(s, 'python', s.draw(2))
    return out


def ser_case(s):
    """A schema with serialization functions, computed fields and filters; dumps of values for it."""
    g = ss.G(functions=True, schema_filters=True)
    sp = ss.spec(s, g, 1 + s.draw(2))
    ops = []
    for _ in range(1 + s.draw(3)):
        kind = pick(s, ['dump', 'dumpj', 'dump'])
        kw = {}
        if kind == 'dump' and s.draw(2):
            kw['mode'] = 'json'
        if chance(s, 1, 4):
            kw[pick(s, ['by_alias', 'exclude_unset', 'exclude_defaults', 'exclude_none', 'round_trip', 'serialize_as_any'])] = bool(s.draw(2))
        ops.append((kind, ss.value(s, sp, g), kw))
    return {'schema': richer(s, sp), 'ops': ops}


def any_case(s):
    return ser_case(s) if chance(s, 1, 3) else c21.objects_case(s)


def cycle_case(s):
    case = any_case(s)
    if not places(case['schema']):
        case = any_case(s)
    out = {'schema': case['schema'], 'what': pick(s, ['validator', 'serializer', 'both']), 'keep': s.draw(3) == 2}
    n = places(case['schema'])
    out['only'] = None if chance(s, 1, 3) else sorted({s.draw(n) for _ in range(1 + s.draw(2))}) if n else None
    if chance(s, 1, 4):
        out['config'] = everything.config(s)
    out['ops'] = [(k, boxed(s, v) if k in ('python', 'dump', 'valid') and chance(s, 1, 2) else v, kw) for k, v, kw in case['ops'] if k in ('python', 'json', 'strings', 'dump', 'dumpj', 'valid', 'assign', 'default')][:4]
    out['alive'] = s.draw(8) if chance(s, 1, 3) else None
    out['between'] = chance(s, 1, 4)
    return out


class Held:
    def __init__(self, case, box):
        self.box, self.case = box, case
        self.planter = Planter(box, case['only'])
        self.schema = self.planter.go(compose.build(case['schema']))

    def validator(self):
        return next(t for t in self.box.things if type(t) is SchemaValidator)

    def serializer(self):
        return next(t for t in self.box.things if type(t) is SchemaSerializer)

    def build(self):
        kinds = {'validator': [SchemaValidator], 'serializer': [SchemaSerializer], 'both': [SchemaValidator, SchemaSerializer]}[self.case['what']]
        config = mk(self.case.get('config'))
        for kind in kinds:
            try:
                self.box.things.append(kind(self.schema, config))
            except (SchemaError, TypeError, ValueError, AttributeError):
                raise Skip from None
        for t in self.box.things:
            if self.case['only'] is None and chance_of(self.case):
                for c in self.planter.classes.values():
                    if isinstance(c, type):
                        setattr(c, '__pydantic_validator__' if type(t) is SchemaValidator else '__pydantic_serializer__', t)


def chance_of(case):
    return case['what'] == 'both'


def use(held, ops, box):
    out = []
    for kind, value, kw in ops:
        needs = {'dump': 's', 'dumpj': 's', 'valid': 'vs'}.get(kind, 'v')
        have = ''.join({SchemaValidator: 'v', SchemaSerializer: 's'}[type(t)] for t in box.things)
        if not set(needs) <= set(have):
            continue
        if kind not in ('assign', 'default'):
            kw = {**kw, 'context': {'box': box}}
        try:
            c21.perform(held, (kind, value, kw))
        except (RecursionError, *ENDS):
            pass
        out.append(kind)
        LOG.clear()
    return out


def collect():
    for _ in range(3):
        gc.collect()


def history(case, rec):
    """Makes a cycle, uses it; gives a weak reference to it, and one object of it (or None)."""
    box = Box(case['keep'])
    BOX.append(box)
    gc.disable()
    try:
        held = Held(case, box)
        held.build()
        if not held.planter.held and not case['keep']:
            raise Skip
        used = use(held, case['ops'], box)
        if case['between']:
            gc.collect()
            used += use(held, case['ops'], box)
        names, kinds = held.planter.names, [type(k).__name__ for k in box.kept]
        rec.nontrivial(len(held.planter.held) + len(kinds) > 1)
        for name in {*names, *('kept ' + k for k in kinds), case['what'], *used}:
            rec.label(name)
        alive = None
        if case['alive'] is not None and held.planter.held:
            alive = held.planter.held[case['alive'] % len(held.planter.held)]
        return weakref.ref(box), alive, len(box.things), (names, kinds)
    finally:
        BOX.pop()
        gc.enable()


def still(alive, ref, n, about):
    """An object in use, and all it leads to, is as it was."""
    ensure(ref() is not None, 'an object in use led to something that was collected', *about)
    ensure(len(alive.box.things) == n, 'the box of an object in use was emptied', *about)
    for t in alive.box.things:
        repr(t)
        if type(t) is SchemaValidator:
            outcome(t.validate_python, 1, log=False)


def check_cycle(case, rec):
    ref, alive, n, about = history(case, rec)
    collect()
    if alive is not None:
        rec.label('kept alive')
        still(alive, ref, n, about)
        LOG.clear()
        del alive
        collect()
    ensure(ref() is None, 'the cycle was not collected', *about)


# ------------------------------------------------------------------------------------------------------ what the functions are given
def keeps_case(s):
    """Schemas with functions that keep what they are given."""
    case = cycle_case(s)
    case['keep'], case['what'] = True, pick(s, ['both', 'both', 'validator'])
    case['only'] = None if case['only'] is None or s.draw(2) else case['only']
    f = lambda: s.draw(2)  # noqa: E731
    inner = case['schema']
    if inner['type'] != 'definitions':
        k = s.draw(5)
        info = 'with-info' if f() else 'no-info'
        if k == 0:
            inner = {'type': 'function-wrap', 'function': {'type': info, 'function': X('keeper', 'wrap')}, 'schema': inner}
        elif k == 1:
            inner = {'type': pick(s, ['function-after', 'function-before']), 'function': {'type': info, 'function': X('keeper', 'plain')}, 'schema': inner}
        elif k == 2:
            inner = {'type': 'typed-dict', 'fields': {'x': {'type': 'typed-dict-field', 'schema': {'type': 'any'}}, 'y': {'type': 'typed-dict-field', 'schema': {
                'type': 'function-after', 'function': {'type': 'with-info', 'function': X('keeper', 'plain')}, 'schema': inner}}}}
            case['ops'] = [(k, {'x': X('box'), 'y': v}, kw) for k, v, kw in case['ops'] if k in ('python', 'dump', 'valid')]
        elif k == 3:
            inner = {'type': 'generator', 'items_schema': inner}
            case['ops'] = [('python', X('keepiter', v), {}) for k, v, kw in case['ops'] if k == 'python'] or [('python', X('keepiter', X('box')), {})]
        if f():
            inner = {**inner, 'serialization': {'type': 'function-' + pick(s, ['wrap', 'plain']), 'function': X('keeper', 'ser'), 'info_arg': bool(f())}}
            inner['serialization']['function'] = X('keeper', 'ser' + inner['serialization']['type'][9:])
        case['schema'] = inner
    return case


def _keeper(kind):
    def plain(v, *info):
        return v

    def wrap(v, handler, *info):
        return handler(v)

    return wrap if kind in ('wrap', 'serwrap') else plain


def _keepiter(v):
    box = BOX[-1]

    def items():
        yield mk(v)
        yield box

    it = items()
    box.kept.append(it)
    return it


lib.BUILDERS['keeper'] = _keeper
lib.BUILDERS['keepiter'] = _keepiter


# ------------------------------------------------------------------------------------------------------ balance
ATOMS = (str, bytes, int, float, type(None), bool)


def reach(*roots):
    seen, out, todo = set(), [], list(roots)
    while todo:
        x = todo.pop()
        if id(x) in seen or type(x) in ATOMS:
            continue
        seen.add(id(x))
        out.append(x)
        if not isinstance(x, (type, types.FunctionType, types.BuiltinFunctionType, types.ModuleType)):
            todo.extend(gc.get_referents(x))
    return out


def counts(objs):
    return [sys.getrefcount(o) for o in objs]


def balance_case(s):
    case = any_case(s)
    case['ops'] = case['ops'][:3] + [('build', None, {})] * (s.draw(3) == 0)
    return case


def one(objects, op, schema, config):
    if op[0] == 'build':
        for kind in (SchemaValidator, SchemaSerializer):
            try:
                kind(schema, config)
            except (SchemaError, TypeError):
                pass
        return
    try:
        c21.perform(objects, op, log=True)
    except (RecursionError, *ENDS):
        pass
    LOG.clear()


def check_balance(case, rec):
    schema, config = compose.build(case['schema']), mk(case.get('config'))
    objects = c21.Objects(case)
    try:
        objects.v, objects.s = SchemaValidator(schema, config), SchemaSerializer(schema, config)
    except SchemaError:
        raise Skip from None
    held = reach(schema, objects.v, objects.s)

    def grown(rounds):
        for op in case['ops']:
            one(objects, op, schema, config)
        gc.collect()
        before, blocks = counts(held), sys.getallocatedblocks()
        for _ in range(rounds):
            for op in case['ops']:
                one(objects, op, schema, config)
        gc.collect()
        more = sys.getallocatedblocks() - blocks
        after = counts(held)
        return more, [(a - b, o) for o, a, b in zip(held, after, before) if abs(a - b) >= rounds]

    rec.nontrivial(bool(case['ops']))
    for op in case['ops']:
        rec.label(op[0])
    for rounds in (3, 30, 150, 600, 600):
        more, wrong = grown(rounds)
        if more < rounds and not wrong:
            return
    ensure(not wrong, 'reference counts drift', rounds, [(d, type(o).__name__, repr(o)[:200]) for d, o in wrong[:5]])
    ensure(more < rounds, 'the calls leave objects behind', rounds, more)


TESTS = [
    Test('cycles', lambda: st.Strategy(cycle_case), check_cycle, 5000, 150000),
    Test('keeps', lambda: st.Strategy(keeps_case), check_cycle, 2500, 80000),
    Test('balance', lambda: st.Strategy(balance_case), check_balance, 2500, 60000),
]
