"""C17: schemas that refer to each other, and to themselves; values that contain themselves, or are very deep."""

from __future__ import annotations

import json
import sys

import gen as st
import lib
import pydantic_core as pc
import specs
from core import Test, ensure
from lib import Skip, X, mk, same
from models import compose, fields, functions, recursion, unions
from models.compose import St, actual, outcome, same_outcome
from pydantic_core import SchemaError, SchemaSerializer, SchemaValidator, ValidationError
from specs import chance, pick

RULE = 'non-trivial: a definition is used inside of itself, or a limit is reached'
ASSUMPTIONS = [
    'leaf validators are asked of the implementation itself, one leaf at a time (their own meaning is C01-C03)',
    'a value may be nested through as many definitions as _pydantic_core._recursion_limit says',
]
LIMIT = recursion.LIMIT
sys.setrecursionlimit(30000)


def make_tree(names, odd):
    """The trees of a set of definitions; `odd`: a definition may be nothing but itself."""

    def ref(s):
        return {'type': 'definition-ref', 'schema_ref': pick(s, names)}

    def tree(s, mode, depth):
        k = s.draw(14)
        if depth <= 0 or k == 0:
            return ref(s) if chance(s, 3, 5) else functions.leaf(s, mode, 0)
        if k < 4:
            return pick(s, [fields.model_spec, fields.dataclass_spec, fields.typed_dict_spec])(s, mode, depth, tree)
        if k == 4:
            return unions.union_spec(s, mode, depth, tree)
        if k == 5:
            return functions.wrapper_spec(s, mode, depth, tree)
        return box(s, mode, depth)

    def box(s, mode, depth):
        sub = tree(s, mode, depth - 1)
        kind = pick(s, ['list', 'dict', 'tuple', 'list', 'dict', 'nullable', 'typed-dict', 'default'] if mode != 'strings' else ['dict', 'typed-dict', 'dict', 'nullable', 'default'])
        if kind == 'dict':
            return {'type': 'dict', 'values_schema': sub, **(specs.bounds(s) if chance(s, 1, 4) else {})}
        if kind == 'tuple':
            return {'type': 'tuple', 'items_schema': [sub, tree(s, mode, 0)]} if s.draw(2) else {'type': 'tuple', 'items_schema': [sub], 'variadic_item_index': 0}
        if kind == 'nullable':
            return {'type': 'nullable', 'schema': sub}
        if kind == 'typed-dict':
            return fields.typed_dict_spec(s, mode, depth, tree)
        if kind == 'default':
            return functions.default_spec(s, mode, depth, tree)
        return {'type': kind, 'items_schema': sub}

    def body(s, mode, depth):
        if odd and chance(s, 1, 3):
            return tree(s, mode, depth)
        k = s.draw(5)
        if k == 0:
            inner = pick(s, [fields.model_spec, fields.dataclass_spec, fields.typed_dict_spec])(s, mode, depth, tree)
        else:
            inner = box(s, mode, depth)
        if k == 4:
            return {'type': 'nullable', 'schema': inner}
        if k == 3:
            return {'type': 'union', 'choices': [inner, functions.leaf(s, mode, 0)]} if s.draw(2) else functions.wrapper_spec(s, mode, 1, lambda *_: inner)
        return inner

    return tree, body, ref


def refs(schema, out):
    if isinstance(schema, dict):
        if schema.get('type') == 'definition-ref':
            out.append(schema['schema_ref'])
        for v in schema.values():
            refs(v, out)
    elif isinstance(schema, (list, tuple)):
        for v in schema:
            refs(v, out)
    return out


def labelled(schema):
    """A choice of a union that uses a definition gets a label: its own name is another matter."""
    if isinstance(schema, dict):
        schema = {k: labelled(v) for k, v in schema.items()}
        if schema.get('type') == 'union':
            schema['choices'] = [(c, f'choice {i}') if isinstance(c, dict) and refs(c, []) else c for i, c in enumerate(schema['choices'])]
        return schema
    if isinstance(schema, list):
        return [labelled(x) for x in schema]
    if isinstance(schema, tuple):
        return tuple(labelled(x) for x in schema)
    return schema


def case_of(mode):
    def go(s):
        names = ['A', 'B', 'C'][: 1 + s.draw(3)]
        tree, body, ref = make_tree(names, chance(s, 1, 6))
        defs = {}
        for n in names:
            d = body(s, mode, 1 + s.draw(2))
            if d['type'] in ('definition-ref',) or 'ref' in d:
                d = {'type': 'nullable', 'schema': d}
            defs[n] = d
        root = ref(s) if chance(s, 2, 3) else tree(s, mode, 1)
        spec = {'type': 'definitions', 'definitions': [{**d, 'ref': n} for n, d in defs.items()], 'schema': root}
        recursion.PLAN.append(recursion.Plan(defs, pick(s, [0, 1, 2, 3, 5, 8, 12])))
        try:
            value = specs.value_for(s, root, mode, pick(s, [0, 0, 0, 12, 25]))
        finally:
            recursion.PLAN.pop()
        marks = []
        value = recursion.strip(value, (), marks)
        inner = [p for p, n in marks if p]
        spec, root = labelled(spec), labelled(root)
        case = {'schema': spec, 'value': value, 'mode': mode}
        if mode != 'json' and chance(s, 1, 3):
            places = inner or ([('a',)] if mode == 'strings' else [('a',), (0,)])
            spots = [(), *places]
            links = tuple((pick(s, places), pick(s, spots)) for _ in range(1 + s.draw(2)))
            case['value'] = X('linked', value, links)
        elif chance(s, 1, 2) and inner:
            big = mode != 'json'
            n = pick(s, [2, 7, 8, 15, 16, 17, 40, LIMIT - 2 - s.draw(3), LIMIT - s.draw(2), LIMIT + s.draw(3), (LIMIT + 1) // 2, LIMIT // 2, LIMIT // 2 - 1, LIMIT // 3, 400] if big else [2, 7, 16, 17, 40, 60])
            # a place of the definition the whole is of, if there is one
            whole = [n_ for p, n_ in marks if not p]
            same_name = [p for p, n_ in marks if p and n_ in whole]
            path = pick(s, same_name or inner)
            case['value'] = X('deep', value, path, n, recursion.pick_end(s, mode))
            if big and chance(s, 1, 3):
                n = pick(s, [1, 2, 5, 15, 16, 17, 18, 19, 33, 60])
                case['value'] = X('ring', value, path, n, pick(s, [0, 0, 1, 2, 15, 16, n - 1]))
            if big and chance(s, 1, 4):
                case['value'] = {'a': case['value'], 'b': value} if s.draw(2) or mode == 'strings' else [case['value'], case['value'], value]
                case['schema'] = {**spec, 'schema': {'type': 'dict', 'values_schema': root} if isinstance(case['value'], dict) else {'type': 'list', 'items_schema': root}}
        if chance(s, 1, 10):
            case['strict'] = bool(s.draw(2))
        return case

    return st.Strategy(go)


FORGET = ("'gen'", "'badgen'", "'iter'", "X('keys'", "X('values'", "X('items'")


def nesting(v):
    out, level = 0, [v]
    while level:
        out += 1
        level = [y for x in level if isinstance(x, (list, dict)) for y in (x if isinstance(x, list) else x.values())]
    return out


def check(case, rec):
    spec, mode = case['schema'], case['mode']
    if any(f in repr(case['value']) for f in FORGET):
        raise Skip
    s = St(mode, case.get('strict'))
    value = mk(case['value'])
    text = None
    if mode == 'json':
        text = json.dumps(value)
        if nesting(value) > 190:
            raise Skip
        value = json.loads(text)
    try:
        v = SchemaValidator(compose.build(spec))
    except SchemaError:
        raise Skip from None
    guard = s.guard = recursion.Guard()
    murky = compose.MURKY[0]
    lib.LOG.clear()
    want = outcome(spec, value, s)
    log = list(lib.LOG)
    lib.LOG.clear()
    got = actual(v, value, s, text)
    if compose.MURKY[0] != murky and not same_outcome(got, want):
        raise Skip
    if guard.cycles:
        rec.label('cycle')
    if guard.exceeded:
        rec.label('limit')
    if guard.deepest > 1:
        rec.nontrivial()
    rec.label(want[0], 'deep' if guard.deepest > 16 else 'shallow')
    ensure(same_outcome(got, want), 'another outcome', got, want)
    if not guard.cycles and not guard.exceeded or want[0] == 'ok':
        ensure(len(lib.LOG) == len(log), 'functions are called another number of times', len(lib.LOG), len(log))
    # the same again: nothing is left of the first time
    again = actual(v, value, s, text)
    ensure(same_outcome(again, got), 'another outcome the second time', again, got)


# ------------------------------------------------------------------------------------- definitions or the schema in place
def place(schema, defs, k):
    """`schema` with what the references stand for in their place, k levels of it."""
    if isinstance(schema, dict):
        if schema.get('type') == 'definition-ref':
            name = schema['schema_ref']
            return {'type': 'any'} if k == 0 else place(defs[name], defs, k - 1)
        return {a: place(b, defs, k) for a, b in schema.items()}
    if isinstance(schema, list):
        return [place(x, defs, k) for x in schema]
    if isinstance(schema, tuple):
        return tuple(place(x, defs, k) for x in schema)
    return schema


def size(x):
    if isinstance(x, dict):
        return 1 + sum(map(size, x.values()))
    if isinstance(x, (list, tuple)):
        return sum(map(size, x))
    return 0


def ser_case(s):
    names = ['A', 'B'][: 1 + s.draw(2)]
    tree, body, ref = make_tree(names, False)
    defs = {n: body(s, 'python', 1) for n in names}
    if any(n in recursion.at_once(d, defs, ()) for n, d in defs.items()):
        defs = {n: {'type': 'list', 'items_schema': d} for n, d in defs.items()}
    root = ref(s) if chance(s, 2, 3) else tree(s, 'python', 1)
    recursion.PLAN.append(recursion.Plan(defs, pick(s, [1, 2, 3])))
    try:
        value = specs.value_for(s, root, 'python', pick(s, [0, 0, 20]))
    finally:
        recursion.PLAN.pop()
    case = {'defs': defs, 'schema': root, 'value': recursion.strip(value, (), []), 'k': 4}
    k = s.draw(6)
    if k == 0:
        case['links'] = tuple((s.draw(12), s.draw(12)) for _ in range(1 + s.draw(2)))
    elif k == 1:
        case['deep'] = (s.draw(12), pick(s, [3, 15, 16, 17, 40, LIMIT - 1 - s.draw(3), LIMIT + 1, 300]))
    if chance(s, 1, 3):
        case['kw'] = {pick(s, ['exclude_none', 'exclude_defaults', 'exclude_unset', 'by_alias', 'round_trip']): True}
    return case


def tries(ser, value, kw):
    out = []
    for f in (lambda: ser.to_python(value, warnings=False, **kw), lambda: ser.to_python(value, mode='json', warnings=False, **kw), lambda: ser.to_json(value, warnings=False, **kw)):
        try:
            out.append(('ok', f()))
        except (pc.PydanticSerializationError, ValueError, TypeError, UnicodeError, AttributeError) as e:
            out.append(('error', 'Circular reference' in str(e)))
    return out


def cyclic(v, path=()):
    """Whether a value contains itself; and how deep it is."""
    if any(v is p for p in path):
        return True
    if isinstance(v, (list, tuple, set, frozenset)):
        return any(cyclic(x, (*path, v)) for x in v)
    if isinstance(v, (dict, lib.MyMapping)):
        return any(cyclic(x, (*path, v)) for x in v.values())
    if hasattr(v, '__dict__') and not isinstance(v, type):
        return any(cyclic(x, (*path, v)) for x in vars(v).values())
    if isinstance(v, lib.D2):
        return any(cyclic(getattr(v, n, None), (*path, v)) for n in 'abc')
    return False


def check_ser(case, rec):
    if any(f in repr(case['value']) for f in FORGET):
        raise Skip
    defs, root, k = case['defs'], case['schema'], case['k']
    spec = {'type': 'definitions', 'definitions': [{**d, 'ref': n} for n, d in defs.items()], 'schema': root}
    flat = place(root, defs, k)
    if size(flat) > 3000:
        raise Skip
    kw = case.get('kw', {})
    try:
        v = SchemaValidator(compose.build(without(spec, 'validate_default')))
        a = SchemaSerializer(compose.build(spec))
        b = SchemaSerializer(compose.build(flat))
    except SchemaError:
        raise Skip from None

    def fresh():
        try:
            return v.validate_python(mk(case['value']))
        except (ValidationError, pc.PydanticUseDefault, pc.PydanticOmit, SchemaError, AttributeError, lib.Boom):
            raise Skip from None

    value = fresh()
    if any(len(p) > 11 for p in places(value)):
        raise Skip  # a default that needs itself
    if 'deep' in case:
        at, n = case['deep']
        spots = list(places(value))
        if not spots:
            raise Skip
        path = spots[at % len(spots)]
        first = tries(a, value, kw)
        for i in range(n):
            outer = fresh()
            try:
                recursion.put(outer, path, value)
            except (TypeError, KeyError, IndexError, AttributeError):
                raise Skip from None
            value = outer
            if i == 0:
                first = tries(a, value, kw)
        got = tries(a, value, kw)
        rec.nontrivial()
        rec.label(*(f'deep {x[0]}' for x in got))
        if all(x[0] == 'ok' for x in first) and 'function' not in repr(spec):
            # each level is so many containers, and as many references at most
            if (n + 1) * (2 + len(path)) * (1 + len(refs(spec, []))) + sum(1 for _ in places(fresh())) < LIMIT:
                ensure(all(x[0] == 'ok' for x in got), 'a value that is not deep is refused', got)
        return
    for dst, src in case.get('links', ()):
        spots = list(places(value))
        if not spots:
            raise Skip
        try:
            recursion.put(value, spots[dst % len(spots)], recursion.get(value, ([()] + spots)[src % (len(spots) + 1)]))
        except (TypeError, KeyError, IndexError, AttributeError):
            raise Skip from None
    got = tries(a, value, kw)
    if cyclic(value):
        rec.label('cycle', *(f'cycle {x[0]}' for x in got))
        rec.nontrivial()
        return
    want = tries(b, value, kw)
    ensure(same(got, want), 'definitions serialize to something else than what they stand for', got, want)
    if refs(root, []):
        rec.nontrivial()
    if 'links' in case:
        rec.label('shared')


def without(schema, key):
    if isinstance(schema, dict):
        return {a: without(b, key) for a, b in schema.items() if a != key}
    if isinstance(schema, (list, tuple)):
        return type(schema)(without(x, key) for x in schema)
    return schema


def places(v, path=(), seen=()):
    """The ways to the parts of a value that can be replaced."""
    if len(seen) > 12 or any(v is x for x in seen):
        return
    if isinstance(v, list):
        parts, ok = list(enumerate(v)), True
    elif isinstance(v, tuple):
        parts, ok = list(enumerate(v)), False
    elif isinstance(v, dict):
        parts, ok = [(k, x) for k, x in v.items() if isinstance(k, str)], True
    elif isinstance(v, (lib.ModelBase, lib.DcBase)) and hasattr(v, '__dict__'):
        parts, ok = list(vars(v).items()), True
    else:
        return
    for k, x in parts:
        if ok:
            yield (*path, k)
        yield from places(x, (*path, k), (*seen, v))


# ------------------------------------------------------------------------------------------------- values of any kind
def any_case(s):
    kinds = [pick(s, ['list', 'dict', 'tuple', 'model', 'dc']) for _ in range(1 + s.draw(3))]
    return {'kinds': kinds, 'n': pick(s, [1, 5, 15, 16, 17, 50, 100, LIMIT - 2, LIMIT - 1, LIMIT, LIMIT + 1, LIMIT + 2, 300, 1000]), 'cycle': s.draw(6) if chance(s, 1, 3) else None,
            'twice': chance(s, 1, 3), 'how': pick(s, ['any', 'none', 'list']), 'fallback': chance(s, 1, 5)}


def wrap_in(kind, v):
    if kind == 'list':
        return [v]
    if kind == 'tuple':
        return (v,)
    if kind == 'dict':
        return {'k': v}
    if kind == 'model':
        return lib._inst('M0', {}).__class__ and _model(v)
    return _dc(v)


def _model(v):
    m = lib._inst('M0', {'a': 1})
    m.__dict__['a'] = v
    return m


def _dc(v):
    return lib.D0(v)


class Foreign:
    pass


SERS = {'any': SchemaSerializer({'type': 'any'}), 'list': SchemaSerializer({'type': 'list', 'items_schema': {'type': 'any'}})}
lib.M0.__pydantic_serializer__ = SchemaSerializer({'type': 'model', 'cls': lib.M0, 'schema': {'type': 'model-fields', 'fields': {'a': {'type': 'model-field', 'schema': {'type': 'any'}}}}})


def check_any(case, rec):
    kinds, n = case['kinds'], case['n']
    v = 1
    plain_ = 1
    hole = None
    for i in range(n):
        kind = kinds[i % len(kinds)]
        v = wrap_in(kind, v)
        plain_ = [plain_] if kind in ('list', 'tuple') else {'k': plain_} if kind == 'dict' else {'a': plain_} if kind == 'model' else {'a': plain_, 'b': None}
        if i == (case['cycle'] or 0) and isinstance(v, (list, dict)):
            hole = v
    if case['cycle'] is not None:
        if hole is None:
            raise Skip
        if isinstance(hole, list):
            hole.append(v)
        else:
            hole['again'] = v
    depth = n
    if case['twice']:
        v, plain_, depth = [v, v], [plain_, plain_], depth + 1
    elif case['how'] == 'list':
        v, plain_, depth = [v], [plain_], depth + 1
    counted = depth + 1 - (case['how'] == 'list')  # the innermost value counts too, the list of a schema doesn't
    kw = {'fallback': lambda x: [x]} if case['fallback'] else {}
    if case['fallback'] and case['cycle'] is None:
        inner = v
        v, counted, plain_ = [inner, Foreign()], 10**6, None
    results = []
    if case['how'] == 'none':
        calls = [lambda: pc.to_jsonable_python(v, **kw), lambda: json.loads(pc.to_json(v, **kw))]
    else:
        ser = SERS[case['how']]
        calls = [lambda: ser.to_python(v, mode='json', **kw), lambda: json_value(ser.to_json(v, **kw))]
    for f in calls:
        try:
            results.append(('ok', f()))
        except (pc.PydanticSerializationError, ValueError) as e:
            ensure('Circular reference detected' in str(e), 'another error', str(e)[:200])
            results.append(('error', None))
        except RecursionError:
            raise Skip from None
    if case['cycle'] is not None or counted > LIMIT:
        rec.label('refused')
        ensure(all(r[0] == 'error' for r in results), 'a value that contains itself, or is too deep, is written', counted)
    else:
        rec.label('written')
        for r in results:
            ensure(r[0] == 'ok', 'a value that is not too deep is refused', counted, LIMIT)
            ensure(same(r[1], plain_), 'written wrongly', r[1], plain_)
    rec.nontrivial(n > 5)


def json_value(b):
    return json.loads(b)


TESTS = [
    Test('python', lambda: case_of('python'), check, 24000, 400000),
    Test('json', lambda: case_of('json'), check, 10000, 200000),
    Test('strings', lambda: case_of('strings'), check, 10000, 200000),
    Test('serialize', lambda: st.Strategy(ser_case), check_ser, 20000, 300000),
    Test('any', lambda: st.Strategy(any_case), check_any, 6000, 60000),
]
