"""C21: what a validator or serializer gives depends on its schema and the call alone."""

from __future__ import annotations

import copy
import json
import pickle
import sys
import threading
import warnings

import gen as st
import lib
import pydantic_core as pc
import specs
from core import Test, ensure
from lib import LOG, Skip, X, mk
from models import compose, everything, fields, functions, recursion, unions
from props import c17
from props.c27 import filters
from pydantic_core import SchemaError, SchemaSerializer, SchemaValidator, ValidationError
from specs import chance, pick

RULE = 'non-trivial: at least two calls with different outcomes went to the same object'
ASSUMPTIONS = ['functions of the user keep no state', 'the interleaving of threads is that of the interpreter, with the shortest switch interval']

ENDS = (ValidationError, lib.Boom, pc.PydanticOmit, pc.PydanticUseDefault, SchemaError, TypeError, AttributeError, KeyError, RuntimeError, ValueError)


def outcome(f, *args, log=True, **kw):
    """All that can be told about a call, as a text."""
    if log:
        LOG.clear()
    with warnings.catch_warnings(record=True) as caught:
        if log:
            warnings.simplefilter('always')
        try:
            got = f(*args, **kw)
            if type(got).__name__ in ('ValidatorIterator', 'SerializationIterator'):
                got = ['iterator', *got]
            out = 'ok ' + (got.decode() if type(got) is bytes else lib.snap(got))
        except ValidationError as e:
            out = 'err ' + lib.snap(e.errors(include_url=False)) + str(e) + repr(e.title)
        except ENDS as e:
            out = f'{type(e).__name__} {e}'
    plain = lambda x: lib.re.sub(r'input_value=[^\n]*?, input_type', 'input_type', x)  # noqa: E731  (shortened addresses)
    out = plain(out)
    out = lib.re.sub(r' at 0x[0-9a-fA-F]+|id: [0-9]+|>\(id=[0-9]+\)', '', out)
    return (out, tuple(LOG), tuple(plain(str(w.message)) for w in caught)) if log else out


def same(a, b, case):
    """Sets of objects that are hashed by their addresses come in any order."""
    return a == b or 'set' in repr(case) and (sorted(repr(a)) == sorted(repr(b)) or "'generator'" in repr(case) or 'nan' in repr(case))


class Objects:
    """The validator and the serializer of a case, made when first needed."""

    def __init__(self, case):
        self.case = case
        self.v = self.s = None

    def validator(self):
        if self.v is None:
            try:
                self.v = SchemaValidator(compose.build(self.case['schema']), copy.deepcopy(self.case.get('config')))
            except SchemaError:
                raise Skip from None
        return self.v

    def serializer(self):
        if self.s is None:
            try:
                self.s = SchemaSerializer(compose.build(self.case['schema']), copy.deepcopy(self.case.get('config')))
            except SchemaError:
                raise Skip from None
        return self.s

    def copies(self, how):
        """The same, through __reduce__ (or a copy, or a pickle where there are no lambdas)."""
        new = Objects(self.case)
        for k, old in (('v', self.validator()), ('s', self.serializer())):
            cls, args = old.__reduce__()
            setattr(new, k, cls(*args) if how == 'reduce' else copy.copy(old) if how == 'copy' else pickle.loads(pickle.dumps(old)))
        return new


def perform(objects, op, log=True):
    kind, value, kw = op
    kw = mk(kw)
    if kind == 'python':
        return outcome(objects.validator().validate_python, mk(value), log=log, **kw)
    if kind == 'json':
        return outcome(objects.validator().validate_json, value, log=log, **kw)
    if kind == 'strings':
        return outcome(objects.validator().validate_strings, mk(value), log=log, **kw)
    if kind == 'is':
        return outcome(objects.validator().isinstance_python, mk(value), log=log, **kw)
    if kind == 'default':
        return outcome(objects.validator().get_default_value, log=log)
    if kind == 'assign':
        field, value, new = value
        v = objects.validator()
        try:
            obj = v.validate_python(mk(value))
        except ENDS:
            return 'no object'
        return outcome(v.validate_assignment, obj, field, mk(new), log=log), lib.snap(obj)
    if kind == 'repr':
        return len(repr(objects.validator())) > 0 and len(repr(objects.serializer())) > 0
    if kind == 'dump':
        return outcome(objects.serializer().to_python, mk(value), log=log, **kw)
    if kind == 'dumpj':
        return outcome(objects.serializer().to_json, mk(value), log=log, **kw)
    if kind == 'valid':  # dumps what the validator makes of the value
        try:
            obj = objects.validator().validate_python(mk(value))
        except ENDS:
            return 'no object'
        return outcome(objects.serializer().to_python, obj, log=log, **kw), outcome(objects.serializer().to_json, obj, log=log, **{k: x for k, x in kw.items() if k != 'mode'})
    if kind == 'from_json':
        return outcome(pc.from_json, value, log=log, **kw)
    if kind == 'infer':
        return outcome(pc.to_jsonable_python, mk(value), log=log, serialize_unknown=True), outcome(pc.to_json, mk(value), log=log, serialize_unknown=True)
    assert False, kind


def objects_case(s):
    """A schema, its config, and some calls for it."""
    k = s.draw(10)
    if k > 7:
        return definitions_case(s)
    if k == 0:
        spec = pick(s, [fields.model_spec, fields.dataclass_spec, fields.typed_dict_spec])(s, 'python', 2, everything.tree)
    elif k == 1:
        spec = unions.union_spec(s, 'python', 2, everything.tree)
    elif k == 2:
        spec = unions.tagged_spec(s, 'python', 2, everything.tree)
    else:
        spec = everything.tree(s, pick(s, ['python', 'json']), s.draw(4))
    case = {'schema': spec, 'ops': [op_of(s, spec) for _ in range(2 + s.draw(5))]}
    if chance(s, 1, 3):
        case['config'] = everything.config(s)
    return case


def definitions_case(s):
    case = c17.case_of('python').do(s)
    root = case['schema']['schema']
    defs = {d['ref']: d for d in case['schema']['definitions']}
    recursion.PLAN.append(recursion.Plan(defs, pick(s, [1, 2, 5])))
    try:
        ops = [op_of(s, root, lambda v: recursion.strip(v, (), [])) for _ in range(2 + s.draw(4))]
    finally:
        recursion.PLAN.pop()
    return {'schema': c17.without(case['schema'], 'validate_default'), 'ops': ops}


def op_of(s, spec, clean=lambda v: v):
    kind = pick(s, ['python', 'python', 'python', 'json', 'json', 'strings', 'is', 'default', 'assign', 'repr', 'dump', 'dumpj', 'valid', 'valid', 'valid', 'from_json', 'infer'])
    mode = kind if kind in ('json', 'strings') else 'python'
    value = clean(specs.value_for(s, spec, mode, pick(s, (0, 0, 15, 40))))
    kw = {}
    if kind in ('python', 'json', 'strings', 'is'):
        if chance(s, 1, 3):
            kw['strict'] = bool(s.draw(2))
        if chance(s, 1, 4) and kind != 'is':
            kw['allow_partial'] = pick(s, [True, 'trailing-strings', False])
        if chance(s, 1, 4):
            kw[pick(s, ['by_alias', 'by_name'])] = True
        if chance(s, 1, 4):
            kw['context'] = pick(s, [{'ctx': 1}, [2], None])
        if chance(s, 1, 6) and mode == 'python':
            kw['from_attributes'] = bool(s.draw(2))
    elif kind in ('dump', 'dumpj', 'valid'):
        if kind != 'dumpj' and s.draw(2):
            kw['mode'] = 'json'
        for _ in range(s.draw(3)):
            kw[pick(s, ['by_alias', 'exclude_unset', 'exclude_defaults', 'exclude_none', 'round_trip', 'serialize_as_any'])] = bool(s.draw(2))
        if chance(s, 1, 4):
            kw[pick(s, ['include', 'exclude'])] = filters(s, 2)
        if chance(s, 1, 5):
            kw['warnings'] = pick(s, [False, 'error', 'none'])
        if chance(s, 1, 5) and kind == 'dumpj':
            kw['indent'] = s.draw(4)
    if kind in ('json', 'from_json'):
        text = json.dumps(mk(everything.as_json(s, value)))
        value = text[: s.draw(len(text) + 1)] if chance(s, 1, 6) else text
        if kind == 'from_json' and s.draw(2):
            kw['cache_strings'] = pick(s, ['all', 'keys', 'none', True, False])
    elif kind == 'assign':
        names = names_of(spec)
        value = (pick(s, names), value, specs.value_for(s, {'type': 'any'}, 'python', 10))
    elif kind in ('default', 'repr'):
        value = None
    return kind, value, kw


def names_of(spec):
    while spec['type'] not in ('model-fields', 'dataclass-args', 'typed-dict') and isinstance(spec.get('schema'), dict):
        spec = spec['schema']
    f = spec.get('fields', {})
    return [*(list(f) if isinstance(f, dict) else [x['name'] for x in f if isinstance(x, dict)]), 'zz']


def history_case(s):
    cases = [objects_case(s) for _ in range(1 + s.draw(2))]
    total = [(i, j) for i, c in enumerate(cases) for j in range(len(c['ops']))]
    order = [pick(s, total) for _ in range(2 + s.draw(10))]
    return {'objects': cases, 'order': order, 'copy': pick(s, ['reduce', 'copy', 'none', 'none'])}


def unstable(case):
    return "X('cls', 'Opaque')" in repr(case) and 'MI' in repr(case)


def expected_of(case, log=True):
    """Each call alone, on an object of its own."""
    return [perform(Objects(case), op, log) for op in case['ops']]


def check_history(case, rec):
    """Calls on long-lived objects, in any order and any number, give what they give on new ones."""
    want = [expected_of(c) for c in case['objects']]
    live = [Objects(c) for c in case['objects']]
    if case['copy'] != 'none':
        live = [o.copies(case['copy']) for o in live]
    for n, (i, j) in enumerate(case['order']):
        got = perform(live[i], case['objects'][i]['ops'][j])
        ensure(same(got, want[i][j], case), 'another outcome', got, want[i][j], f'call {n}')
    for i, c in enumerate(case['objects']):
        for j in range(len(c['ops'])):
            got = perform(live[i], c['ops'][j])
            ensure(same(got, want[i][j], case), 'another outcome in the end', got, want[i][j])
    rec.label(case['copy'])
    rec.nontrivial(any(len(set(w)) > 1 for w in want))


# ---------------------------------------------------------------------------------------------------------------- threads
def check_threads(case, rec):
    """As many threads as there are rotations of the calls share one validator and one serializer."""
    calls = [op for op in case['ops'] if op[0] != 'repr' and 'warnings' not in op[2]] or [('python', None, {})]
    case = {**case, 'ops': calls}
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        want = expected_of(case, False)
        live = Objects(case)
        live.validator(), live.serializer()
        got: list = [None] * 4
        start = threading.Barrier(4)

        def run(t):
            start.wait()
            mine = []
            for r in range(4):
                for j in range(len(calls)):
                    k = (j + t + r) % len(calls)
                    mine.append((k, perform(live, calls[k], False)))
            got[t] = mine

        old = sys.getswitchinterval()
        sys.setswitchinterval(1e-6)
        try:
            threads = [threading.Thread(target=run, args=(t,)) for t in range(4)]
            for t in threads:
                t.start()
            for t in threads:
                t.join()
        finally:
            sys.setswitchinterval(old)
    for mine in got:
        ensure(mine is not None, 'a thread died')
        for k, x in mine:
            ensure(same(x, want[k], case), 'another outcome among threads', x, want[k], calls[k])
    rec.label(len(calls))
    rec.nontrivial(len(set(want)) > 1)


# --------------------------------------------------------------------------------------------------------------- prebuilt
def prebuilt_case(s):
    inner = pick(s, [fields.model_spec, fields.model_spec, fields.dataclass_spec])(s, 'python', 1 + s.draw(2), everything.tree)
    inner = plain(inner)

    def outer(s, mode, depth):
        k = s.draw(10)
        if depth <= 0 or k == 0:
            return related(s, inner) if chance(s, 1, 4) else inner
        if k < 3:
            return functions.wrapper_spec(s, mode, depth, outer)
        if k == 3:
            return unions.union_spec(s, mode, depth, lambda s, m, d: outer(s, m, d - 1) if s.draw(2) else specs.leaf_spec(s))
        if k == 4:
            return {'type': 'nullable', 'schema': outer(s, mode, depth - 1)}
        if k == 5:
            return {'type': 'list', 'items_schema': outer(s, mode, depth - 1)}
        if k == 6:
            return {'type': 'dict', 'values_schema': outer(s, mode, depth - 1)}
        if k == 7:
            return functions.default_spec(s, mode, depth, lambda *_: outer(s, mode, depth - 1))
        return pick(s, [fields.model_spec, fields.dataclass_spec, fields.typed_dict_spec])(s, mode, depth, lambda s, m, d: outer(s, m, d) if s.draw(3) else specs.leaf_spec(s))

    spec = outer(s, 'python', s.draw(4))
    return {'schema': spec, 'inner': inner, 'ops': [op_of(s, spec) for _ in range(1 + s.draw(4))]}


def related(s, inner):
    """A schema for a subclass of the class, or for a parametrization of a generic dataclass: neither is what the class has got."""
    new = pick(s, [fields.model_spec if inner['type'] == 'model' else fields.dataclass_spec])(s, 'python', 1, everything.tree)
    new = plain(new)
    if inner['type'] == 'dataclass' and s.draw(2) and new['cls'] == inner['cls']:
        return {**new, 'generic_origin': inner['cls']}
    return {**new, 'cls': X('class', 'M1' if inner['type'] == 'model' else 'D1')} if inner['cls'].args[0] in ('M0', 'D0') else new


def plain(spec):
    """The model or dataclass inside of wrappers."""
    while spec['type'] not in ('model', 'dataclass'):
        spec = spec['schema']
    return spec


def occurrences(schema, cls, found):
    if isinstance(schema, dict):
        if schema.get('cls') is cls:
            found.append(schema if schema.get('type') in ('model', 'dataclass') else None)
        for k, x in schema.items():
            if k not in ('default', 'cls'):
                occurrences(x, cls, found)
    elif isinstance(schema, (list, tuple)):
        for x in schema:
            occurrences(x, cls, found)


def check_prebuilt(case, rec):
    """A class that has got its validator and serializer already is treated as if they were built anew."""
    inner = compose.build(case['inner'])
    cls = inner['cls']
    text = repr(compose.build(case['inner']))
    found: list = []
    occurrences(compose.build(case['schema']), cls, found)
    if any((x is None or repr(x) != text) and not (x and x['type'] == 'dataclass' and 'generic_origin' in x) for x in found):
        raise Skip  # (the same class with another schema)
    cls.__pydantic_complete__ = False
    try:
        v, s = SchemaValidator(inner), SchemaSerializer(inner)
    except SchemaError:
        del cls.__pydantic_complete__
        raise Skip from None
    old = cls.__dict__.get('__pydantic_serializer__')
    cls.__pydantic_validator__, cls.__pydantic_serializer__ = v, s
    try:
        want = expected_of(case)
        cls.__pydantic_complete__ = True
        live = Objects(case)
        live.validator(), live.serializer()
        cls.__pydantic_complete__ = False
        got = [None if op[0] == 'repr' else perform(live, op) for op in case['ops']]
    finally:
        del cls.__pydantic_validator__, cls.__pydantic_complete__
        if old is None:
            del cls.__pydantic_serializer__
        else:
            cls.__pydantic_serializer__ = old
    rec.label('Prebuilt' in repr(live.validator()), 'Prebuilt' in repr(live.serializer()))
    for op, g, w in zip(case['ops'], got, want):
        ensure(op[0] == 'repr' or same(g, w, case), 'another outcome with a prebuilt class', g, w, op)
    rec.nontrivial(bool(found) and case['schema'] is not case['inner'])


# -------------------------------------------------------------------------------------------------------------- iterators
def iterators_case(s):
    item = everything.tree(s, 'python', s.draw(2))
    spec = {'type': 'generator', 'items_schema': item}
    if chance(s, 1, 3):
        spec.update({pick(s, ['min_length', 'max_length']): s.draw(4)})
    values = [[specs.value_for(s, item, 'python', pick(s, (0, 0, 30))) for _ in range(s.draw(5))] for _ in range(2 + s.draw(2))]
    case = {'schema': spec, 'values': values, 'order': [s.draw(len(values)) for _ in range(s.draw(20))], 'json': chance(s, 1, 3), 'kw': {}}
    if case['json']:
        case['values'] = [everything.as_json(s, v) for v in values]
    if chance(s, 1, 3):
        case['kw'] = {pick(s, ['strict', 'by_name']): True, 'context': {'ctx': 1}}
    return case


def step(it):
    try:
        return 'ok ' + lib.snap(next(it))
    except StopIteration:
        return 'end'
    except ValidationError as e:
        return 'err ' + lib.snap(e.errors(include_url=False))
    except ENDS as e:
        return f'{type(e).__name__} {e}'


def check_iterators(case, rec):
    """Iterators of one validator, taken from in any order, give what each gives alone."""
    try:
        v = SchemaValidator(compose.build(case['schema']))
    except SchemaError:
        raise Skip from None
    if 'nan' in repr(case) or 'opaque' in repr(case):
        raise Skip  # hashed by address: sets of them have no order
    alone = []
    call = (lambda x: v.validate_json(json.dumps(mk(x)), **case['kw'])) if case['json'] else lambda x: v.validate_python(mk(x), **case['kw'])
    for x in case['values']:
        it = call(x)
        alone.append([step(it) for _ in range(len(x) + 3)])
    its = list(map(call, case['values']))
    got: list = [[] for _ in its]
    for i in case['order']:
        if len(got[i]) < len(alone[i]):
            got[i].append(step(its[i]))
            ensure(got[i] == alone[i][: len(got[i])], 'an iterator gives something else among others', got[i], alone[i])
    rec.nontrivial(len(set(case['order'])) > 1)




# ----------------------------------------------------------------------------------------------------------- string cache
def cache_case(s):
    keys = [pick(s, ['a', 'b', 'c', 'x' * pick(s, (1, 2, 62, 63, 64, 65, 66, 200)), 'é', 'k%d' % s.draw(2000), chr(0x100 + s.draw(500))]) for _ in range(1 + s.draw(5))]

    def text(s, depth):
        k = s.draw(6)
        if depth == 0 or k < 3:
            return pick(s, keys) + pick(s, ['', '', '', 'q'])
        if k == 3:
            return [text(s, depth - 1) for _ in range(s.draw(4))]
        return {pick(s, keys): text(s, depth - 1) for _ in range(s.draw(4))}

    return {'values': [text(s, 3) for _ in range(1 + s.draw(4))], 'modes': [pick(s, ['all', 'keys', 'none', True, False]) for _ in range(4)], 'clear': s.draw(5)}


def check_cache(case, rec):
    """Strings of JSON are what the text says, whatever strings have been read before, at every setting of the cache."""
    for n, value in enumerate(case['values']):
        text = json.dumps(value, ensure_ascii=bool(n % 2))
        mode = case['modes'][n % len(case['modes'])]
        if n == case['clear']:
            pc._pydantic_core.list_all_errors()
        ensure(lib.same(pc.from_json(text, cache_strings=mode), value), 'from_json', mode)
        v = SchemaValidator({'type': 'any'}, {'cache_strings': mode})
        ensure(lib.same(v.validate_json(text), value), 'validate_json', mode)
        w = SchemaValidator({'type': 'json'}, {'cache_strings': mode})
        ensure(lib.same(w.validate_python(text), value), 'json schema', mode)
        d = SchemaValidator({'type': 'dict', 'values_schema': {'type': 'union', 'choices': [{'type': 'str'}, {'type': 'any'}]}}, {'cache_strings': mode})
        if isinstance(value, dict):
            ensure(lib.same(d.validate_json(text), value), 'dict', mode)
    rec.label(*map(str, case['modes']))
    rec.nontrivial(len(repr(case['values'])) > 30)


TESTS = [
    Test('history', lambda: st.Strategy(history_case), check_history, 12000, 200000),
    Test('prebuilt', lambda: st.Strategy(prebuilt_case), check_prebuilt, 16000, 300000),
    Test('iterators', lambda: st.Strategy(iterators_case), check_iterators, 10000, 200000),
    Test('cache', lambda: st.Strategy(cache_case), check_cache, 16000, 300000),
    Test('threads', lambda: st.Strategy(objects_case), check_threads, 3000, 60000),
]
