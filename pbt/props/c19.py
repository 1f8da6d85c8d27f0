"""C19: partial validation forgives what is wrong with the end of the input, and nothing else."""

from __future__ import annotations

import json

import gen as st
import lib
import specs
from core import Test, ensure
from lib import Skip
from models import compose, fields, functions, jsontext, unions
from models.compose import St, actual, outcome, same_outcome
from pydantic_core import SchemaValidator
from specs import chance, pick

from .c18 import reference

RULE = 'non-trivial: the outcome is another one than without allow_partial, or the text is cut'
ASSUMPTIONS = [
    'leaf validators are asked of the implementation itself, one leaf at a time (their own meaning is C01-C03)',
    'tuples, models, dataclasses, arguments, definitions and the handlers of wrap functions look at their parts as always: documented as not supporting partial validation',
    'a required field of a typed dict must be valid even if it comes last',
]
PARTIAL = [True, 'on', 'trailing-strings']


def tree(s, mode, depth):
    k = s.draw(12)
    if depth <= 0 or k == 0:
        return functions.leaf(s, mode, 0)
    if k < 4:
        return typed_dict(s, mode, depth)
    if k == 4:
        return pick(s, [unions.union_spec, fields.model_spec, fields.dataclass_spec, functions.wrapper_spec])(s, mode, depth, tree)
    if k == 5:
        return unions.union_spec(s, mode, depth, tree)
    sub = tree(s, mode, depth - 1)
    kind = pick(s, ['list', 'dict', 'list', 'dict', 'set', 'frozenset', 'tuple', 'nullable', 'chain', 'tuple1'])
    if kind == 'dict':
        out = {'type': 'dict', 'values_schema': sub, **specs.bounds(s)}
        if chance(s, 1, 3):
            out['keys_schema'] = specs.leaf_spec(s, mode != 'python')
        return out
    if kind == 'tuple':
        return {'type': 'tuple', 'items_schema': [sub], 'variadic_item_index': 0}
    if kind == 'tuple1':
        return {'type': 'tuple', 'items_schema': [functions.leaf(s, mode, 0), sub]}
    if kind == 'nullable':
        return {'type': 'nullable', 'schema': sub}
    if kind == 'chain':
        return {'type': 'chain', 'steps': [pick(s, [{'type': 'any'}, {'type': 'list'}, {'type': 'list', 'items_schema': tree(s, mode, depth - 1)}, {'type': 'tuple', 'items_schema': [{'type': 'any'}], 'variadic_item_index': 0}]), sub]}
    out = {'type': kind, 'items_schema': sub}
    if kind == 'list' or chance(s, 1, 3):
        out.update(specs.bounds(s))
    if chance(s, 1, 6):
        out['fail_fast'] = True
    return out


def typed_dict(s, mode, depth):
    spec = fields.typed_dict_spec(s, mode, depth, tree)
    if chance(s, 1, 2):
        spec['total'] = False
        for f in spec['fields'].values():
            if f.get('required') and chance(s, 1, 2):
                del f['required']
    return spec


def spoil(s, v, mode):
    """Damage the end of a value, or of a part of it."""
    if isinstance(v, dict) and v and chance(s, 4, 5):
        k = list(v)[-1 if chance(s, 4, 5) else s.draw(len(v))]
        return {**v, k: spoil(s, v[k], mode)}
    if isinstance(v, (list, tuple)) and v and chance(s, 4, 5):
        i = len(v) - 1 if chance(s, 4, 5) else s.draw(len(v))
        out = [*v[:i], spoil(s, v[i], mode), *v[i + 1 :]]
        return out if isinstance(v, list) else tuple(out)
    return specs.wrong_value(s, mode)


def strategy(mode):
    def go(s):
        depth = 1 + s.draw(3)
        spec = tree(s, mode, depth)
        if spec['type'] not in ('list', 'dict', 'typed-dict') and chance(s, 1, 2):
            spec = {'type': 'list', 'items_schema': spec}
        value = specs.value_for(s, spec, mode, pick(s, [0, 0, 0, 20]))
        if chance(s, 3, 4):
            value = spoil(s, value, mode)
        case = {'schema': spec, 'value': value, 'mode': mode, 'partial': pick(s, PARTIAL)}
        if chance(s, 1, 10):
            case['strict'] = bool(s.draw(2))
        if mode == 'json' and chance(s, 2, 3):
            text = json.dumps(value)
            case['cut'] = s.draw(len(text) + 1) if chance(s, 1, 2) else max(0, len(text) - 1 - s.draw(6))
        return case

    return st.Strategy(go)


def check(case, rec):
    spec, mode = case['schema'], case['mode']
    s = St(mode, case.get('strict'), partial=True)
    s.partial_arg = case['partial']
    text = None
    if mode == 'json':
        text = json.dumps(case['value'])
        if 'cut' in case:
            text = text[: case['cut']]
        r = reference(text, True, 'trailing-strings' if case['partial'] == 'trailing-strings' else 'on')
        if r[0] != 'ok':
            raise Skip
        value = again = r[1]
    else:
        value, again = specs.twice(case['value'])
    v = SchemaValidator(compose.build(spec))
    murky = compose.MURKY[0]
    want = outcome(spec, value, s)
    clear = murky == compose.MURKY[0]
    if want[0] == 'boom' and not clear:
        raise Skip
    got = actual(v, again, s, text)
    rec.label(spec['type'], want[0])
    rec.nontrivial('cut' in case)
    ensure(same_outcome(got, want), 'the outcome is not that of the input without its faulty end', got, want)
    if mode != 'json' or 'cut' not in case:
        # what it would be without allow_partial
        value, again = specs.twice(case['value'])
        whole = St(mode, case.get('strict'))
        try:
            want2 = outcome(spec, value, whole)
        except Skip:
            return
        rec.nontrivial(want2[0] != want[0])
        rec.label('forgiven' if want2[0] == 'err' and want[0] == 'ok' else 'as without')
        got = actual(v, again, whole)
        ensure(same_outcome(got, want2), 'the outcome without allow_partial is not the one expected', got, want2)


def _s(mode):
    return lambda: strategy(mode)


TESTS = [
    Test('python', _s('python'), check, 120000, 3000000),
    Test('json', _s('json'), check, 80000, 3000000),
    Test('strings', _s('strings'), check, 30000, 300000),
]
