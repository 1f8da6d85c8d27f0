"""C13: unions."""

from __future__ import annotations

import gen as st
import specs
from core import Test, ensure
from lib import SchemaValidator
from models import compose, fields, unions
from models.compose import St, actual, outcome, same_outcome
from pydantic_core import core_schema

RULE = ('non-trivial: at least two choices of some union accept the value (the best had to be chosen), or an error of a choice is located '
        'inside of it, or a tag picked the choice')
ASSUMPTIONS = [
    'how well a scalar fits is judged by its own strict mode and the type of the input',
    'unspecified and excluded: what a failed attempt that was replaced by a default, or a failed choice of a left-to-right union, counts '
    'for in a smart union around it; fields with init=False count as set or not; iterators as input of a union',
]


def strategy(mode, spec_fn):
    def go(s):
        spec = spec_fn(s, mode, 1 + s.draw(3), unions.tree)
        value = specs.value_for(s, spec, mode)
        case = {'schema': spec, 'value': value, 'mode': mode}
        if s.draw(4) == 3:
            case['strict'] = bool(s.draw(2))
        if mode == 'python' and s.draw(8) == 7:
            case['from_attributes'] = bool(s.draw(2))
        return case

    return st.Strategy(go)


def nested_strategy(mode):
    def go(s):
        choices = [unions.nested_spec(s, 2) for _ in range(2 + s.draw(2))]
        value = {n: unions.nested_value(s, 1 - s.draw(2)) for n in ['p', 'q', 'r'] if s.draw(8)}
        if s.draw(4) == 3:  # inside of something
            return {'schema': {'type': 'union', 'choices': [{'type': 'list', 'items_schema': {'type': 'union', 'choices': choices}},
                                                            {'type': 'list', 'items_schema': {'type': 'union', 'choices': choices[::-1]}}]},
                    'value': [value, {n: unions.nested_value(s, 1) for n in ['p', 'q', 'r'] if s.draw(8)}][:1 + s.draw(2)], 'mode': mode}
        return {'schema': {'type': 'union', 'choices': choices}, 'value': value, 'mode': mode}

    return st.Strategy(go)


def check(case, rec):
    spec, mode = case['schema'], case['mode']
    s = St(mode, case.get('strict'), from_attributes=case.get('from_attributes'))
    value, again = specs.twice(case['value'])
    want = outcome(spec, value, s)
    v = SchemaValidator(compose.build(spec))
    got = actual(v, again, s)
    rec.label(spec['type'] if spec['type'] != 'union' else spec.get('mode', 'smart'), want[0])
    if want[0] == 'err':
        rec.nontrivial(any(len(e['loc']) > 1 for e in want[1]))
    elif spec['type'] == 'tagged-union':
        rec.nontrivial()
    elif want[0] == 'ok':
        n = 0
        for c in spec['choices']:
            try:
                n += outcome(unions.choice_of(c)[0], value, s)[0] == 'ok'
            except fields.Skip:
                pass
        rec.nontrivial(n > 1)
        rec.label(f'{min(n, 3)} fit')
    ensure(same_outcome(got, want), 'the outcome is not the one composed from the choices', got, want)


TESTS = [
    Test('nested', lambda: nested_strategy('python'), check, 30000, 2000000),
    Test('nested-json', lambda: nested_strategy('json'), check, 16000, 1000000),
    Test('union', lambda: strategy('python', unions.union_spec), check, 80000, 3000000),
    Test('union-json', lambda: strategy('json', unions.union_spec), check, 50000, 1500000),
    Test('union-strings', lambda: strategy('strings', unions.union_spec), check, 16000, 400000),
    Test('tagged', lambda: strategy('python', unions.tagged_spec), check, 40000, 1500000),
    Test('tagged-json', lambda: strategy('json', unions.tagged_spec), check, 24000, 800000),
    Test('tagged-strings', lambda: strategy('strings', unions.tagged_spec), check, 8000, 200000),
]
