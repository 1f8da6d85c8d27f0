"""C04: validating a container is validating its items, and nothing else."""

import gen as st
import lib
import specs
from core import Test
from lib import Skip, ValidationError, ensure, mk, same
from models import compose
from models.compose import St, actual, outcome, same_outcome
from pydantic_core import SchemaValidator, core_schema

RULE = ('a case counts when the schema has a container node and the value reached it with at least one item (or the '
        'expected outcome is an error from inside a container)')
ASSUMPTIONS = [
    'leaf validators are asked of the implementation itself, one leaf at a time (their own meaning is C01-C03)',
    'the iteration order of a set is the same for two sets built in the same way from the same items',
]


def case_strategy(mode):
    def go(s):
        spec = specs.container_spec(s, mode, 1 + s.draw(3))
        value = specs.value_for(s, spec, mode)
        strict = [None, None, None, False, True][s.draw(5)]
        config = {'strict': True} if s.draw(8) == 7 else {}
        return {'schema': spec, 'value': value, 'mode': mode, 'strict': strict, 'config': config}

    return st.Strategy(go)


def check(case, rec):
    spec, mode = case['schema'], case['mode']
    s = St(mode, case['strict'], case['config'])
    value, again = specs.twice(case['value'])
    want = outcome(spec, value, s)
    v = SchemaValidator(compose.build(spec), core_schema.CoreConfig(**case['config']) if case['config'] else None)
    got = actual(v, again, s)
    rec.label(spec['type'], want[0])
    if want[0] == 'err':
        rec.nontrivial(any(e['loc'] or e['type'].startswith('too_') for e in want[1]))
    elif want[0] == 'ok':
        rec.nontrivial(isinstance(want[1], (list, tuple, set, frozenset, dict)) and len(want[1]) > 0)
    ensure(same_outcome(got, want), 'the outcome is not the one composed from the parts', got, want)


def gen_strategy(mode):
    def go(s):
        spec = {'type': 'generator', **specs.bounds(s)}
        if s.draw(5):
            spec['items_schema'] = specs.container_spec(s, mode, s.draw(2))
        value = specs.value_for(s, spec, mode, noise=10)
        return {'schema': spec, 'value': value, 'mode': mode, 'strict': [None, None, True][s.draw(3)]}

    return st.Strategy(go)


def check_generator(case, rec):
    spec, mode = case['schema'], case['mode']
    s = St(mode, case['strict'])
    v = SchemaValidator(compose.build(spec))
    value, value2 = specs.twice(case['value'])
    lo, hi = spec.get('min_length'), spec.get('max_length')
    items_schema = spec.get('items_schema') or {'type': 'any'}
    got = actual(v, value, s)
    try:
        if mode == 'json' and not isinstance(value2, (list, str)) and not (isinstance(value2, dict)):
            raise TypeError
        source = iter(value2)
    except TypeError:
        ensure(got[0] == 'err' and [e['type'] for e in got[1]] == ['iterable_type'], 'a non-iterable was accepted', got)
        return
    ensure(got[0] == 'ok', 'an iterable was refused', got)
    if mode == 'json' and isinstance(value2, dict):
        raise Skip
    out = got[1]
    ensure(iter(out) is out, 'iter() of the result is another object')
    n = 0
    while True:
        ensure(out.index == n, 'index is not the number of items consumed', out.index, n)
        # what the next step should be
        try:
            has, item = True, next(source)
        except StopIteration:
            has, item = False, None
        except RuntimeError as e:
            try:
                next(out)
            except RuntimeError as e2:
                ensure(str(e2) == str(e), 'another error than that of the iterator', e2)
                rec.label('broken iterator')
                return
            ensure(False, 'the error of the iterator was lost')
        step = None
        if not has:
            if lo is not None and n < lo:
                step = ('err', [compose.err('too_short', value, field_type='Generator', min_length=lo, actual_length=n)])
            else:
                step = ('stop', None)
        elif hi is not None and n >= hi:
            step = ('err', [compose.err('too_long', value, field_type='Generator', max_length=hi, actual_length=None)])
        else:
            step = outcome(items_schema, item, s)
            if step[0] == 'err':
                step = ('err', compose.prefix(step[1], n))
            if step[0] == 'omit':
                raise Skip
        try:
            real = ('ok', next(out))
        except StopIteration:
            real = ('stop', None)
        except ValidationError as e:
            real = ('err', compose.line_errors(e))
        if has:
            n += 1
            rec.nontrivial()
        if step[0] == 'err' and step[1][0]['type'].startswith('too_') and not step[1][0]['loc']:
            rec.label(step[1][0]['type'])
            ensure(real[0] == 'err' and len(real[1]) == 1 and real[1][0]['type'] == step[1][0]['type']
                   and real[1][0]['ctx'] == step[1][0]['ctx'], 'the bound was not applied at this step', real, step)
            return
        ensure(same_outcome(real, step), 'a step of the generator is not the validated item', n, real, step)
        rec.label(step[0])
        if step[0] == 'stop':
            return


TESTS = [
    Test('python', lambda: case_strategy('python'), check, 200000, 6000000),
    Test('json', lambda: case_strategy('json'), check, 120000, 3000000),
    Test('strings', lambda: case_strategy('strings'), check, 32000, 600000),
    Test('generator', lambda: gen_strategy('python'), check_generator, 60000, 1200000),
    Test('generator-json', lambda: gen_strategy('json'), check_generator, 30000, 600000),
]
