"""C14: functions are called with what is promised, when it is promised, and their answers and errors are used."""

from __future__ import annotations

import gen as st
import lib
import specs
from core import Test, ensure
from lib import SchemaValidator, ValidationError
from models import compose, functions
from models.compose import Bad, St, actual, outcome, same_outcome

from . import c12

RULE = 'non-trivial: at least one function or default factory was called'
ASSUMPTIONS = [
    'leaf validators are asked of the implementation itself, one leaf at a time (their own meaning is C01-C03)',
    'unspecified and excluded: PydanticOmit / PydanticUseDefault raised through the handler of a wrap function, and exceptions that are no '
    'validation errors inside of custom-error or on_error',
]


def strategy(mode, spec_fn):
    def go(s):
        spec = spec_fn(s, mode, 1 + s.draw(3), functions.tree)
        case = {'schema': spec, 'value': specs.value_for(s, spec, mode, [8, 20, 0][s.draw(3)]), 'mode': mode}
        k = s.draw(12)
        if k == 11:
            case['strict'] = bool(s.draw(2))
        elif k == 10:
            case['context'] = {'ctx': 1}
        elif k == 9 and mode == 'python':
            case['from_attributes'] = bool(s.draw(2))
        elif k == 8:
            case['by_name'] = True
        return case

    return st.Strategy(go)


def logged(f, *args):
    lib.LOG.clear()
    out = f(*args)
    return out, list(lib.LOG)


def check(case, rec):
    spec, mode = case['schema'], case['mode']
    s = St(mode, case.get('strict'), **{k: case.get(k) for k in ('from_attributes', 'by_name', 'context')})
    value, again = specs.twice(case['value'])
    v = SchemaValidator(compose.build(spec))  # (builds defaults and titles)
    murky = compose.MURKY[0]
    want, calls = logged(outcome, spec, value, s)
    clear = murky == compose.MURKY[0]
    if want[0] == 'boom' and not clear:
        raise lib.Skip  # perhaps a union would not have got that far
    got, got_calls = logged(actual, v, again, s)
    rec.label(spec['type'], want[0])
    rec.nontrivial(bool(calls))
    ensure(same_outcome(got, want), 'the outcome is not the one the functions give', got, want, calls)
    if clear:
        ensure(got_calls == calls, 'the functions were not called with what they are to be called with', got_calls, calls)



def assignment_strategy():
    def go(s):
        spec = functions.model_spec(s)
        model = base_of(spec)
        names = c12.field_names(model)
        value = specs.value_for(s, model, 'python', 0)
        steps = []
        for _ in range(1 + s.draw(3)):
            name = specs.pick(s, names) if names and s.draw(6) else specs.pick(s, ['zz', 'a', 'root'])
            sub = c12.field_schema(model, name)
            steps.append((name, specs.value_for(s, sub, 'python', 8) if sub else 1))
        case = {'schema': spec, 'value': value, 'steps': steps}
        if s.draw(8) == 7:
            case['context'] = {'ctx': 1}
        return case

    return st.Strategy(go)


def base_of(spec):
    return base_of(spec['schema']) if spec['type'].startswith('function-') else spec


def assignment(f, *args):
    try:
        return 'ok', f(*args)
    except Bad as e:
        return 'err', e.errors
    except ValidationError as e:
        return 'err', compose.line_errors(e)
    except lib.Boom:
        return 'boom', None
    except (compose.Omitted, compose.UseDefault):
        raise lib.Skip from None


def check_assignment(case, rec):
    spec = case['schema']
    model = base_of(spec)
    if not specs.literal_only(case['steps']) or not specs.literal_only(case['value']):
        raise lib.Skip
    value, again = specs.twice(case['value'])
    s = St('python', context=case.get('context'))
    v = SchemaValidator(compose.build(spec))
    want, got = outcome(model, value, s), actual(SchemaValidator(compose.build(model)), again, s)
    if want[0] != 'ok' or not same_outcome(got, want) or not c12.consistent(model, want[1]) or want[1] is value:
        raise lib.Skip  # (C12 and the other tests see to it)
    ref, real = want[1], got[1]
    kw = {'context': case['context']} if 'context' in case else {}
    for name, x in case['steps']:
        a, b = specs.twice(x)
        murky = compose.MURKY[0]
        want, calls = logged(assignment, functions.assign, spec, ref, name, a, s.but(field_name=name))
        clear = murky == compose.MURKY[0]
        got, got_calls = logged(assignment, lambda: v.validate_assignment(real, name, b, **kw))
        rec.label(spec['type'], want[0])
        rec.nontrivial(bool(calls))
        ensure(want[0] == got[0], 'the outcome is not the one the functions give', got, want, calls)
        if want[0] == 'ok':
            ensure((want[1] is ref) == (got[1] is real), 'the instance itself is the answer or not', got, want)
            ensure(lib.snap(want[1]) == lib.snap(got[1]), 'the answer', got, want)
        else:
            ensure(same_outcome(got, want), 'the errors are not the ones the functions give', got, want, calls)
        ensure(lib.same(c12.state(real), c12.state(ref)), 'the state of the instance', real, ref, calls)
        if clear:
            ensure(got_calls == calls, 'the functions were not called with what they are to be called with', got_calls, calls)


TESTS = [Test('assignment', assignment_strategy, check_assignment, 40000, 1500000)]
for _m, _q in [('python', 60000), ('json', 40000), ('strings', 16000)]:
    TESTS += [
        Test(f'wrappers-{_m}', lambda m=_m: strategy(m, functions.wrapper_spec), check, _q, _q * 40),
        Test(f'trees-{_m}', lambda m=_m: strategy(m, lambda s, mode, d, sub: functions.tree(s, mode, d + 1)), check, _q, _q * 40),
    ]
