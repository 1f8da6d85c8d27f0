"""C11: fields are found under exactly the names the schema gives them, and errors point at where they were looked for."""

import json

import gen as st
import specs
from core import Test
from lib import ensure
from models import compose, fields
from models.compose import St, actual, outcome, same_outcome
from pydantic_core import SchemaError, SchemaValidator

RULE = ('a case counts when the schema has at least one field and the input reached the lookup (a mapping, attributes, '
        'arguments: the expected outcome is a value, or an error at a field)')
ASSUMPTIONS = ['leaf validators are asked of the implementation itself, one leaf at a time (their own meaning is C01-C03)']


def case_strategy(mode, kind):
    def go(s):
        depth = 1 + (s.draw(4) == 3)
        spec = kind(s, mode, depth, leaf_sub)
        value = specs.value_for(s, spec, mode, noise=[8, 8, 30, 0][s.draw(4)])
        case = {'schema': spec, 'value': value, 'mode': mode}
        k = s.draw(8)
        if k == 1:
            case['by_name'] = True
        elif k == 2:
            case.update(by_name=True, by_alias=False)
        elif k == 3:
            case['by_alias'] = True
        elif k == 4 and mode == 'python':
            case['from_attributes'] = bool(s.draw(4))
        elif k == 5:
            case['strict'] = bool(s.draw(2))
        return case

    return st.Strategy(go)


def repeated_strategy():
    """Objects of JSON in which a key that is looked up comes more than once: the last one counts."""

    def go(s):
        kind = specs.pick(s, ['typed-dict', 'model', 'dataclass'])
        spec = KINDS[kind](s, 'json', 1, leaf_sub)
        inner = spec if kind == 'typed-dict' else spec['schema']
        for k in ('extra_behavior', 'extras_schema', 'extras_keys_schema'):
            inner.pop(k, None)
        spec.get('config', {}).pop('extra_fields_behavior', None)
        value = specs.value_for(s, spec, 'json', noise=[8, 30, 0][s.draw(3)])
        case = {'schema': spec, 'value': value, 'mode': 'json', 'again': []}
        if isinstance(value, dict) and not spec.get('root_model'):
            fs = inner['fields'].items() if isinstance(inner['fields'], dict) else [(f['name'], f) for f in inner['fields']]
            paths = [p for n, f in fs for p in [[n]] + (fields.alias_paths(f['validation_alias']) if 'validation_alias' in f else [])]
            for _ in range(1 + s.draw(2)):
                if not paths:
                    break
                p = specs.pick(s, paths)
                if len(p) == 1 or s.draw(2):
                    case['again'].append(((), p[0], specs.JSON_ANY.do(s)))
                elif isinstance(p[1], str) and not any(q[0] == p[0] and len(q) == 1 for q in paths) and isinstance(value.get(p[0]), dict):
                    case['again'].append((p[0], p[1], specs.JSON_ANY.do(s)))
        if s.draw(4) == 3:
            case['by_name'] = True
        return case

    return st.Strategy(go)


def text_of(value, again):
    def of(x, where):
        if not isinstance(x, dict):
            return json.dumps(x)
        items = [f'{json.dumps(k)}: {json.dumps(v)}' for at, k, v in again if at == where and k in x]
        items += [f'{json.dumps(k)}: {of(v, k) if where == () else json.dumps(v)}' for k, v in x.items()]
        return '{' + ', '.join(items) + '}'

    return of(value, ())


def check_repeated(case, rec):
    s = St('json', by_name=case.get('by_name'))
    text = text_of(case['value'], case['again'])
    want = outcome(case['schema'], json.loads(text), s)
    got = actual(SchemaValidator(compose.build(case['schema'])), None, s, text)
    rec.label(case['schema']['type'], want[0])
    rec.nontrivial(text.count(':') > json.dumps(case['value']).count(':'))
    ensure(same_outcome(got, want), 'the outcome is not the one of the last of equal keys', got, want, text)


def leaf_sub(s, mode, depth):
    return specs.container_spec(s, mode, max(0, depth)) if s.draw(3) else specs.leaf_spec(s)


def check(case, rec):
    spec, mode = case['schema'], case['mode']
    s = St(mode, case.get('strict'), {}, **{k: case.get(k) for k in ('by_name', 'by_alias', 'from_attributes')}, context=case.get('context'))
    value, again = specs.twice(case['value'])
    want = outcome(spec, value, s)
    v = SchemaValidator(compose.build(spec))
    got = actual(v, again, s)
    rec.label(spec['type'], want[0])
    if want[0] == 'err':
        rec.nontrivial(any(e['loc'] for e in want[1]))
        rec.label(*{e['type'] for e in want[1]} & {'missing', 'extra_forbidden', 'invalid_key', 'get_attribute_error',
                                                   'multiple_argument_values', 'unexpected_positional_argument'})
    else:
        rec.nontrivial('fields' in spec and spec['fields'] or 'schema' in spec)
    ensure(same_outcome(got, want), 'the outcome is not the one of looking the fields up', got, want)


TESTS = []
KINDS = {'typed-dict': fields.typed_dict_spec, 'model': fields.model_spec, 'dataclass': fields.dataclass_spec,
         'tree': lambda s, mode, depth, sub: fields.object_spec(s, mode, 3)}
for _k, _m, _q in [
    ('typed-dict', 'python', 60000), ('typed-dict', 'json', 40000), ('typed-dict', 'strings', 16000),
    ('model', 'python', 80000), ('model', 'json', 40000), ('model', 'strings', 16000),
    ('dataclass', 'python', 60000), ('dataclass', 'json', 30000), ('dataclass', 'strings', 16000),
    ('tree', 'python', 40000), ('tree', 'json', 20000),
]:
    TESTS.append(Test(f'{_k}-{_m}', lambda k=_k, m=_m: case_strategy(m, KINDS[k]), check, _q, _q * 40))
TESTS.append(Test('repeated-json', repeated_strategy, check_repeated, 20000, 400000))
