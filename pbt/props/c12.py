"""C12: instances of models and dataclasses over their whole life: construction, assignment, revalidation, re-initialisation."""

import copy

import gen as st
import lib
import pydantic_core as pc
import specs
from core import Test, X
from lib import Skip, ValidationError, ensure, mk, same
from models import compose, fields
from models.compose import Bad, Omitted, St, actual, line_errors, outcome, same_errors, same_outcome
from pydantic_core import SchemaValidator

RULE = ('histories: at least one instance was made and at least one later step changed or refused to change an instance; '
        'instances: the input was an instance of some model or dataclass class')
ASSUMPTIONS = ['leaf validators are asked of the implementation itself, one leaf at a time (their own meaning is C01-C03)']


def leaf_sub(s, mode, depth):
    return specs.container_spec(s, mode, 1) if s.draw(3) else specs.leaf_spec(s)


def instance_spec(s, mode):
    kind = fields.model_spec if s.draw(3) else fields.dataclass_spec
    spec = kind(s, mode, 1, leaf_sub)
    if spec['type'] == 'model' and not spec.get('root_model') and not spec['schema']['fields']:
        spec['schema']['fields']['a'] = {'type': 'model-field', 'schema': specs.leaf_spec(s)}
    if s.draw(10) == 9:
        spec['frozen'] = True
    inner = spec['schema']
    if 'fields' in inner:
        for f in inner['fields'].values() if isinstance(inner['fields'], dict) else inner['fields']:
            if s.draw(8) == 7:
                f['frozen'] = True
    return spec


def field_names(spec):
    if spec.get('root_model'):
        return ['root']
    f = spec['schema']['fields']
    return list(f) if isinstance(f, dict) else [x['name'] for x in f]


def field_schema(spec, name):
    if spec.get('root_model'):
        return spec['schema']
    f = spec['schema']['fields']
    if isinstance(f, dict):
        return f[name]['schema'] if name in f else None
    return next((x['schema'] for x in f if x['name'] == name), None)


# --------------------------------------------------------------------------------------------------------- histories
def history_strategy():
    def go(s):
        spec = instance_spec(s, 'python')
        names = field_names(spec)
        ops = []
        for _ in range(2 + s.draw(6)):
            k = s.draw(12) if ops else 0
            which = s.draw(3)
            if k == 0 or (k == 1 and len(ops) < 2):
                ops.append(('make', specs.value_for(s, spec, 'python', 0 if s.draw(4) else 60)))
            elif k < 8:
                name = pick(s, names) if s.draw(6) else pick(s, ['extra1', 'zz', 'a', 'root', 'x'])
                sub = field_schema(spec, name)
                v = specs.value_for(s, sub, 'python', 5) if sub else fields.lib_value(s, 'python')
                flags = {'strict': bool(s.draw(2))} if s.draw(8) == 7 else {}
                ops.append(('assign', which, name, v, flags))
            elif k < 10:
                ops.append(('again', which, specs.pick(s, ['always', 'never', 'subclass-instances'])))
            elif k == 10:
                ops.append(('init', which, specs.value_for(s, spec, 'python', 60)))
            else:
                ops.append(('poke', which, pick(s, names), fields.lib_value(s, 'python')))
        return {'schema': spec, 'ops': ops}

    return st.Strategy(go)


pick = specs.pick


def consistent(spec, obj):
    """Looks like what the schema makes: __pydantic_extra__ is a dict where extra fields are allowed, otherwise None."""
    if not isinstance(obj, lib.ModelBase) or spec.get('root_model'):
        return True
    inner = spec['schema']
    behaviour = inner.get('extra_behavior') or (spec.get('config') or {}).get('extra_fields_behavior')
    return isinstance(obj.__pydantic_extra__, dict) == (behaviour == 'allow')


def clone(obj):
    """The model's own copy of an instance, for the reference; field values are shared, they are never changed."""
    if isinstance(obj, lib.ModelBase):
        m = type(obj).__new__(type(obj))
        m.__dict__.update(obj.__dict__)
        for k in ('__pydantic_fields_set__', '__pydantic_extra__', '__pydantic_private__'):
            try:
                setattr(m, k, copy.copy(getattr(obj, k)))
            except AttributeError:
                pass
        return m
    m = type(obj).__new__(type(obj))
    for k in lib.DC_FIELDS[type(obj).__name__]:
        try:
            object.__setattr__(m, k, getattr(obj, k))
        except AttributeError:
            pass
    if hasattr(obj, '__dict__'):
        m.__dict__.clear()
        m.__dict__.update(obj.__dict__)
    return m


def state(obj):
    if not isinstance(obj, lib.ModelBase):
        return lib._dc_state(obj)
    fields_, set_, extra, private = lib.model_state(obj)
    return fields_, set_, {k: extra[k] for k in sorted(extra)} if isinstance(extra, dict) else extra, private


def check_history(case, rec):
    spec = case['schema']
    if not specs.literal_only(case['ops']):
        raise Skip
    v = SchemaValidator(compose.build(spec))
    by_policy = {p: SchemaValidator(compose.build({**spec, 'revalidate_instances': p})) for p in ('always', 'never', 'subclass-instances')}
    cls = mk(spec['cls'])
    real: list = []  # the instances
    ref: list = []  # what they should be
    changed = 0
    for op in case['ops']:
        if op[0] in ('make', 'again'):
            s = St('python')
            if op[0] == 'make':
                sch, val = spec, v
                a, b = specs.twice(op[1])
                if isinstance(a, (lib.ModelBase, lib.DcBase)):
                    a, b = mk(op[1]), mk(op[1])
            else:
                if not real:
                    continue
                i = op[1] % len(real)
                sch, val = {**spec, 'revalidate_instances': op[2]}, by_policy[op[2]]
                a, b = ref[i], real[i]
            want, got = outcome(sch, a, s), actual(val, b, s)
            ensure(same_outcome(got, want), f'{op[0]}: the outcome is not the expected one', got, want)
            if want[0] == 'ok':
                ensure((got[1] is b) == (want[1] is a), f'{op[0]}: a new instance or the old one', op)
                if isinstance(want[1], cls) and type(got[1]) is cls:
                    if want[1] is a and op[0] == 'again':
                        pass
                    elif consistent(spec, got[1]):
                        real.append(got[1])
                        ref.append(want[1])
                if op[0] == 'again':
                    rec.label('revalidated' if want[1] is not a else 'kept')
                    changed += 1
            elif op[0] == 'again':
                changed += 1
                rec.label('refused again')
        elif not real:
            continue
        elif op[0] == 'assign':
            _, which, name, value, flags = op
            i = which % len(real)
            a, b = specs.twice(value)
            trial = clone(ref[i])
            errors = None
            try:
                fields.assign(spec, trial, name, a, St('python', flags.get('strict')))
            except Bad as e:
                errors = e.errors
            except Omitted:
                raise Skip from None
            try:
                out = v.validate_assignment(real[i], name, b, **flags)
            except ValidationError as e:
                ensure(errors is not None and same_errors(line_errors(e), errors), 'assignment refused', line_errors(e), errors, op)
                rec.label(*{x['type'] for x in errors} & {'frozen_instance', 'frozen_field', 'no_such_attribute'}, 'assignment refused')
            else:
                ensure(errors is None, 'assignment accepted', real[i], errors, op)
                ensure(out is real[i], 'assignment returned something else than the instance', out)
                ref[i] = trial
                rec.label('assigned')
            changed += 1
        elif op[0] == 'init':
            i = op[1] % len(real)
            a, b = specs.twice(op[2])
            sch = {**spec, 'revalidate_instances': 'never'}
            if isinstance(a, (lib.ModelBase, lib.DcBase)):
                continue
            want = outcome({**sch, 'strict': False} if spec['type'] == 'dataclass' else sch, a, St('python'))
            if spec['type'] == 'dataclass' and (spec.get('strict') or (spec.get('config') or {}).get('strict')):
                raise Skip
            if want[0] == 'omit':
                raise Skip
            fresh = cls.__new__(cls)
            try:
                out = v.validate_python(b, self_instance=fresh)
            except ValidationError as e:
                ensure(want[0] == 'err' and same_errors(line_errors(e), want[1]), 'initialisation refused', line_errors(e), want)
                rec.label('init refused')
            else:
                ensure(want[0] == 'ok', 'initialisation accepted', out, want)
                ensure(out is fresh, 'initialisation returned something else than the instance', out)
                ensure(same(state(out), state(want[1])), 'initialisation', out, want[1])
                real.append(out)
                ref.append(want[1])
                rec.label('init')
        elif op[0] == 'poke':
            i = op[1] % len(real)
            x = mk(op[3])
            for obj in (real[i], ref[i]):
                object.__setattr__(obj, op[2], x)
                if isinstance(obj, lib.ModelBase):
                    obj.__pydantic_fields_set__.add('poked')
        for r, w in zip(real, ref):
            ensure(same(state(r), state(w)), f'state of an instance after {op[0]}', state(r), state(w), op)
    rec.nontrivial(real and changed)


# --------------------------------------------------------------------------------------------------------- instances
def instance_strategy():
    def go(s):
        spec = instance_spec(s, 'python')
        spec['revalidate_instances'] = pick(s, ['always', 'subclass-instances', 'never', 'always'])
        if spec['type'] == 'model':
            if spec.get('root_model'):
                value = X('inst', pick(s, ['M0', 'M1', 'M2']), {'root': specs.value_for(s, spec['schema'], 'python')})
            else:
                d = {n: specs.value_for(s, f['schema'], 'python') for n, f in spec['schema']['fields'].items() if s.draw(5)}
                extra = {k: fields.lib_value(s, 'python') for k in ('e1', 'e2', 'A', 'a') if s.draw(4) == 3} if s.draw(2) else None
                value = X('inst', pick(s, ['M0', 'M1', 'M2', 'M3']), d, [k for k in d if s.draw(2)], extra)
        else:
            cls = pick(s, [spec['cls'].args[0], 'D0', 'D1', 'D3'])
            by = {f['name']: f['schema'] for f in spec['schema']['fields']}
            value = X('dci', cls, {n: specs.value_for(s, by.get(n, {'type': 'any'}), 'python') for n in lib.DC_FIELDS[cls]})
        wrap = s.draw(4)
        if wrap == 2:
            return {'schema': {'type': 'list', 'items_schema': spec}, 'value': [value, value], 'strict': [None, True, False][s.draw(3)]}
        if wrap == 3:
            return {'schema': {'type': 'nullable', 'schema': spec}, 'value': value, 'strict': [None, True][s.draw(2)]}
        return {'schema': spec, 'value': value, 'strict': [None, None, True, False][s.draw(4)],
                **({'context': {'k': 1}} if s.draw(4) == 3 else {})}

    return st.Strategy(go)


def check_instance(case, rec):
    if not specs.literal_only(case['value']):
        raise Skip
    s = St('python', case.get('strict'), {}, context=case.get('context'))
    if specs.has_set(case['value']):
        raise Skip
    a, b = mk(case['value']), mk(case['value'])
    before = mk(case['value'])
    want = outcome(case['schema'], a, s)
    got = actual(SchemaValidator(compose.build(case['schema'])), b, s)
    rec.nontrivial()
    rec.label(want[0])
    ensure(same_outcome(got, want), 'the outcome is not the expected one', got, want)
    ensure(same(b, before), 'the input instance was changed', b, before)
    if want[0] == 'ok' and isinstance(b, (lib.ModelBase, lib.DcBase)):
        ensure((got[1] is b) == (want[1] is a), 'a new instance or the old one', got[1])
        rec.label('same' if got[1] is b else 'new')
        if isinstance(b, lib.ModelBase) and got[1] is not b:
            ensure(got[1].__pydantic_fields_set__ is not b.__pydantic_fields_set__, 'two instances share their fields_set')
            x = b.__pydantic_extra__
            ensure(x is None or got[1].__pydantic_extra__ is not x, 'two instances share their extra')
            ensure(got[1].__dict__ is not b.__dict__, 'two instances share their __dict__')


# ------------------------------------------------------------------------------------------------------- custom init
def init_strategy(mode):
    def go(s):
        spec = fields.model_spec(s, mode, 1, leaf_sub)
        spec['cls'] = X('class', 'MI')
        spec.pop('generic_origin', None)
        value = specs.value_for(s, spec, mode)
        return {'schema': spec, 'value': value, 'mode': mode, 'outer': s.draw(3)}

    return st.Strategy(go)


def check_init(case, rec):
    """A class whose own __init__ is called is filled in just as one whose instances are made directly."""
    spec, mode = case['schema'], case['mode']
    s = St(mode)
    if spec.get('post_init'):
        s.context = None
    lib.MI.validator = SchemaValidator(compose.build(spec))
    lib.MI.calls = 0
    a, b = specs.twice(case['value'])
    custom = {**spec, 'custom_init': True}
    n = None
    if case['outer'] == 1:
        spec, custom = {'type': 'list', 'items_schema': spec}, {'type': 'list', 'items_schema': custom}
        a, b = [a], [b]
    elif case['outer'] == 2:
        spec, custom = [{'type': 'nullable', 'schema': x} for x in (spec, custom)]
    inner_value = a[0] if case['outer'] == 1 else a
    if isinstance(inner_value, dict):
        if type(inner_value) is not dict or not all(type(k) is str and k != 'self' for k in inner_value):
            raise Skip
        if case['schema'].get('root_model'):
            raise Skip
        n = 1
        s.mode = 'python'  # the arguments of __init__ are Python objects
    want = outcome(spec, a, s)
    got = actual(SchemaValidator(compose.build(custom)), b, St(mode))
    ensure(same_outcome(got, want), 'the outcome is not the expected one', got, want)
    if n is not None:
        rec.nontrivial()
        ensure(lib.MI.calls == 1, '__init__ was not called once', lib.MI.calls)
    rec.label(want[0])


TESTS = [
    Test('histories', history_strategy, check_history, 60000, 2500000),
    Test('instances', instance_strategy, check_instance, 60000, 2000000),
    Test('custom-init', lambda: init_strategy('python'), check_init, 20000, 600000),
    Test('custom-init-json', lambda: init_strategy('json'), check_init, 10000, 300000),
]
