bug('s01', 'C01', [('src/input/shared.rs', "(i64::MIN as f64) < float && float < (i64::MAX as f64)", "(i64::MIN as f64) < float && float <= (i64::MAX as f64)")],
    '''
from pydantic_core import SchemaValidator, ValidationError
v = SchemaValidator({'type': 'int'})
try:
    r = v.validate_python(float(2**63))
except ValidationError as e:
    assert e.errors()[0]['type'] == 'int_parsing_size'
else:
    assert r == 2**63, r
''', 'the float 2**63 exactly, given to an int schema', 'a float of 2**63 saturates to 2**63-1 instead of being refused')

bug('s02', 'C01', [('src/input/shared.rs', "denominator.extract::<i64>().map_or(true, |d| d != 1)", "denominator.extract::<i64>().is_ok_and(|d| d != 1)")],
    '''
from decimal import Decimal
from pydantic_core import SchemaValidator, ValidationError
v = SchemaValidator({'type': 'int'})
for d in ('1E-25', '-12345678901234567890.00000000000000000000001'):
    try:
        r = v.validate_python(Decimal(d))
    except ValidationError as e:
        assert e.errors()[0]['type'] == 'int_from_float'
    else:
        raise SystemExit(f'{d} became {r}')
''', 'a Decimal whose denominator does not fit 64 bits', 'tiny fractions are accepted as ints, with the numerator as the value')

bug('s03', 'C02', [('src/validators/decimal.rs', "        decimals = exponent.unsigned_abs();\n        digits = digits.max(decimals);", "        decimals = exponent.unsigned_abs();\n        if digits < 2 {\n            digits = digits.max(decimals);\n        }")],
    '''
from decimal import Decimal
from pydantic_core import SchemaValidator, ValidationError
v = SchemaValidator({'type': 'decimal', 'max_digits': 4})
for d in ('0.00012', '0.000123'):
    try:
        v.validate_python(Decimal(d))
    except ValidationError:
        pass
    else:
        raise SystemExit(f'{d} accepted with max_digits=4')
''', 'max_digits without decimal_places and a value with several digits after leading fractional zeros', 'leading zeros of a fraction are not counted as digits when there is more than one significant digit')

bug('s04', 'C03', [('src/input/datetime.rs', "    let seconds = total_seconds as u64 % 86400;\n    Duration::new(positive, days, seconds as u32, microsecond.round() as u32)\n        .map_err(|err| map_timedelta_err(input, err))", "    let seconds = total_seconds as u32 % 86400;\n    Duration::new(positive, days, seconds, microsecond.round() as u32)\n        .map_err(|err| map_timedelta_err(input, err))")],
    '''
import datetime as dt
from pydantic_core import SchemaValidator
v = SchemaValidator({'type': 'timedelta'})
for s in (5_000_000_000.0, -4294967297.5):
    assert v.validate_python(s) == dt.timedelta(seconds=s), (s, v.validate_python(s))
''', 'a float of more than 2**32 seconds given to a timedelta schema', 'the seconds within the day of large float durations are wrong')

bug('s05', 'C04', [('src/validators/tuple.rs', "                    let index = collection_iter.next_calls() - 1;", "                    let index = output.len() + errors.len();")],
    '''
from pydantic_core import SchemaValidator, ValidationError
v = SchemaValidator({'type': 'tuple', 'items_schema': [{'type': 'list', 'items_schema': {'type': 'int'}}, {'type': 'int'}, {'type': 'int'}]})
try:
    v.validate_python((['x', 'y'], 1))
except ValidationError as e:
    locs = [x['loc'] for x in e.errors()]
    assert locs == [(0, 0), (0, 1), (2,)], locs
''', 'a tuple that is too short and has an item with several errors (or an omitted one) before the missing one', 'the missing item is reported at a wrong index')

bug('s06', 'C04', [('src/input/return_enums.rs', "                if !is_last_partial {\n                    errors.extend(line_errors.into_iter().map(|err| err.with_outer_location(index)));\n                }\n            }\n            Err(ValError::Omit) => (),",
                    "                if !is_last_partial {\n                    errors.extend(line_errors.into_iter().map(|err| err.with_outer_location(index)));\n                }\n            }\n            Err(ValError::Omit) if max_length.is_some() => break,\n            Err(ValError::Omit) => (),")],
    '''
from pydantic_core import SchemaValidator
v = SchemaValidator({'type': 'set', 'max_length': 5, 'items_schema': {'type': 'default', 'schema': {'type': 'int'}, 'on_error': 'omit'}})
assert v.validate_python([1, 'x', 2]) == {1, 2}
''', 'a set with max_length whose items are omitted on error', 'items after an omitted one are dropped')

bug('s09', 'C23', [('src/serializers/type_serializers/nullable.rs', "        self.serializer.retry_with_lax_check()", "        matches!(self.serializer.as_ref(), CombinedSerializer::Model(_)) && self.serializer.retry_with_lax_check()")],
    '''
import warnings
from dataclasses import dataclass
from pydantic_core import SchemaSerializer, core_schema as cs
warnings.simplefilter('error')
@dataclass
class A:
    a: int
@dataclass
class B(A):
    b: int
dc = cs.dataclass_schema(A, cs.dataclass_args_schema('A', [cs.dataclass_field('a', cs.int_schema())]), ['a'])
s = SchemaSerializer(cs.union_schema([cs.str_schema(), cs.nullable_schema(dc)]))
assert s.to_python(B(1, 2)) == {'a': 1}, s.to_python(B(1, 2))
''', 'a union with a nullable member that is not a model and a value which fits it only leniently (subclass instance)', 'the member is not tried leniently, so a subclass instance is written with all its fields and a warning')

bug('s10', 'C24', [('src/serializers/type_serializers/function.rs', "                    exclude_none: extra.exclude_none,\n                    round_trip: extra.round_trip,\n                    field_name: Some(field_name.to_string()),", "                    exclude_none: extra.exclude_none || extra.exclude_unset,\n                    round_trip: extra.round_trip,\n                    field_name: Some(field_name.to_string()),")],
    '''
from pydantic_core import SchemaSerializer, core_schema as cs
class M:
    __slots__ = '__dict__', '__pydantic_fields_set__', '__pydantic_extra__', '__pydantic_private__'
    def f(self, v, info): return info.exclude_none
s = SchemaSerializer(cs.model_schema(M, cs.model_fields_schema({'a': cs.model_field(cs.int_schema(
    serialization=cs.plain_serializer_function_ser_schema(M.f, is_field_serializer=True, info_arg=True)))})))
m = M(); m.a = 1; m.__pydantic_fields_set__ = {'a'}
assert s.to_python(m, exclude_unset=True) == {'a': False}, s.to_python(m, exclude_unset=True)
''', 'a field serializer with info, called with exclude_unset', 'the info tells the function that None values are to be excluded')

bug('s11', 'C08', [('src/serializers/config.rs', "                let seconds: f64 = Self::total_seconds(&py_timedelta)?.extract()?;\n                Ok(seconds.to_string().into())", "                let seconds: f64 = Self::total_seconds(&py_timedelta)?.extract()?;\n                Ok((seconds as f32).to_string().into())")],
    '''
import datetime as dt
from pydantic_core import SchemaSerializer
s = SchemaSerializer({'type': 'dict', 'keys_schema': {'type': 'timedelta'}}, {'ser_json_timedelta': 'float'})
k = dt.timedelta(days=3000, microseconds=125000)
assert s.to_json({k: 1}) == b'{"259200000.125":1}', s.to_json({k: 1})
''', 'float mode, a duration used as a dict key, with more digits than a 32-bit float has', 'duration keys lose precision')

bug('s08', 'C10', [('src/serializers/fields.rs', "    pub fn get_key_json<'a>(&'a self, key_str: &'a str, extra: &Extra) -> Cow<'a, str> {\n        if extra.serialize_by_alias_or(self.serialize_by_alias) {", "    pub fn get_key_json<'a>(&'a self, key_str: &'a str, extra: &Extra) -> Cow<'a, str> {\n        if extra.by_alias == Some(true) || self.serialize_by_alias == Some(true) {")],
    '''
from pydantic_core import SchemaSerializer, core_schema as cs
s = SchemaSerializer(cs.typed_dict_schema({'a': cs.typed_dict_field(cs.int_schema(), serialization_alias='A')}), {'serialize_by_alias': True})
assert s.to_python({'a': 1}, by_alias=False) == {'a': 1}
assert s.to_json({'a': 1}, by_alias=False) == b'{"a":1}', s.to_json({'a': 1}, by_alias=False)
assert s.to_json({'a': 1}) == b'{"A":1}'
''', 'JSON output, by_alias=False at run time against serialize_by_alias=True in the config', 'the config wins over the by_alias argument in JSON')

bug('s14', 'C10', [('src/serializers/fields.rs', "                if extra.exclude_none && value.is_none() {\n                    continue;\n                }\n                let filter = self.filter.key_filter(&key, include, exclude).map_err(py_err_se_err)?;", "                if extra.exclude_none && value.is_none() && include.is_none() {\n                    continue;\n                }\n                let filter = self.filter.key_filter(&key, include, exclude).map_err(py_err_se_err)?;")],
    '''
from pydantic_core import SchemaSerializer, core_schema as cs
class M:
    __slots__ = '__dict__', '__pydantic_fields_set__', '__pydantic_extra__', '__pydantic_private__'
s = SchemaSerializer(cs.model_schema(M, cs.model_fields_schema({'a': cs.model_field(cs.int_schema())}, extra_behavior='allow'), extra_behavior='allow'))
m = M(); m.__dict__ = {'a': 1}; m.__pydantic_extra__ = {'x': None, 'y': 2}; m.__pydantic_fields_set__ = {'a', 'x', 'y'}
assert s.to_json(m, exclude_none=True, include={'a', 'x', 'y'}) == b'{"a":1,"y":2}', s.to_json(m, exclude_none=True, include={'a', 'x', 'y'})
''', 'JSON output of a model with a None extra, with exclude_none and an include', 'extras that are None are written although exclude_none is set')

bug('s12', 'C07', [('src/input/input_json.rs', "        match mode.deserialize_string(self) {\n            Ok(b) => Ok(ValidationMatch::strict(b)),", "        match mode.deserialize_string(self.trim_end_matches('=')) {\n            Ok(b) => Ok(ValidationMatch::strict(b)),")],
    '''
from pydantic_core import SchemaSerializer, SchemaValidator
schema, config = {'type': 'dict', 'keys_schema': {'type': 'bytes'}, 'values_schema': {'type': 'int'}}, {}
v, s = SchemaValidator(schema, config), SchemaSerializer(schema, config)
for x in ({b'a': 1}, {b'a=': 1}, {b'=': 2}):
    assert v.validate_json(s.to_json(x)) == x, v.validate_json(s.to_json(x))
''', 'a dict with bytes keys that end in "=" in JSON', 'the end of bytes keys is cut off')

bug('s07', 'C09', [('src/serializers/filter.rs', "                        Ok(Some((Some(inc_value), next_exclude)))", "                        Ok(Some((Some(inc_value), next_exclude.filter(|e| e.is_instance_of::<PySet>()))))")],
    '''
from pydantic_core import SchemaSerializer
s = SchemaSerializer({'type': 'any'})
v = [{'a': 1, 'secret': {'x': 1, 'y': 2}}]
got = s.to_python(v, include={0: {'a', 'secret'}}, exclude={0: {'secret': {'y'}}})
assert got == [{'a': 1, 'secret': {'x': 1}}], got
''', 'a nested include and a nested exclude (as a dict) for the same item', 'what a nested exclude leaves out is written when the same item has a nested include')

bug('s15', 'C11', [('src/lookup_key.rs', """                    let v: &JsonValue = match dict
                        .iter()
                        .rev()
                        .find_map""", """                    let v: &JsonValue = match dict
                        .iter()
                        .find_map""")],
    '''
from pydantic_core import SchemaValidator, core_schema as cs
v = SchemaValidator(cs.typed_dict_schema({'a': cs.typed_dict_field(cs.any_schema(), validation_alias=[['x', 0], ['y']])}))
assert v.validate_json('{"x": [1], "x": [2]}') == {'a': 2}, v.validate_json('{"x": [1], "x": [2]}')
''', 'a validation_alias with a path, and a JSON object which has its first key twice', 'a path is looked up in the first of two equal keys, all other fields take the last')

bug('s16', 'C12', [('src/validators/model.rs', "                        full_model_dict.into_any()\n                    };\n                    self.validate_construct(py, &inner_input, Some(&fields_set), state)", "                        full_model_dict.into_any()\n                    };\n                    self.validate_construct(py, &inner_input, (!force_revalidate).then_some(&fields_set), state)")],
    '''
from pydantic_core import SchemaValidator, core_schema as cs
class G:
    __slots__ = '__dict__', '__pydantic_fields_set__', '__pydantic_extra__', '__pydantic_private__'
class GInt(G): pass
f = cs.model_fields_schema({'a': cs.model_field(cs.with_default_schema(cs.int_schema(), default=1)), 'b': cs.model_field(cs.int_schema())})
g = SchemaValidator(cs.model_schema(G, f)).validate_python({'b': 2})
r = SchemaValidator(cs.model_schema(GInt, f, generic_origin=G)).validate_python(g)
assert type(r) is GInt and r.__pydantic_fields_set__ == {'b'}, r.__pydantic_fields_set__
''', 'an instance of the generic origin with a field that is not set', 'fields which were not set count as set after an instance of the generic origin is validated')

bug('s17', 'C13', [('src/validators/union.rs', "            if let Some(count) = fields_set_count {\n                state.add_fields_set(count);\n            }", "            if let Some(count) = fields_set_count {\n                state.fields_set_count = Some(count);\n            }")],
    '''
from pydantic_core import SchemaValidator, core_schema as cs
def td(*names, required=()):
    return cs.typed_dict_schema({n: cs.typed_dict_field(cs.any_schema(), required=n in required) for n in names})
inner = cs.union_schema([td('x', 'y'), cs.str_schema()])
one = cs.typed_dict_schema({'p': cs.typed_dict_field(inner), 'q': cs.typed_dict_field(td('z'))})
two = cs.typed_dict_schema({'p': cs.typed_dict_field(td('x')), 'q': cs.typed_dict_field(cs.union_schema([td('z'), cs.str_schema()]))})
r = SchemaValidator(cs.union_schema([two, one])).validate_python({'p': {'x': 1, 'y': 2}, 'q': {'z': 3}})
assert r == {'p': {'x': 1, 'y': 2}, 'q': {'z': 3}}, r
r = SchemaValidator(cs.tuple_schema([cs.union_schema([cs.tuple_schema([td('x', 'y'), cs.union_schema([td('x'), cs.int_schema()])]), cs.tuple_schema([td('x'), td('x', 'z')])])])).validate_python((({'x': 1, 'y': 2}, {'x': 1}),))
assert r == (({'x': 1, 'y': 2}, {'x': 1}),), r
''', 'a choice of a smart union in which a nested union comes after other models', 'the fields set before a nested union are forgotten, and the wrong choice wins')

bug('s18', 'C27', [('src/validators/with_default.rs', "let dft: Py<PyAny> = if self.copy_default {", "let dft: Py<PyAny> = if self.copy_default && !self.validate_default {")],
    '''
from pydantic_core import SchemaValidator, core_schema as cs
v = SchemaValidator(cs.typed_dict_schema({'a': cs.typed_dict_field(cs.with_default_schema(cs.is_instance_schema(list), default=[1], validate_default=True))}))
v.validate_python({})['a'].append(2)
assert v.validate_python({}) == {'a': [1]}, v.validate_python({})
''', 'a mutable default which is validated, by a schema that passes its input on', 'all results share one default object')

bug('s19', 'C26', [('src/validators/enum_.rs', "            if enum_value.is_instance(class)? {\n                return Ok(enum_value.into());\n            } else if !enum_value.is(&py.None()) {", "            if enum_value.is_instance(class)? {\n                return Ok(enum_value.into());\n            } else if enum_value.is_truthy()? {")],
    '''
import enum
from pydantic_core import SchemaValidator, ValidationError, core_schema as cs
class E(enum.Enum):
    a = 1
    @classmethod
    def _missing_(cls, value):
        return 0 if value == 'x' else None
v = SchemaValidator(cs.enum_schema(E, list(E), missing=E._missing_))
try:
    v.validate_python('x')
except TypeError as e:
    assert 'error in E._missing_' in str(e), e
except ValidationError as e:
    raise SystemExit(f'{e}')
''', 'a _missing_ that returns something falsy which is neither None nor a member', 'the error of _missing_ is taken for an invalid value')

bug('s21', 'C14', [('src/validators/generator.rs', "            validation_mode: extra.input_type,\n            hide_input_in_errors,\n            validation_error_cause,\n            cache_str: extra.cache_str,\n            by_alias: extra.by_alias,\n            by_name: extra.by_name,\n        }\n    }\n\n    pub fn validate_assignment", "            validation_mode: if extra.by_name.is_some() { InputType::Python } else { extra.input_type },\n            hide_input_in_errors,\n            validation_error_cause,\n            cache_str: extra.cache_str,\n            by_alias: extra.by_alias,\n            by_name: extra.by_name,\n        }\n    }\n\n    pub fn validate_assignment")],
    '''
from pydantic_core import SchemaValidator, core_schema as cs
seen = []
def inner(v, info):
    seen.append(info.mode)
    return v
def outer(v, handler):
    return handler(v)
v = SchemaValidator(cs.no_info_wrap_validator_function(outer, cs.with_info_after_validator_function(inner, cs.int_schema())))
v.validate_json('1')
v.validate_json('1', by_name=True)
v.validate_json('1', by_name=False)
assert seen == ['json'] * 3, seen
''', 'validate_json with an explicit by_name argument, through the handler of a wrap function', 'functions behind a handler are told that they validate Python input')

bug('s22', 'C16', [('src/validators/arguments_v3.rs', "                                                &parameter.name,\n                                            )\n                                        }));\n                                        i += 1;\n                                        Ok(())", "                                                &parameter.name,\n                                            )\n                                        }));\n                                        Ok(())")],
    '''
from pydantic_core import SchemaValidator, ValidationError, core_schema as cs
v = SchemaValidator(cs.arguments_v3_schema([cs.arguments_v3_parameter(name='args', schema=cs.int_schema(), mode='var_args')]))
try:
    v.validate_python({'args': [1, 'x', 'y']})
except ValidationError as e:
    locs = [x['loc'] for x in e.errors()]
    assert locs == [('args', 1), ('args', 2)], locs
''', 'arguments-v3 from a mapping with two invalid variadic arguments', 'the second invalid variadic argument is reported at the wrong index')

bug('s24', 'C18', [('src/lookup_key.rs', "            Self::S(PathItemString { key, .. }) => json_obj.iter().rev().find_map(|(k, v)| (k == key).then_some(v)),", "            Self::S(PathItemString { key, .. }) => json_obj.iter().find_map(|(k, v)| (k == key).then_some(v)),")],
    '''
from pydantic_core import SchemaValidator, core_schema as cs
v = SchemaValidator(cs.typed_dict_schema({'a': cs.typed_dict_field(cs.int_schema(), validation_alias=['x', 'y'])}))
assert v.validate_json('{"x": {"y": 1, "y": 2}}') == {'a': 2}
assert v.validate_json('{"x": {"y": 1}, "x": {"y": 2}}') == {'a': 2}
''', 'a repeated key inside a JSON object, found by an alias path', 'the first of the repeated keys is used')

bug('s25', 'C19', [('src/input/return_enums.rs', "        let item = item_result.map_err(|e| any_next_error!(py, e, input, index))?;\n        match validate_add(py, set, item, state, validator) {", "        let item = item_result.map_err(|e| any_next_error!(py, e, input, index))?;\n        state.allow_partial = allow_partial;\n        match validate_add(py, set, item, state, validator) {")],
    '''
from pydantic_core import SchemaValidator, ValidationError, core_schema as cs
v = SchemaValidator(cs.set_schema(cs.frozenset_schema(cs.int_schema())))
assert v.validate_python([[1], [2, 'x']], allow_partial=True) == {frozenset([1]), frozenset([2])}
try:
    r = v.validate_python([[1, 'x'], [2]], allow_partial=True)
except ValidationError as e:
    assert [x['loc'] for x in e.errors()] == [(0, 1)]
else:
    raise SystemExit(f'accepted as {r}')
''', 'a set of frozensets, with a faulty last item in one that is not the last', 'errors in the middle of the input are forgiven')

bug('s26', 'C19', [('src/validators/typed_dict.rs', "                                    self.state.allow_partial = match last_partial {\n                                        true => self.allow_partial,\n                                        false => false.into(),\n                                    };\n", "                                    self.state.allow_partial = self.allow_partial;\n")],
    '''
from pydantic_core import SchemaValidator, ValidationError, core_schema as cs
v = SchemaValidator(cs.typed_dict_schema({}, extra_behavior='allow', extras_schema=cs.list_schema(cs.int_schema())))
assert v.validate_python({'a': [1], 'b': [2, 'x']}, allow_partial=True) == {'a': [1], 'b': [2]}
try:
    r = v.validate_python({'a': [1, 'x'], 'b': [2]}, allow_partial=True)
except ValidationError as e:
    assert [x['loc'] for x in e.errors()] == [('a', 1)]
else:
    raise SystemExit(f'accepted as {r}')
''', 'a typed dict with extras_schema, and a faulty end in an extra which is not the last', 'errors in the middle of the input are forgiven')

bug('s28', 'C22', [('src/validators/url.rs', "            '/' | '?' | '#' => break,\n            ','", "            '/' | '?' => break,\n            ','")],
    '''
from pydantic_core import MultiHostUrl
u = MultiHostUrl('redis://a.com#x,b.com')
assert [h['host'] for h in u.hosts()] == ['a.com'] and u.fragment == 'x,b.com', (u, u.hosts())
''', 'a MultiHostUrl whose authority is followed by a fragment with a comma', 'what follows the comma in the fragment is taken for another host')

bug('s29', 'C15', [('src/errors/validation_exception.rs', "            borrow.input_type,\n            borrow.hide_input,\n", "            borrow.input_type,\n            borrow.hide_input && borrow.line_errors.len() == 1,\n")],
    '''
import copy, pickle
from pydantic_core import SchemaValidator, ValidationError, core_schema as cs
v = SchemaValidator(cs.list_schema(cs.int_schema()), {'hide_input_in_errors': True})
try:
    v.validate_python(['secret', 'other'])
except ValidationError as e:
    assert 'secret' not in str(e)
    assert str(copy.copy(e)) == str(e) and str(pickle.loads(pickle.dumps(e))) == str(e), str(copy.copy(e))
''', 'a report with hidden inputs and more than one error that is copied or pickled', 'the copy shows the hidden inputs')

bug('s30', 'C15', [('src/errors/validation_exception.rs', "            .render_message(py, *self.input_type)\n", "            .render_message(py, InputType::Json)\n")],
    '''
from pydantic_core import SchemaValidator, ValidationError, core_schema as cs
import json
v = SchemaValidator(cs.timedelta_schema())
try:
    v.validate_python(object())
except ValidationError as e:
    assert json.loads(e.json(include_input=False))[0]['msg'] == e.errors()[0]['msg']
''', 'json() of an error about Python input, of a type with another message for JSON input', 'json() tells another message than errors()')

bug('s31', 'C17', [('src/recursion_guard.rs', "for existing in data.iter() {", "for existing in data.iter().skip(1) {")],
    '''
from pydantic_core import SchemaValidator, ValidationError, core_schema as cs
v = SchemaValidator(cs.definitions_schema(cs.definition_reference_schema('L'), [cs.list_schema(cs.definition_reference_schema('L'), ref='L')]))
root = []
x = root
for _ in range(19):
    x.append([])
    x = x[0]
x.append(root)
try:
    v.validate_python(root)
except ValidationError as e:
    assert [(d['type'], d['loc']) for d in e.errors()] == [('recursion_loop', (0,) * 20)], [(d['type'], len(d['loc'])) for d in e.errors()]
''', 'a value that contains itself over more than 16 levels', 'the cycle is noticed only when it has been followed once more')

bug('s32', 'C17', [('src/serializers/type_serializers/definitions.rs', """            let mut guard = extra.recursion_guard(value, self.definition.id())?;
            comb_serializer.to_python""", """            let mut guard = extra.recursion_guard(value, 0)?;
            comb_serializer.to_python"""),
                   ('src/serializers/type_serializers/definitions.rs', ".recursion_guard(value, self.definition.id())\n", ".recursion_guard(value, 0)\n")],
    '''
from pydantic_core import SchemaSerializer, core_schema as cs
ref = cs.definition_reference_schema
s = SchemaSerializer(cs.definitions_schema(ref('A'), [cs.nullable_schema(ref('B'), ref='A'), cs.list_schema(ref('A'), ref='B')]))
assert s.to_python([[], None]) == [[], None]
assert s.to_json([[], None]) == b'[[],null]'
''', 'a definition that uses another one for the same value', 'the value is taken for one that contains itself')

bug('s33', 'C06', [('src/validators/decimal.rs', """                                let max_whole_digits = max_digits.saturating_sub(decimal_places);
""", """                                let max_whole_digits = max_digits - decimal_places;
""")],
    '''
from pydantic_core import SchemaValidator, ValidationError, core_schema as cs
v = SchemaValidator(cs.decimal_schema(max_digits=1, decimal_places=2))
assert not v.isinstance_python('0.123')
assert v.isinstance_python('0.0') in (True, False)
assert v.isinstance_python('0') in (True, False)
''', 'decimals with more places than digits in all', 'validation panics')

bug('s34', 'C06', [('src/input/input_python.rs', """                return if let Ok(py_str) = self.downcast::<PyString>() {
                    let str = py_string_str(py_str)?;
                    bytes_as_time(self,""", """                return if let Ok(py_str) = self.downcast::<PyString>() {
                    let str = py_str.to_str()?;
                    bytes_as_time(self,""")],
    '''
from pydantic_core import SchemaValidator, ValidationError, core_schema as cs
v = SchemaValidator(cs.time_schema())
try:
    v.validate_python('\\ud800')
except ValidationError:
    pass
''', 'a text with a lone surrogate for a time', 'a UnicodeEncodeError escapes instead of a ValidationError')

bug('s35', 'C27', [('src/serializers/filter.rs', "        dict.copy()\n", "        Ok(dict.clone())\n"),
                   ('src/serializers/filter.rs', "    let item_dict = item_dict.copy()?;\n", "    let item_dict = item_dict.clone();\n")],
    '''
from pydantic_core import SchemaSerializer, core_schema as cs
s = SchemaSerializer(cs.any_schema())
exclude = {0: {'a': True}, '__all__': {'b'}}
assert s.to_python([{'a': 1, 'b': 2, 'c': 3}], exclude=exclude) == [{'c': 3}]
assert exclude == {0: {'a': True}, '__all__': {'b'}}, exclude
''', 'include or exclude with a dict for an item and __all__', 'the dict of the caller is changed')

bug('s36', 'C27', [('src/validators/model.rs', "                        let full_model_dict = dict.downcast::<PyDict>()?.copy()?;\n", "                        let full_model_dict = dict.downcast_into::<PyDict>()?;\n")],
    '''
from pydantic_core import SchemaValidator, core_schema as cs
class M:
    __slots__ = '__dict__', '__pydantic_fields_set__', '__pydantic_extra__', '__pydantic_private__'
v = SchemaValidator(cs.model_schema(M, cs.model_fields_schema({'a': cs.model_field(cs.int_schema())}, extra_behavior='allow'), revalidate_instances='always'))
m = v.validate_python({'a': 1, 'b': 2})
n = v.validate_python(m)
assert n.__dict__ == {'a': 1} and m.__dict__ == {'a': 1}, m.__dict__
''', 'revalidation of an instance with extra attributes', 'the extra attributes are written to the fields of the instance given')

bug('s37', 'C21', [('src/serializers/mod.rs', "                Some(c) if !c.is_empty() => Some(c.clone().into()),", "                Some(c) if c.len() == 1 => Some(c.clone().into()),")],
    '''
import copy
from pydantic_core import SchemaSerializer, core_schema as cs
s = SchemaSerializer(cs.bytes_schema(), {'ser_json_bytes': 'hex', 'ser_json_timedelta': 'float'})
assert s.to_json(b'a') == copy.copy(s).to_json(b'a') == b'"61"', copy.copy(s).to_json(b'a')
''', 'a copy of a serializer with a config of several settings', 'the copy has got no config')

bug('s38', 'C21', [('src/common/prebuilt.rs', """    let is_complete: bool = class_dict
        .get_item(intern!(py, "__pydantic_complete__"))
        .is_ok_and(|b| b.extract().unwrap_or(false));
""", """    let is_complete: bool = class
        .getattr(intern!(py, "__pydantic_complete__"))
        .is_ok_and(|b| b.extract().unwrap_or(false));
"""), ('src/common/prebuilt.rs', "    let prebuilt: Bound<'_, PyAny> = class_dict.get_item(prebuilt_attr_name)?;\n", """    let prebuilt: Bound<'_, PyAny> = class_dict
        .get_item(prebuilt_attr_name)
        .or_else(|_| class.getattr(prebuilt_attr_name))?;
""")],
    '''
from pydantic_core import SchemaValidator, core_schema as cs
class A:
    __slots__ = '__dict__', '__pydantic_fields_set__', '__pydantic_extra__', '__pydantic_private__'
class B(A):
    __slots__ = ()
def schema(cls, t):
    return cs.model_schema(cls, cs.model_fields_schema({'a': cs.model_field(t)}))
A.__pydantic_validator__ = SchemaValidator(schema(A, cs.int_schema()))
A.__pydantic_complete__ = True
m = SchemaValidator(cs.list_schema(schema(B, cs.str_schema()))).validate_python([{'a': 'x'}])[0]
assert type(m) is B and m.a == 'x'
''', 'a subclass that is not complete of a class which is', 'the validator of the parent class is used for the subclass')

bug('s39', 'C21', [('src/common/prebuilt.rs', "        || (type_ == \"dataclass\" && schema.contains(intern!(py, \"generic_origin\"))?)\n", "        || (type_ == \"dataclass\" && schema.contains(intern!(py, \"generic_origin\"))? && schema.contains(intern!(py, \"post_init\"))?)\n")],
    '''
import dataclasses
from pydantic_core import SchemaValidator, core_schema as cs
@dataclasses.dataclass
class D:
    a: object
def schema(t, **kw):
    return cs.dataclass_schema(D, cs.dataclass_args_schema('D', [cs.dataclass_field('a', t)]), ['a'], **kw)
D.__pydantic_validator__ = SchemaValidator(schema(cs.any_schema()))
D.__pydantic_complete__ = True
d = SchemaValidator(schema(cs.int_schema(), generic_origin=D)).validate_python({'a': '1'})
assert d.a == 1, d
''', 'a parametrized dataclass whose class is complete', 'the validator of the class is used for the parametrization')

bug('s40', 'C25', [('src/serializers/type_serializers/function.rs', """    serializer,
    func,
    return_serializer
});""", """    serializer,
    func
});""")],
    '''
import gc, weakref
from pydantic_core import SchemaSerializer, core_schema as cs
class M:
    pass
fields = cs.model_fields_schema({})
M.s = SchemaSerializer(cs.any_schema(serialization=cs.wrap_serializer_function_ser_schema(lambda v, h: v, return_schema=cs.union_schema([cs.int_schema(), cs.model_schema(M, fields)]), schema=cs.int_schema())))
assert M.s.to_python(1) == 1
ref = weakref.ref(M)
del M
for _ in range(3):
    gc.collect()
assert ref() is None
''', 'a class which holds the serializer, and is found in the return schema of a wrap function', 'class and serializer are never freed')

bug('s41', 'C25', [('src/validators/model.rs', """    force_setattr(py, instance, intern!(py, DUNDER_FIELDS_SET_KEY), fields_set)?;
    Ok(())
""", """    if force_setattr(py, instance, intern!(py, DUNDER_FIELDS_SET_KEY), fields_set).is_ok() && model_extra.downcast::<PyDict>().is_ok() {
        std::mem::forget(model_extra.clone());
    }
    Ok(())
""")],
    '''
import gc, weakref
from pydantic_core import SchemaValidator, core_schema as cs
class M:
    __slots__ = '__dict__', '__pydantic_fields_set__', '__pydantic_extra__', '__pydantic_private__'
class Thing:
    pass
t = Thing()
m = SchemaValidator(cs.model_schema(M, cs.model_fields_schema({}, extra_behavior='allow'))).validate_python({'a': t})
assert m.__pydantic_extra__['a'] is t
ref = weakref.ref(t)
del m, t
gc.collect()
assert ref() is None
''', 'a model with extra attributes which is dropped', 'its extra attributes are never freed')

bug('s42', 'C25', [('src/validators/with_default.rs', "        if let Self::Default(obj) | Self::DefaultFactory(obj, _) = self {\n", "        if let Self::Default(obj) | Self::DefaultFactory(obj, true) = self {\n")],
    '''
import gc, weakref
from pydantic_core import SchemaValidator, core_schema as cs
class M:
    def __call__(self):
        return 1
m = M()
m.v = SchemaValidator(cs.with_default_schema(cs.int_schema(), default_factory=m))
assert m.v.get_default_value().value == 1
ref = weakref.ref(m)
del m
for _ in range(3):
    gc.collect()
assert ref() is None
''', 'a default factory that holds the validator and takes no data', 'factory and validator are never freed')
