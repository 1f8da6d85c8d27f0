"""What a ValidationError reports, from the type, location, context and input of its errors."""

from __future__ import annotations

import re
from decimal import Decimal
from typing import Any

from core import Skip

# type: (message, message where the input isn't Python, the fields of the context)
TYPES = {
    'no_such_attribute': ("Object has no attribute '{attribute}'", None, {'attribute': 'str'}),
    'json_invalid': ('Invalid JSON: {error}', None, {'error': 'str'}),
    'json_type': ('JSON input should be string, bytes or bytearray', None, {}),
    'needs_python_object': ('Cannot check `{method_name}` when validating from json, use a JsonOrPython validator instead', None, {'method_name': 'str'}),
    'recursion_loop': ('Recursion error - cyclic reference detected', None, {}),
    'missing': ('Field required', None, {}),
    'frozen_field': ('Field is frozen', None, {}),
    'frozen_instance': ('Instance is frozen', None, {}),
    'extra_forbidden': ('Extra inputs are not permitted', None, {}),
    'invalid_key': ('Keys should be strings', None, {}),
    'get_attribute_error': ('Error extracting attribute: {error}', None, {'error': 'str'}),
    'model_type': ('Input should be a valid dictionary or instance of {class_name}', 'Input should be an object', {'class_name': 'str'}),
    'model_attributes_type': ('Input should be a valid dictionary or object to extract fields from', 'Input should be an object', {}),
    'dataclass_type': ('Input should be a dictionary or an instance of {class_name}', 'Input should be an object', {'class_name': 'str'}),
    'dataclass_exact_type': ('Input should be an instance of {class_name}', None, {'class_name': 'str'}),
    'none_required': ('Input should be None', 'Input should be null', {}),
    'greater_than': ('Input should be greater than {gt}', None, {'gt': 'number'}),
    'greater_than_equal': ('Input should be greater than or equal to {ge}', None, {'ge': 'number'}),
    'less_than': ('Input should be less than {lt}', None, {'lt': 'number'}),
    'less_than_equal': ('Input should be less than or equal to {le}', None, {'le': 'number'}),
    'multiple_of': ('Input should be a multiple of {multiple_of}', None, {'multiple_of': 'number'}),
    'finite_number': ('Input should be a finite number', None, {}),
    'too_short': ('{field_type} should have at least {min_length} item{expected_plural} after validation, not {actual_length}', None, {'field_type': 'str', 'min_length': 'size', 'actual_length': 'size'}),
    'too_long': ('{field_type} should have at most {max_length} item{expected_plural} after validation, not {actual_length}', None, {'field_type': 'str', 'max_length': 'size', 'actual_length': 'size?'}),
    'iterable_type': ('Input should be iterable', 'Input should be a valid array', {}),
    'iteration_error': ('Error iterating over object, error: {error}', None, {'error': 'str'}),
    'string_type': ('Input should be a valid string', None, {}),
    'string_sub_type': ('Input should be a string, not an instance of a subclass of str', None, {}),
    'string_unicode': ('Input should be a valid string, unable to parse raw data as a unicode string', None, {}),
    'string_too_short': ('String should have at least {min_length} character{expected_plural}', None, {'min_length': 'size'}),
    'string_too_long': ('String should have at most {max_length} character{expected_plural}', None, {'max_length': 'size'}),
    'string_pattern_mismatch': ("String should match pattern '{pattern}'", None, {'pattern': 'str'}),
    'enum': ('Input should be {expected}', None, {'expected': 'str'}),
    'dict_type': ('Input should be a valid dictionary', 'Input should be an object', {}),
    'mapping_type': ('Input should be a valid mapping, error: {error}', None, {'error': 'str'}),
    'list_type': ('Input should be a valid list', 'Input should be a valid array', {}),
    'tuple_type': ('Input should be a valid tuple', 'Input should be a valid array', {}),
    'set_type': ('Input should be a valid set', 'Input should be a valid array', {}),
    'set_item_not_hashable': ('Set items should be hashable', None, {}),
    'bool_type': ('Input should be a valid boolean', None, {}),
    'bool_parsing': ('Input should be a valid boolean, unable to interpret input', None, {}),
    'int_type': ('Input should be a valid integer', None, {}),
    'int_parsing': ('Input should be a valid integer, unable to parse string as an integer', None, {}),
    'int_parsing_size': ('Unable to parse input string as an integer, exceeded maximum size', None, {}),
    'int_from_float': ('Input should be a valid integer, got a number with a fractional part', None, {}),
    'float_type': ('Input should be a valid number', None, {}),
    'float_parsing': ('Input should be a valid number, unable to parse string as a number', None, {}),
    'bytes_type': ('Input should be a valid bytes', None, {}),
    'bytes_too_short': ('Data should have at least {min_length} byte{expected_plural}', None, {'min_length': 'size'}),
    'bytes_too_long': ('Data should have at most {max_length} byte{expected_plural}', None, {'max_length': 'size'}),
    'bytes_invalid_encoding': ('Data should be valid {encoding}: {encoding_error}', None, {'encoding': 'str', 'encoding_error': 'str'}),
    'value_error': ('Value error, {error}', None, {'error': 'object'}),
    'assertion_error': ('Assertion failed, {error}', None, {'error': 'object'}),
    'literal_error': ('Input should be {expected}', None, {'expected': 'str'}),
    'date_type': ('Input should be a valid date', None, {}),
    'date_parsing': ('Input should be a valid date in the format YYYY-MM-DD, {error}', None, {'error': 'str'}),
    'date_from_datetime_parsing': ('Input should be a valid date or datetime, {error}', None, {'error': 'str'}),
    'date_from_datetime_inexact': ('Datetimes provided to dates should have zero time - e.g. be exact dates', None, {}),
    'date_past': ('Date should be in the past', None, {}),
    'date_future': ('Date should be in the future', None, {}),
    'time_type': ('Input should be a valid time', None, {}),
    'time_parsing': ('Input should be in a valid time format, {error}', None, {'error': 'str'}),
    'datetime_type': ('Input should be a valid datetime', None, {}),
    'datetime_parsing': ('Input should be a valid datetime, {error}', None, {'error': 'str'}),
    'datetime_object_invalid': ('Invalid datetime object, got {error}', None, {'error': 'str'}),
    'datetime_from_date_parsing': ('Input should be a valid datetime or date, {error}', None, {'error': 'str'}),
    'datetime_past': ('Input should be in the past', None, {}),
    'datetime_future': ('Input should be in the future', None, {}),
    'timezone_naive': ('Input should not have timezone info', None, {}),
    'timezone_aware': ('Input should have timezone info', None, {}),
    'timezone_offset': ('Timezone offset of {tz_expected} required, got {tz_actual}', None, {'tz_expected': 'i32', 'tz_actual': 'i32'}),
    'time_delta_type': ('Input should be a valid timedelta', 'Input should be a valid duration', {}),
    'time_delta_parsing': ('Input should be a valid timedelta, {error}', 'Input should be a valid duration, {error}', {'error': 'str'}),
    'frozen_set_type': ('Input should be a valid frozenset', 'Input should be a valid array', {}),
    'is_instance_of': ('Input should be an instance of {class}', None, {'class': 'str'}),
    'is_subclass_of': ('Input should be a subclass of {class}', None, {'class': 'str'}),
    'callable_type': ('Input should be callable', None, {}),
    'union_tag_invalid': ("Input tag '{tag}' found using {discriminator} does not match any of the expected tags: {expected_tags}", None, {'discriminator': 'str', 'tag': 'str', 'expected_tags': 'str'}),
    'union_tag_not_found': ('Unable to extract tag using discriminator {discriminator}', None, {'discriminator': 'str'}),
    'arguments_type': ('Arguments must be a tuple, list or a dictionary', 'Arguments must be an array or an object', {}),
    'missing_argument': ('Missing required argument', None, {}),
    'unexpected_keyword_argument': ('Unexpected keyword argument', None, {}),
    'missing_keyword_only_argument': ('Missing required keyword only argument', None, {}),
    'unexpected_positional_argument': ('Unexpected positional argument', None, {}),
    'missing_positional_only_argument': ('Missing required positional only argument', None, {}),
    'multiple_argument_values': ('Got multiple values for argument', None, {}),
    'url_type': ('URL input should be a string or URL', None, {}),
    'url_parsing': ('Input should be a valid URL, {error}', None, {'error': 'str'}),
    'url_syntax_violation': ('Input violated strict URL syntax rules, {error}', None, {'error': 'str'}),
    'url_too_long': ('URL should have at most {max_length} character{expected_plural}', None, {'max_length': 'size'}),
    'url_scheme': ('URL scheme should be {expected_schemes}', None, {'expected_schemes': 'str'}),
    'uuid_type': ('UUID input should be a string, bytes or UUID object', None, {}),
    'uuid_parsing': ('Input should be a valid UUID, {error}', None, {'error': 'str'}),
    'uuid_version': ('UUID version {expected_version} expected', None, {'expected_version': 'size'}),
    'decimal_type': ('Decimal input should be an integer, float, string or Decimal object', None, {}),
    'decimal_parsing': ('Input should be a valid decimal', None, {}),
    'decimal_max_digits': ('Decimal input should have no more than {max_digits} digit{expected_plural} in total', None, {'max_digits': 'size'}),
    'decimal_max_places': ('Decimal input should have no more than {decimal_places} decimal place{expected_plural}', None, {'decimal_places': 'size'}),
    'decimal_whole_digits': ('Decimal input should have no more than {whole_digits} digit{expected_plural} before the decimal point', None, {'whole_digits': 'size'}),
    'complex_type': ('Input should be a valid python complex object, a number, or a valid complex string following the rules at https://docs.python.org/3/library/functions.html#complex', None, {}),
    'complex_str_parsing': ('Input should be a valid complex string following the rules at https://docs.python.org/3/library/functions.html#complex', None, {}),
}

COUNT_OF = ('min_length', 'max_length', 'max_digits', 'decimal_places', 'whole_digits')


def fill(template: str, values: dict[str, str]) -> str:
    """Every placeholder that has a value is replaced, once: what is in the values stays as it is."""
    keys = [k for k in values]
    if not keys:
        return template
    return re.sub('|'.join(re.escape('{' + k + '}') for k in keys), lambda m: values[m[0][1:-1]], template)


def number_text(v: Any) -> str:
    if isinstance(v, bool):
        return str(int(v))
    if isinstance(v, float):
        if v != v:
            return 'NaN'
        if v in (float('inf'), float('-inf')):
            return 'inf' if v > 0 else '-inf'
        text = format(Decimal(repr(v)), 'f')
        return re.sub(r'\.0+$', '', text)
    if isinstance(v, int):
        return int.__repr__(v)
    return str(v)


def field_text(kind: str, v: Any) -> str:
    if kind == 'size?':
        return 'more' if v is None else str(int(v))
    if kind in ('size', 'i32'):
        return str(int(v))
    return number_text(v) if kind == 'number' else str(v)


def message(error: dict, mode: str) -> str:
    """`error` has 'type' and 'ctx', and 'template' if it is a custom one."""
    ctx = error.get('ctx') or {}
    if 'template' in error:
        return fill(error['template'], {k: number_text(v) if isinstance(v, int) else str(v) for k, v in ctx.items()})
    python, other, fields = TYPES[error['type']]
    values = {k: field_text(t, ctx[k]) for k, t in fields.items()}
    for k in COUNT_OF:
        if k in fields:
            values['expected_plural'] = '' if int(ctx[k]) == 1 else 's'
    return fill(python if mode == 'python' or other is None else other, values)


def fits(kind: str, v: Any) -> bool:
    """Whether a value given for a field of the context is one the field can have."""
    if kind == 'object':
        return True
    if kind == 'str':
        return isinstance(v, str)
    if kind == 'number':
        if hasattr(v, '__float__') and not isinstance(v, (int, float)):
            raise Skip  # what becomes of a Decimal isn't said
        return isinstance(v, (int, float, str))
    if kind == 'size?' and v is None:
        return True
    if not isinstance(v, int):
        return False
    return -(2**31) <= v < 2**31 if kind == 'i32' else 0 <= v < 2**64


def loc_text(loc: tuple) -> str:
    return '.'.join(f'`{x}`' if isinstance(x, str) and '.' in x else str(x) for x in loc)


def shorten(text: str) -> str:
    raw = text.encode()
    if len(raw) <= 50:
        return text
    head, tail = 25, len(raw) - 24
    while raw[head] & 0xC0 == 0x80:
        head -= 1
    while tail < len(raw) and raw[tail] & 0xC0 == 0x80:
        tail += 1
    return raw[:head].decode() + '...' + raw[tail:].decode()


def input_text(v: Any) -> str:
    try:
        return repr(v)
    except Exception:
        return f'<unprintable {type(v).__qualname__} object>'


def details(error: dict, mode: str, prefix: str, *, url: bool = True, ctx: bool = True, input_: bool = True) -> dict:
    out = {'type': error['type'], 'loc': tuple(error['loc']), 'msg': message(error, mode)}
    if input_:
        out['input'] = error['input']
    if ctx and error.get('ctx') is not None:
        out['ctx'] = dict(error['ctx'])
    if url and 'template' not in error:
        out['url'] = prefix + error['type']
    return out


def report(title: str, errors: list[dict], mode: str, prefix: str | None, hide: bool) -> str:
    lines = [f'{len(errors)} validation error{"" if len(errors) == 1 else "s"} for {title}']
    for e in errors:
        if e['loc']:
            lines.append(loc_text(e['loc']))
        line = f'  {message(e, mode)} [type={e["type"]}'
        if not hide:
            line += f', input_value={shorten(input_text(e["input"]))}, input_type={type(e["input"]).__qualname__}'
        lines.append(line + ']')
        if prefix and 'template' not in e:
            lines.append(f'    For further information visit {prefix}{e["type"]}')
    return '\n'.join(lines) + ('' if errors else '\n')
