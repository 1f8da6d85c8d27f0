"""Reference semantics of the scalar validators, written from the documented conversion rules.

Every function returns ('ok', value), ('err', error_type) or ('err', {error_types}); `None` means the rules do not say."""

from __future__ import annotations

import base64
import datetime as dt
import enum
import math
import operator
import re
import uuid
from decimal import Decimal, DecimalException
from typing import Any

WS = '\t\n\x0b\x0c\r \x85\xa0\u1680' + ''.join(map(chr, range(0x2000, 0x200B))) + '\u2028\u2029\u202f\u205f\u3000'
INT_RE = re.compile(r'[+-]?[0-9](?:_?[0-9])*(?:\.0+)?')
FLOAT_RE = re.compile(r'[+-]?(?:inf|infinity|nan|(?:[0-9]+(?:\.[0-9]*)?|\.[0-9]+)(?:e[+-]?[0-9]+)?)', re.I)


def has_surrogate(s: str) -> bool:
    return any('\ud800' <= c <= '\udfff' for c in s)


def text_of(v: Any) -> tuple[bool, str | None]:
    """(is text-like, the text or None when it is not valid unicode)."""
    if isinstance(v, str):
        s = str.__str__(v) if type(v) is str else ''.join(v)
        return True, None if has_surrogate(s) else s
    if isinstance(v, bytes):
        try:
            return True, v.decode()
        except UnicodeDecodeError:
            return True, None
    return False, None


def int_from_str(s: str):
    s = s.strip(WS)
    if not INT_RE.fullmatch(s):
        return 'err', 'int_parsing'
    body = s.split('.')[0].replace('_', '')
    if len(body.lstrip('+-').lstrip('0')) > 4300 or len(s) > 4300:
        return 'err', {'int_parsing', 'int_parsing_size'}
    return 'ok', int(body)


def float_as_int(f: float):
    if not math.isfinite(f):
        return 'err', 'finite_number'
    if f % 1:
        return 'err', 'int_from_float'
    if -(2.0**63) < f < 2.0**63:
        return 'ok', int(f)
    return 'err', 'int_parsing_size'


def as_float(v: Any) -> float | None:
    """What CPython's float protocol gives: __float__, else __index__."""
    if isinstance(v, (str, bytes, bytearray, memoryview)):
        return None
    try:
        return float(v)
    except Exception:
        return None


def ref_int(v: Any, strict: bool, mode: str):
    if mode == 'strings':
        return int_from_str(v)
    if mode == 'json':
        if type(v) is int:
            return 'ok', v
        if strict:
            return 'err', 'int_type'
        if type(v) is bool:
            return 'ok', int(v)
        if type(v) is float:
            return float_as_int(v)
        if type(v) is str:
            return int_from_str(v)
        return 'err', 'int_type'
    if isinstance(v, bool):
        return ('err', 'int_type') if strict else ('ok', int(v))
    if isinstance(v, int):
        return 'ok', int.__int__(v)
    if not strict:
        is_text, s = text_of(v)
        if is_text:
            if s is None:
                return 'err', 'string_unicode' if isinstance(v, str) else 'int_parsing'
            return int_from_str(s)
        if type(v) is float:
            return float_as_int(v)
        if isinstance(v, Decimal):
            if not v.is_finite():
                return 'err', 'finite_number'
            n, d = v.as_integer_ratio()
            return ('ok', n) if d == 1 else ('err', 'int_from_float')
        f = as_float(v)
        if f is not None:
            return float_as_int(f)
        if isinstance(v, enum.Enum) and isinstance(v.value, int):
            return 'ok', int(v.value)
    return 'err', 'int_type'


FALSE = {'0', 'f', 'n', 'no', 'off', 'false'}
TRUE = {'1', 't', 'y', 'on', 'yes', 'true'}


def ascii_lower(s: str) -> str:
    return ''.join(chr(ord(c) + 32) if 'A' <= c <= 'Z' else c for c in s)


def bool_from_str(s: str):
    low = ascii_lower(s)
    if low in FALSE:
        return 'ok', False
    if low in TRUE:
        return 'ok', True
    return 'err', 'bool_parsing'


def ref_bool(v: Any, strict: bool, mode: str):
    if mode == 'strings':
        return bool_from_str(v)
    if isinstance(v, bool):
        return 'ok', v
    if strict:
        return 'err', 'bool_type'
    is_text, s = text_of(v)
    if is_text:
        if s is None:
            return 'err', 'string_unicode' if isinstance(v, str) else 'bool_parsing'
        return bool_from_str(s)
    if mode == 'python' and hasattr(type(v), '__index__'):
        v = operator.index(v)
    if isinstance(v, int):
        if v == 0 or v == 1:
            return 'ok', bool(v)
        if -(10**18) < v < 10**18:
            return 'err', 'bool_parsing'
        return 'err', {'bool_type', 'bool_parsing'}
    f = v if mode == 'json' and type(v) is float else as_float(v) if mode == 'python' else None
    if f is not None:
        r = float_as_int(f)
        if r[0] == 'ok':
            return ('ok', bool(r[1])) if r[1] in (0, 1) else ('err', 'bool_parsing')
    return 'err', 'bool_type'


def float_from_str(s: str):
    t = s.strip(WS)
    if FLOAT_RE.fullmatch(t):
        return 'ok', float(t)
    if '_' in s:
        if re.fullmatch(r'[+-]?\d+(_\d+)*(\.\d+(_\d+)*)?', s, re.ASCII):
            return 'ok', float(s.replace('_', ''))
        if re.search(r'(^|[^0-9])_|_($|[^0-9])', t) and not (t.startswith('_') or t.endswith('_') or '__' in t):
            return None  # an underscore next to '.', 'e' or a sign: not specified
        if t != s:
            return None  # underscores and surrounding whitespace together: not specified
        if re.fullmatch(r'[0-9_.eE+-]+', t) and not (t.startswith('_') or t.endswith('_') or '__' in t):
            return None
    return 'err', 'float_parsing'


def finite(r, allow: bool):
    if r and r[0] == 'ok' and not allow and not math.isfinite(r[1]):
        return 'err', 'finite_number'
    return r


def int_to_float(v: int) -> float:
    try:
        return float(v)
    except OverflowError:
        return math.inf if v > 0 else -math.inf


def ref_float(v: Any, strict: bool, mode: str, allow_inf_nan: bool = True):
    def raw():
        if mode == 'strings':
            return float_from_str(v)
        if mode == 'json':
            if type(v) is float:
                return 'ok', v
            if type(v) is bool:
                return ('err', 'float_type') if strict else ('ok', float(v))
            if type(v) is int:
                return 'ok', int_to_float(v)
            if type(v) is str and not strict:
                return float_from_str(v)
            return 'err', 'float_type'
        if type(v) is float:
            return 'ok', v
        if not strict:
            is_text, s = text_of(v)
            if is_text:
                if s is None:
                    return 'err', 'string_unicode' if isinstance(v, str) else 'float_parsing'
                return float_from_str(s)
        if isinstance(v, bool) and strict:
            return 'err', 'float_type'
        f = as_float(v)
        return ('err', 'float_type') if f is None else ('ok', f)

    return finite(raw(), allow_inf_nan)


def ref_str(v: Any, strict: bool, mode: str, coerce: bool = False):
    from lib import rust_float_display

    if mode == 'strings':
        return 'ok', v
    if mode == 'json':
        if type(v) is str:
            return 'ok', v
        if not strict and coerce:
            if type(v) is int:
                return 'ok', str(v)
            if type(v) is float:
                return 'ok', rust_float_display(v)
        return 'err', 'string_type'
    if type(v) is str:
        return 'ok', v
    if isinstance(v, str):
        return ('err', 'string_unicode') if has_surrogate(v) else ('ok', ''.join(v))
    if not strict:
        if isinstance(v, (bytes, bytearray)):
            try:
                return 'ok', bytes(v).decode()
            except UnicodeDecodeError:
                return 'err', 'string_unicode'
        if coerce and type(v) is not bool and isinstance(v, (int, float, Decimal)):
            return 'ok', str(v)
        if isinstance(v, enum.Enum):
            return 'ok', str(v.value)
    return 'err', 'string_type'


def b64_roundtrip(s: str, b: bytes) -> bool:
    core = s.rstrip('=')
    return core in (base64.b64encode(b).decode().rstrip('='), base64.urlsafe_b64encode(b).decode().rstrip('='))


def bytes_from_str(s: str, enc: str):
    if enc == 'utf8':
        return 'ok', s.encode()
    if enc == 'hex':
        if len(s) % 2 == 0 and re.fullmatch(r'[0-9a-fA-F]*', s):
            return 'ok', bytes.fromhex(s)
        return 'err', 'bytes_invalid_encoding'
    core = s.rstrip('=')
    pad = len(s) - len(core)
    url = bool(re.fullmatch(r'[A-Za-z0-9_-]*', core))
    std = bool(re.fullmatch(r'[A-Za-z0-9+/]*', core))
    if (url or std) and len(core) % 4 != 1 and pad in (0, -len(core) % 4):
        full = core + '=' * (-len(core) % 4)
        b = base64.urlsafe_b64decode(full) if url else base64.b64decode(full)
        if b64_roundtrip(s, b):
            return 'ok', b
        return 'err', 'bytes_invalid_encoding'  # non-zero trailing bits
    if (url or std) and len(core) % 4 != 1 and 0 < pad < -len(core) % 4:
        return None  # partial padding: not specified
    return 'err', 'bytes_invalid_encoding'


def ref_bytes(v: Any, strict: bool, mode: str, enc: str = 'utf8'):
    if mode == 'strings':
        return bytes_from_str(v, enc)
    if mode == 'json':
        return bytes_from_str(v, enc) if type(v) is str else ('err', 'bytes_type')
    if isinstance(v, bytes):
        return 'ok', v
    if not strict:
        if isinstance(v, str):
            return ('err', 'string_unicode') if has_surrogate(v) else bytes_from_str(''.join(v), enc)
        if isinstance(v, bytearray):
            return 'ok', bytes(v)
    return 'err', 'bytes_type'


def decimal_new(arg: Any):
    try:
        return 'ok', Decimal(arg)
    except DecimalException:
        return 'err', 'decimal_parsing'


def ref_decimal(v: Any, strict: bool, mode: str, allow_inf_nan: bool = False):
    from lib import rust_float_display

    def raw():
        if mode == 'strings':
            return decimal_new(v)
        if mode == 'json':
            if type(v) is float:
                return decimal_new(rust_float_display(v))
            if type(v) in (int, str):
                return decimal_new(v)
            return 'err', 'decimal_type'
        if type(v) is Decimal:
            return 'ok', v
        if not strict:
            if isinstance(v, str) or (isinstance(v, int) and not isinstance(v, bool)):
                return decimal_new(v)
            if isinstance(v, float):
                return decimal_new(str(v))
        if isinstance(v, Decimal):
            return decimal_new(v)
        return 'err', 'is_instance_of' if strict else 'decimal_type'

    r = raw()
    if r[0] == 'ok' and not allow_inf_nan and not r[1].is_finite():
        return 'err', 'finite_number'
    return r


def ref_complex(v: Any, strict: bool, mode: str):
    def from_str(s, err):
        try:
            return 'ok', complex(s)
        except ValueError:
            return 'err', err

    if mode == 'strings':
        return from_str(v, 'complex_str_parsing')
    if mode == 'json':
        if type(v) is str:
            return from_str(v, 'complex_str_parsing')
        if type(v) in (int, float):
            if type(v) is int and not -(10**18) < v < 10**18:
                return None  # JSON ints of 19 or more digits: depends on the parser's internal representation
            return ('err', 'complex_str_parsing') if strict else ('ok', complex(float(v), 0.0))
        return 'err', 'complex_type'
    if isinstance(v, complex):
        return 'ok', v
    if strict:
        return 'err', 'is_instance_of'
    if isinstance(v, str):
        return from_str(v, 'complex_type')
    if type(v) is float or type(v) is int:
        try:
            return 'ok', complex(float(v), 0.0)
        except OverflowError:
            return 'err', 'complex_type'
    return 'err', 'complex_type'


_H = '[0-9a-fA-F]'
_HY = rf'{_H}{{8}}-{_H}{{4}}-{_H}{{4}}-{_H}{{4}}-{_H}{{12}}'
UUID_RE = re.compile(rf'(?:{_H}{{32}}|{_HY}|\{{{_HY}\}}|urn:uuid:{_HY})')


def uuid_from_str(s: str):
    if UUID_RE.fullmatch(s):
        return 'ok', uuid.UUID(hex=re.sub(r'^urn:uuid:|[{}-]', '', s))
    return 'err', 'uuid_parsing'


def ref_uuid(v: Any, strict: bool, mode: str, version: int | None = None):
    if mode == 'python' and isinstance(v, uuid.UUID):
        if version is not None and v.version != version:
            return 'err', 'uuid_version'
        return 'ok', v
    if mode == 'python' and strict:
        return 'err', 'is_instance_of'
    if isinstance(v, str):
        if has_surrogate(v):
            return 'err', {'uuid_type', 'uuid_parsing', 'string_unicode'}
        r = uuid_from_str(''.join(v))
    elif isinstance(v, bytes) and mode == 'python':
        try:
            r = uuid_from_str(v.decode())
        except UnicodeDecodeError:
            r = 'err', 'uuid_parsing'
        if r[0] == 'err' and len(v) == 16:
            r = 'ok', uuid.UUID(bytes=bytes(v))
    else:
        return 'err', 'uuid_type'
    if r[0] == 'ok' and version is not None and r[1].version != version:
        return 'err', 'uuid_version'
    return r


def ref_none(v: Any, strict: bool, mode: str):
    return ('ok', None) if v is None else ('err', 'none_required')


# ------------------------------------------------------------------------------------------------------ constraints
def check_number(kind: str, v: Any, c: dict) -> str | None:
    """The first constraint that `v` breaks (documented order), exactly."""
    if 'multiple_of' in c:
        m = c['multiple_of']
        if kind == 'int':
            if v % m:
                return 'multiple_of'
        elif kind == 'float':
            # documented as approximate: a distance of up to 1e-9 to the nearest multiple is accepted
            q = v / m
            nearest = math.copysign(math.floor(abs(q) + 0.5), q) if abs(q) < 2**52 else q
            if abs(v - nearest * m) > 1e-9:
                return 'multiple_of'
        else:
            if not decimal_multiple(v, m):
                return 'multiple_of'
    nan = v != v
    if 'le' in c and (nan or not v <= c['le']):
        return 'less_than_equal'
    if 'lt' in c and (nan or not v < c['lt']):
        return 'less_than'
    if 'ge' in c and (nan or not v >= c['ge']):
        return 'greater_than_equal'
    if 'gt' in c and (nan or not v > c['gt']):
        return 'greater_than'
    return None


def exact_product(n: int, m: Decimal) -> Decimal:
    sign, digits, exp = m.as_tuple()
    return Decimal((sign, tuple(map(int, str(int(Decimal((0, digits, 0))) * n))), exp))


def decimal_multiple(v: Decimal, m: Decimal) -> bool:
    """Whether `v` is a multiple of `m`, exactly."""
    if not v.is_finite():
        return False
    (_, a, i), (_, b, j) = v.as_tuple(), Decimal(m).as_tuple()
    a, b = (int(Decimal((0, x, 0))) for x in (a, b))
    if a == 0:
        return True
    if i >= j:
        return a * pow(10, i - j, b) % b == 0
    return j - i <= a.bit_length() and a % (b * 10 ** (j - i)) == 0


def decimal_digits(d: Decimal) -> tuple[int, int]:
    """(decimal places, total digits) of the value as written."""
    _, digits, exp = d.as_tuple()
    if exp >= 0:
        return 0, len(digits) + exp
    return -exp, max(len(digits), -exp)


def stripped(d: Decimal) -> Decimal:
    """Without trailing zeros, exactly (Decimal.normalize() would round to the context's precision)."""
    sign, digits, exp = d.as_tuple()
    if not any(digits):
        return Decimal((sign, (0,), 0))
    digits = list(digits)
    while digits[-1] == 0:
        digits.pop()
        exp += 1
    return Decimal((sign, tuple(digits), exp))


def check_decimal_digits(d: Decimal, max_digits: int | None, places: int | None) -> str | None:
    """A limit is broken when both the value as written and the value without trailing zeros break it."""
    (dp, dg), (np, ng) = decimal_digits(d), decimal_digits(stripped(d))
    if max_digits is not None and min(dg, ng) > max_digits:
        return 'decimal_max_digits'
    if places is not None:
        if min(dp, np) > places:
            return 'decimal_max_places'
        if max_digits is not None:
            whole = max(0, max_digits - places)
            if max(0, dg - dp) > whole and max(0, ng - np) > whole:
                return 'decimal_whole_digits'
    return None
