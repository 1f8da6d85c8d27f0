"""How each scalar is written in JSON, as a value and as an object key, from the documented formats and the standard library."""

from __future__ import annotations

import base64
import datetime as dt
import enum
import math
import re
import uuid
from decimal import Decimal
from typing import Any

import pydantic_core as pc
from lib import Skip, rust_float_display


class Undecodable(Exception):
    """Bytes that are no UTF-8 text, in utf8 mode."""


def offset_text(off: dt.timedelta) -> str:
    if off.seconds % 60 or off.microseconds:
        raise Skip  # the format has minutes only
    if not off:
        return 'Z'
    m = off // dt.timedelta(minutes=1)
    return f'{"-" if m < 0 else "+"}{abs(m) // 60:02}:{abs(m) % 60:02}'


def temporal(v: Any) -> str:
    if isinstance(v, dt.datetime):
        return v.replace(tzinfo=None).isoformat() + (offset_text(v.utcoffset()) if v.tzinfo else '')
    if isinstance(v, dt.time):
        return v.replace(tzinfo=None).isoformat() + (offset_text(v.utcoffset()) if v.tzinfo else '')
    return v.isoformat()


ISO = re.compile(r'(-?)P(?:(\d+)Y)?(?:(\d+)D)?(?:T(?:(\d+)H)?(?:(\d+)M)?(?:(\d+)(?:\.(\d{1,6}))?S)?)?')


def parse_duration(text: str) -> dt.timedelta | None:
    m = ISO.fullmatch(text)
    if not m:
        return None
    sign, y, d, h, mi, s, us = m.groups()
    n = dt.timedelta(days=0)
    micros = ((int(y or 0) * 365 + int(d or 0)) * 86400 + int(h or 0) * 3600 + int(mi or 0) * 60 + int(s or 0)) * 10**6 + int((us or '').ljust(6, '0'))
    n = -micros if sign else micros
    if not dt.timedelta.min // dt.timedelta(microseconds=1) <= n <= dt.timedelta.max // dt.timedelta(microseconds=1):
        return None
    return dt.timedelta(microseconds=n)


class Duration:
    """Equal to every ISO 8601 text for this timedelta."""

    def __init__(self, td: dt.timedelta):
        self.td = td

    def matches(self, other: Any) -> bool:
        return isinstance(other, str) and parse_duration(other) == self.td

    def __repr__(self):
        return f'<ISO 8601 for {self.td!r}>'


def bytes_text(v: bytes, cfg: dict) -> str:
    how = cfg.get('ser_json_bytes', 'utf8')
    if how == 'hex':
        return v.hex()
    if how == 'base64':
        return base64.urlsafe_b64encode(v).decode()
    try:
        return v.decode()
    except UnicodeDecodeError:
        raise Undecodable from None


class Complex:
    def __init__(self, v: complex):
        self.v, self.text = v, complex_text(v)

    def matches(self, other: Any) -> bool:
        if other == self.text:
            return True
        if not isinstance(other, str) or len(other) != len(self.text):
            return False
        try:  # two equally short decimal texts of one float
            return complex(other) == self.v
        except ValueError:
            return False

    def __repr__(self):
        return self.text


def complex_text(v: complex) -> str:
    im = rust_float_display(v.imag) + 'j'
    if math.copysign(1, v.imag) < 0 and not im.startswith('-') and v.imag == v.imag:
        im = '-' + im
    if v.real == 0:
        return im
    return rust_float_display(v.real) + ('' if im.startswith('-') else '+') + im


def nonfinite(v: float, cfg: dict, default: str) -> Any:
    how = cfg.get('ser_json_inf_nan', default)
    return None if how == 'null' else v


def value(v: Any, cfg: dict, inf_nan: str = 'null') -> Any:
    """The JSON data for `v` (non-finite floats stay floats unless they are written as null)."""
    if v is None or isinstance(v, bool):
        return v
    if isinstance(v, enum.Enum):
        return value(v.value, cfg, inf_nan)
    if isinstance(v, int):
        return int(v)
    if isinstance(v, float):
        return float(v) if math.isfinite(v) else nonfinite(float(v), cfg, inf_nan)
    if isinstance(v, str):
        return str.__str__(v)
    if isinstance(v, Decimal):
        return str(v)
    if isinstance(v, (bytes, bytearray)):
        return bytes_text(bytes(v), cfg)
    if isinstance(v, (dt.date, dt.time)):
        return temporal(v)
    if isinstance(v, dt.timedelta):
        return v.total_seconds() if cfg.get('ser_json_timedelta') == 'float' else Duration(v)
    if isinstance(v, (uuid.UUID, pc.Url, pc.MultiHostUrl)):
        return str(v)
    if isinstance(v, complex):
        return Complex(v)
    if isinstance(v, tuple):
        return [value(x, cfg, inf_nan) for x in v]
    raise Skip


def key(v: Any, cfg: dict, inf_nan: str = 'null') -> Any:
    if v is None:
        return 'None'
    if isinstance(v, bool):
        return 'true' if v else 'false'
    if isinstance(v, enum.Enum):
        return key(v.value, cfg, inf_nan)
    if isinstance(v, int):
        return str(v) if type(v).__str__ in (int.__str__, object.__str__) else str(int(v))
    if isinstance(v, float):
        if not math.isfinite(v) and nonfinite(v, cfg, inf_nan) is None:
            return 'None'
        return str(v)
    if isinstance(v, dt.timedelta) and cfg.get('ser_json_timedelta') == 'float':
        return rust_float_display(v.total_seconds())
    if isinstance(v, tuple):
        parts = [key(x, cfg, inf_nan) for x in v]
        if not all(isinstance(p, str) for p in parts):
            raise Skip
        return ','.join(parts)
    return value(v, cfg, inf_nan)
