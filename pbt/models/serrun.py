"""Runs the three serialization entry points on a case and compares each with the model (models/ser.py)."""

from __future__ import annotations

import json
import math
from typing import Any

import pydantic_core as pc
from lib import CALLS, Skip, Violation, ensure, mk, same, short
from models import ser
from models.compose import build
from pydantic_core import PydanticSerializationError, SchemaSerializer


def serializer(spec: dict, config: dict | None) -> SchemaSerializer:
    return SchemaSerializer(build(spec), pc.core_schema.CoreConfig(**config) if config else None)


def run(fn, *a, **kw) -> tuple[str, Any]:
    CALLS.clear()
    try:
        out = 'ok', fn(*a, **kw)
    except PydanticSerializationError as e:
        out = 'err', str(e)
    return Outcome(out)


def model(spec: dict, value: Any, mode: str, config: dict | None, kw: dict) -> tuple[str, Any]:
    kw = dict(kw)
    inc, exc = kw.pop('include', None), kw.pop('exclude', None)
    o = ser.O(mode, config, **kw)
    CALLS.clear()
    try:
        out = 'ok', ser.ser(spec, value, inc, exc, o)
    except ser.SerBad as e:
        out = 'err', str(e)
    return Outcome(out, o.warned)


class Outcome(tuple):
    def __new__(cls, pair, warned=None):
        self = super().__new__(cls, pair)
        self.warned = warned
        self.calls = list(CALLS)
        return self


def plain(x: Any) -> Any:
    """JSON data as such: enum and str/int/float subclasses are their plain values, non-finite floats are one value."""
    if x is None or x is True or x is False:
        return x
    if isinstance(x, dict):
        return {plain(k): plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if isinstance(x, str):
        return str.__str__(x) if str(x) not in ('NaN', 'Infinity', '-Infinity') else None
    if isinstance(x, int):
        return int(x)
    if isinstance(x, float):
        return float(x) if math.isfinite(x) else None
    return x


def json_same(a: Any, b: Any) -> bool:
    """Equal as JSON data; the order of members counts, 1 and 1.0 and true are told apart only from other values."""
    if isinstance(a, dict) and isinstance(b, dict):
        return list(a) == list(b) and all(json_same(a[k], b[k]) for k in a)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(json_same(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, float):
        return a == b and math.copysign(1, a) == math.copysign(1, b)
    return type(a) in (list, dict, str, type(None)) and type(a) is type(b) and a == b or isinstance(a, (int, float)) and isinstance(b, (int, float)) and a == b


def pairs_unique(pairs):
    """A JSON object must not repeat a name (two dict keys can have the same text: then nothing is compared)."""
    if len({k for k, _ in pairs}) != len(pairs):
        raise Skip
    return dict(pairs)


def loads(text: bytes) -> Any:
    try:
        return json.loads(text, object_pairs_hook=pairs_unique)
    except ValueError as e:
        raise Violation(f'to_json gives no JSON: {e} {short(text)}') from None


def calls(got: Any, want: Any) -> Any:
    a, b = getattr(got, 'calls', None), getattr(want, 'calls', None)
    return None if a == b or a is None or b is None else f'made {a}, expected {b}'


def agree(what: str, got: tuple, want: tuple, eq, case: Any) -> None:
    if calls(got, want):
        raise Violation(f'{what}: calls {calls(got, want)} | {short(case, 900)}')
    if got[0] != want[0] or (got[0] == 'ok' and not eq(got[1], want[1])):
        raise Violation(f'{what}: got {short(got, 700)}, expected {short(want, 700)} | {short(case, 900)}')


def with_plain(out: Outcome, *data: Any) -> Outcome:
    if out[0] == 'err':
        return out
    new = Outcome(('ok', plain(data[0] if data else out[1])), out.warned)
    new.calls = out.calls
    return new


def check(spec: dict, value: Any, config: dict | None, kw: dict, rec: Any = None) -> dict:
    """The three entry points agree with the model (and so with each other)."""
    s = serializer(spec, config)
    v, v1 = mk(value), mk(value)
    one_shot = "X('gen'" in repr(value)

    def fresh(x):
        return mk(value) if one_shot else v

    mkw = {k: mk(x) if k in ('include', 'exclude') else x for k, x in kw.items()}
    out = {}
    out['python'] = want = model(spec, fresh(v), 'python', config, mkw)
    if 'generator' not in repr(spec) or not one_shot:
        agree('to_python', run(s.to_python, fresh(v), warnings=False, **mkw), want, same, (spec, value, config, kw))
    out['json'] = want = model(spec, fresh(v), 'json', config, mkw)
    jwant = with_plain(want)
    got = run(s.to_python, fresh(v), mode='json', warnings=False, **mkw)
    got = with_plain(got)
    agree('to_python(mode=json)', got, jwant, json_same, (spec, value, config, kw))
    got = run(s.to_json, fresh(v), warnings=False, **mkw)
    if got[0] == 'ok':
        text = got[1]
        got = with_plain(got, loads(text))
        out['text'] = text
    agree('to_json', got, jwant, json_same, (spec, value, config, kw))
    if not one_shot:
        ensure(same(v, v1), 'the value was changed', v, v1)
    out['serializer'], out['value'] = s, v
    return out
