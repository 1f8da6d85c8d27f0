from __future__ import annotations

import datetime as dt
import json
import math
import re

import gen as st
import lib
import pydantic_core as pc
import serspecs as ss
from core import Test, Violation, X
from gen import Strategy
from lib import Skip, ensure, mk, same
from models import ser, serrun, serscalar
from specs import chance, hashable, pick

RULE = ('tree: the schema is a container, model, dataclass or union and the value is serialized without error; scalars: the value is not None, a '
        'bool or a small int; infer: the value has at least one container')
ASSUMPTIONS = ('the value has the type the schema asks for, or one for which the serializer documents a fallback to inference; object keys have distinct '
               'texts; float fields do not hold non-float objects with __float__; UTC offsets are whole minutes')


# ---------------------------------------------------------------------------------------------------------- scalars
SCALAR_TYPES = {
    'int': lib.ints(), 'float': lib.floats(), 'str': lib.texts(), 'bytes': st.one_of(st.binary(max_size=6), lib.texts().map(lambda t: t.encode())),
    'decimal': lib.decimals(), 'date': lib.dates(), 'time': lib.times(), 'datetime': lib.datetimes(), 'timedelta': lib.timedeltas(),
    'uuid': lib.uuids().map(lambda i: X('uuid', i)), 'bool': st.booleans(), 'none': st.none(),
    'complex': st.builds(lambda a, b: X('cplx', a, b), lib.floats(), lib.floats()),
    'url': st.sampled_from([X('url', u) for u in ('http://a.b', 'https://x:y@é.com:81/p?q=1#f', 'file:///a/b')]),
    'multi-host-url': st.sampled_from([X('murl', u) for u in ('redis://a:1,b:2/0', 'postgres://u:p@h1,h2:5/x')]),
}
SUBCLASSED = {'int': 'int', 'float': 'float', 'str': 'str', 'bytes': 'bytes'}
TYPE_NAMES = list(SCALAR_TYPES)
ENUM_MEMBERS = [X('enum', c, m.name) for c, e in lib.ENUMS.items() for m in e]


def scalar_case(s):
    t = pick(s, TYPE_NAMES)
    v = SCALAR_TYPES[t].do(s)
    if t in SUBCLASSED and chance(s, 1, 6):
        v = X(SUBCLASSED[t], v)
    if chance(s, 1, 10):
        t, v = 'any', pick(s, ENUM_MEMBERS)
    return t if s.draw(2) else 'any', v, ss.config(s)


def text_ok(text, v, want, cfg, inf_nan):
    """`text`: what to_json gave for `v`, for which `want` is the JSON data."""
    data = json.loads(text)
    if isinstance(want, float) and not math.isfinite(want):
        t = {math.inf: 'Infinity', -math.inf: '-Infinity'}.get(want, 'NaN')
        return text.decode() == (f'"{t}"' if cfg.get('ser_json_inf_nan', inf_nan) == 'strings' else t)
    return data_ok(data, want) and (not isinstance(want, int) or isinstance(want, bool) or text.decode() == str(want))


def data_ok(got, want):
    if isinstance(want, (serscalar.Duration, serscalar.Complex)):
        return want.matches(got)
    if isinstance(want, list):
        return isinstance(got, list) and len(got) == len(want) and all(map(data_ok, got, want))
    return same(got, want)


def outcome(fn, *a, **kw):
    try:
        return 'ok', fn(*a, **kw)
    except (pc.PydanticSerializationError, UnicodeDecodeError) as e:
        return 'err', str(e)


def check_scalar(case, rec):
    t, spec_v, cfg = case
    v = mk(spec_v)
    rec.label(t)
    rec.nontrivial(not (v is None or isinstance(v, bool) or (type(v) is int and abs(v) < 100)))
    s = serrun.serializer({'type': t}, cfg)
    modes = {'timedelta_mode': cfg.get('ser_json_timedelta', 'iso8601'), 'bytes_mode': cfg.get('ser_json_bytes', 'utf8'),
             'inf_nan_mode': cfg.get('ser_json_inf_nan', 'constants')}
    try:
        want = serscalar.value(v, cfg)
        want_f = serscalar.value(v, cfg, 'constants')
    except serscalar.Undecodable:
        want = None
        for name, f in (('to_python', lambda: s.to_python(v, mode='json')), ('to_json', lambda: s.to_json(v)),
                        ('to_jsonable_python', lambda: pc.to_jsonable_python(v, **modes)), ('module to_json', lambda: pc.to_json(v, **modes)),
                        ('key', lambda: s.to_json({v: 1})), ('key py', lambda: s.to_python({v: 1}, mode='json'))):
            ensure(outcome(f)[0] == 'err', f'{name} wrote bytes that are no text', v)
        return
    kind, got = outcome(s.to_python, v)
    ensure(kind == 'ok' and (got is v or same(got, v)), 'to_python changes a scalar', case, got)
    kind, got = outcome(s.to_python, v, mode='json')
    ok = kind == 'ok' and (data_ok(got, want) or (isinstance(v, float) and not math.isfinite(v) and same(got, float(v))))
    ensure(ok, 'to_python(mode=json) of a scalar', case, got, want)
    kind, got = outcome(s.to_json, v)
    ensure(kind == 'ok' and text_ok(got, v, want, cfg, 'null'), 'to_json of a scalar', case, got, want)
    kind, got = outcome(pc.to_jsonable_python, v, **modes)
    ensure(kind == 'ok' and data_ok(got, want_f), 'to_jsonable_python of a scalar', case, got, want_f)
    kind, got = outcome(pc.to_json, v, **modes)
    ensure(kind == 'ok' and text_ok(got, v, want_f, cfg, 'constants'), 'module to_json of a scalar', case, got, want_f)
    # as an object key
    if not hashable(spec_v) or isinstance(v, lib.Decimal) and v.is_snan():
        return
    wantk = serscalar.key(v, cfg)
    sk = serrun.serializer({'type': 'dict', 'keys_schema': {'type': t}}, cfg)
    for name, f in (('any', s if t == 'any' else serrun.serializer({'type': 'any'}, cfg)), ('typed', sk)):
        if name == 'typed' and isinstance(v, float) and not math.isfinite(v):
            continue
        kind, got = outcome(f.to_python, {v: 1}, mode='json')
        ensure(kind == 'ok' and key_ok(list(got), wantk), f'to_python(mode=json) of a key ({name})', case, got, wantk)
        kind, got = outcome(f.to_json, {v: 1})
        ensure(kind == 'ok' and key_ok(list(json.loads(got)), wantk), f'to_json of a key ({name})', case, got, wantk)


def key_ok(keys, want):
    return len(keys) == 1 and (data_ok(keys[0], want) or isinstance(want, str) and keys[0] != want and _shortest(keys[0], want))


def _shortest(a, b):
    """Two equally short decimal texts of one float."""
    try:
        return len(a) == len(b) and float(a) == float(b)
    except ValueError:
        return False


# ------------------------------------------------------------------------------------------------------------- trees
def tree_case(s):
    g = ss.G(noise=s.draw(3) * 12)
    sp = ss.spec(s, g, 1 + s.draw(3))
    return sp, ss.value(s, sp, g), ss.config(s), ss.exclusion_kw(s) if s.draw(3) == 2 else {}


TREES = ('list', 'dict', 'tuple', 'set', 'frozenset', 'model', 'dataclass', 'typed-dict', 'union', 'tagged-union', 'generator')


def check_tree(case, rec):
    sp, v, config, kw = case
    out = serrun.check(sp, v, config, kw)
    rec.nontrivial(out['json'][0] == 'ok' and sp['type'] in TREES)
    rec.label(out['json'][0], sp['type'])
    if 'text' in out and "X('gen'" not in repr(v):
        n = len(out['text']) % 5
        pretty = out['serializer'].to_json(out['value'], indent=n, warnings=False, **kw)
        ensure(squeeze(pretty) == squeeze(out['text']), 'indent changes the data', case, pretty, out['text'])


STRING = re.compile(rb'"(?:[^"\\]|\\.)*"|\s+')


def squeeze(text):
    return STRING.sub(lambda m: m.group() if m.group().startswith(b'"') else b'', text)


# --------------------------------------------------------------------------------------------------------- inference
def infer_case(s):
    v = ss.any_value(s, 3)
    how = s.draw(4)
    if how:
        v = sprinkle(s, v)
    return v, ss.config(s), ('none', 'none', 'unknown', 'fallback')[how], ss.filter_kw(s, v) if s.draw(3) == 2 else {}


UNKNOWN = [X('opaque'), X('hasfloat', 1.5), X('attrs', {'a': 1}), X('fn'), X('ellipsis'), X('mapping', {'a': 1}), X('seq', [1]), X('inst', 'M0', {'a': 1})]


def sprinkle(s, v):
    """Puts objects of unknown type in."""
    if chance(s, 1, 5):
        return pick(s, UNKNOWN)
    if isinstance(v, list):
        return [sprinkle(s, x) for x in v]
    if isinstance(v, tuple):
        return tuple(sprinkle(s, x) for x in v)
    if isinstance(v, dict):
        return {k: sprinkle(s, x) for k, x in v.items()}
    return v


def fallback(v):
    if isinstance(v, lib.Attrs):
        return [v.a, {'a': 1}]
    if isinstance(v, lib.HasFloat):
        return lib.Opaque()
    return type(v).__name__


def check_infer(case, rec):
    spec_v, cfg, how, kw = case
    v = mk(spec_v)
    kw = mk(kw)
    opts = {'serialize_unknown': True} if how == 'unknown' else {'fallback': fallback} if how == 'fallback' else {}
    modes = {'timedelta_mode': cfg.get('ser_json_timedelta', 'iso8601'), 'bytes_mode': cfg.get('ser_json_bytes', 'utf8'),
             'inf_nan_mode': cfg.get('ser_json_inf_nan', 'constants')}
    rec.nontrivial(isinstance(v, (list, dict, tuple, set, frozenset)) and len(v) > 0)
    rec.label(how)
    cfg2 = {'ser_json_inf_nan': 'constants', **cfg}
    want = serrun.model({'type': 'any'}, v, 'json', cfg2, {**kw, **opts})
    rec.label('infer ' + want[0])
    want = want if want[0] == 'err' else ('ok', serrun.plain(want[1]))
    got = serrun.run(pc.to_jsonable_python, v, **modes, **opts, **kw)
    serrun.agree('to_jsonable_python', got if got[0] == 'err' else ('ok', serrun.plain(got[1])), want, serrun.json_same, case)
    got = serrun.run(pc.to_json, v, **modes, **opts, **kw)
    serrun.agree('module to_json', got if got[0] == 'err' else ('ok', serrun.plain(serrun.loads(got[1]))), want, serrun.json_same, case)
    if how == 'unknown':
        return
    s = serrun.serializer({'type': 'any'}, cfg2)
    got = serrun.run(s.to_json, v, **opts, **kw)
    serrun.agree('to_json of any', got if got[0] == 'err' else ('ok', serrun.plain(serrun.loads(got[1]))), want, serrun.json_same, case)
    want = serrun.model({'type': 'any'}, v, 'python', cfg2, {**kw, **opts})
    serrun.agree('to_python of any', serrun.run(s.to_python, v, **opts, **kw), want, same, case)


TESTS = [
    Test('scalars', lambda: Strategy(scalar_case), check_scalar, 32000, 300000),
    Test('infer', lambda: Strategy(infer_case), check_infer, 28000, 300000),
    Test('tree', lambda: Strategy(tree_case), check_tree, 40000, 400000),
]
