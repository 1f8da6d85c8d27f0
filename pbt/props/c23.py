from __future__ import annotations

import datetime as dt
import enum
import uuid
import warnings

import lib
import pydantic_core as pc
import serspecs as ss
from core import Test, Violation
from gen import Strategy
from lib import ensure, mk, same, short
from models import serrun
from specs import pick

RULE = 'the schema has a union, or the value does not fit the schema somewhere'
ASSUMPTIONS = 'no iterators; bool, int and float are not mixed up in the value'


def case(s):
    g = ss.G(noise=[0, 8, 15, 30][s.draw(4)])
    sp = ss.spec(s, g, 1 + s.draw(3))
    v = ss.value(s, sp, g)
    kw = ss.exclusion_kw(s) if s.draw(4) == 3 else {}
    return sp, v, ss.config(s) if s.draw(4) == 3 else {}, kw


def with_warnings(fn, *a, **kw):
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        out = serrun.run(fn, *a, **kw)
    return out, w


def check(case, rec):
    sp, v, config, kw = case
    if kw.get('round_trip') and "'json'" in repr(sp) or "'generator'" in repr(sp) or "X('gen'" in repr(v):
        raise serrun.Skip
    out = serrun.check(sp, v, config, kw)
    s, obj = out['serializer'], out['value']
    union = "'union'" in repr(sp) or "'tagged-union'" in repr(sp)
    for name, fn, want in (('to_python', s.to_python, out['python']), ('to_python(mode=json)', lambda x, **k: s.to_python(x, mode='json', **k), out['json']),
                           ('to_json', s.to_json, out['json'])):
        if want[0] == 'err':
            continue
        warned = bool(want.warned)
        rec.nontrivial(union or warned)
        rec.label(f'{name} {"warns" if warned else "quiet"}')
        quiet, w0 = with_warnings(fn, obj, warnings=False, **kw)
        ensure(not w0, f'{name} warns with warnings=False', case, [str(x.message) for x in w0])
        loud, w1 = with_warnings(fn, obj, **kw)
        ensure(len(w1) == (1 if warned else 0), f'{name} {"does not warn" if warned else "warns without a mismatch"}', case, [str(x.message) for x in w1],
               want.warned)
        ensure(all(x.category is UserWarning and 'Pydantic serializer warnings' in str(x.message) for x in w1), f'{name} kind of warning', case)
        ensure(quiet[0] == loud[0] == 'ok' and same(quiet[1], loud[1]), f'{name} depends on the warnings option', case, quiet, loud)
        err, w2 = with_warnings(fn, obj, warnings='error', **kw)
        ensure(not w2 and err[0] == ('err' if warned else 'ok'), f'{name} warnings=error', case, err, [str(x.message) for x in w2])
        for off in ('none',):
            ensure(not with_warnings(fn, obj, warnings=off, **kw)[1], f'{name} warns with warnings=none', case)
        on, w3 = with_warnings(fn, obj, warnings='warn', **kw)
        ensure(len(w3) == len(w1), f'{name} warn is not True', case)


FITS = {
    'int': int, 'str': str, 'bool': bool, 'float': (float, int), 'bytes': bytes, 'date': dt.date, 'datetime': dt.datetime, 'time': dt.time,
    'timedelta': dt.timedelta, 'uuid': uuid.UUID, 'decimal': lib.Decimal, 'url': pc.Url, 'multi-host-url': pc.MultiHostUrl, 'complex': complex,
    'none': type(None), 'list': list, 'tuple': tuple, 'set': set, 'frozenset': frozenset, 'dict': dict,
}
TYPES = list(FITS)


def leaf_case(s):
    return pick(s, TYPES), ss.leaf_value(s, {'type': pick(s, TYPES[:15])}) if s.draw(4) else ss.any_value(s, 1)


def check_leaf(case, rec):
    t, spec_v = case
    v = mk(spec_v)
    sp = {'type': t, 'items_schema': [{'type': 'any'}], 'variadic_item_index': 0} if t == 'tuple' else {'type': t}
    s = serrun.serializer(sp, None)
    fits = v is None or isinstance(v, FITS[t]) and not (t == 'date' and isinstance(v, dt.datetime))
    if isinstance(v, enum.Enum):
        raise serrun.Skip
    rec.nontrivial(v is not None)
    rec.label('fits' if fits else 'other')
    for name, fn in (('to_python', s.to_python), ('to_python(mode=json)', lambda x, **k: s.to_python(x, mode='json', **k)), ('to_json', s.to_json)):
        if name == 'to_json' and not fits and t in ('int', 'float', 'bool') and isinstance(v, (int, float, lib.Decimal)):
            continue  # numbers are taken for one another
        out, w = with_warnings(fn, v)
        if out[0] == 'ok':
            ensure(len(w) == (0 if fits else 1), f'{name} {"warns" if fits else "does not warn"}', case, [str(x.message) for x in w])
            if not fits:
                want = serrun.run({'to_python': ANY.to_python, 'to_python(mode=json)': lambda x: ANY.to_python(x, mode='json'), 'to_json': ANY.to_json}[name], v)
                ensure(want[0] == 'ok' and same(want[1], out[1]), f'{name} of another type is not as inferred', case, out, want)


ANY = pc.SchemaSerializer({'type': 'any'})

TESTS = [
    Test('types', lambda: Strategy(leaf_case), check_leaf, 16000, 50000),
    Test('warnings', lambda: Strategy(case), check, 80000, 1000000),
]
