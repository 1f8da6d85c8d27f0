"""C03: dates, times, datetimes and durations mean what ISO 8601 / unix timestamps say, everywhere."""

import datetime as dt
import copy
import json
import math
import pickle

import gen as st
from core import Skip, Test
from lib import (OFFSETS, X, ValidationError, attempt, core_validator, dates, datetimes, ensure, floats, ints, mk, opt, pc, same, scalars, texts,
                 timedeltas, times, validate)
from models import temporal as M

RULE = (
    'One case = a date/time/datetime/timedelta schema (strictness, microseconds_precision, constraints) and an input: a '
    'text from the format grammar (often with one edit), a number near the watershed / year limits / zero, or a Python '
    'object; checked against a reference parser written over Python datetime and exact rationals. Non-trivial: the value '
    'is accepted, or the text is one edit away from an accepted one, or a constraint decides.'
)
ASSUMPTIONS = [
    'Durations written outside the canonical ISO order, 2e13+ float-text timestamps and results within a second of the year 0/9999 limits for fractional timestamps are not decided',
    'fractional timestamps may be off by one microsecond (binary float)',
    'naive values compare with aware bounds by wall clock (documented speedate rule)',
]

KINDS = ['date', 'time', 'datetime', 'timedelta']


def p2(n):
    return f'{n:02d}'


DATE_TXT = st.one_of(
    st.dates().map(lambda d: d.isoformat()),
    st.builds(lambda y, m, d: f'{y:04d}-{m:02d}-{d:02d}', st.sampled_from([0, 1, 4, 100, 400, 1600, 1900, 1970, 2000, 2023, 2024, 2100, 9999]),
              st.integers(0, 13), st.integers(0, 32)),
    st.builds(lambda y, d: f'{y:04d}-02-{d}', st.integers(1, 9999), st.sampled_from([28, 29, 30])),
)
FRAC = st.one_of(st.just(''), st.just(''), st.builds(lambda s, d: s + d, st.sampled_from('..,'), st.text('0123456789', min_size=1, max_size=8)))
HMS_TXT = st.one_of(
    st.builds(lambda h, m, s, f: f'{h:02d}:{m:02d}:{s:02d}{f}', st.integers(0, 23), st.integers(0, 59), st.integers(0, 59), FRAC),
    st.builds(lambda h, m, s, f: f'{h:02d}:{m:02d}:{s:02d}{f}', st.integers(20, 26), st.integers(55, 62), st.integers(55, 62), FRAC),
    st.builds(lambda h, m: f'{h:02d}:{m:02d}', st.integers(0, 24), st.integers(0, 60)),
    st.just('00:00:00'), st.just('00:00'), st.just('00:00:00.000000'),
)
TZ_TXT = st.one_of(
    st.sampled_from(['', '', '', 'Z', 'z', '+00:00', '-00:00', '+0000', '+24:00', '-23:59', '+23:59', '+12:60', '+05', '+5:30', ' Z', '+05:30:00']),
    st.builds(lambda s, h, c, m: f'{s}{h:02d}{c}{m:02d}', st.sampled_from('+-−'), st.integers(0, 24), st.sampled_from([':', '']), st.integers(0, 60)),
)
TIME_TXT = st.builds(lambda a, b: a + b, HMS_TXT, TZ_TXT)
DT_TXT = st.builds(lambda d, s, t: d + s + t, DATE_TXT, st.sampled_from(['T', 'T', ' ', 't', '_', '-', '']), TIME_TXT)
NUM_INTS = st.one_of(
    st.integers(-(10**6), 10**6).map(lambda d: d * 86400), st.integers(-(10**6), 10**6).map(lambda d: d * 86_400_000),
    st.builds(lambda b, d: b + d, st.sampled_from([0, M.WATERSHED, -M.WATERSHED, M.YEAR0, M.Y1, M.Y10K, M.YEAR0 * 1000, M.Y1 * 1000, M.Y10K * 1000,
                                                  86400, 1_600_000_000, 2**31, -(2**31), 2**63, -(2**63), 10**14, 999_999_999 * 86400, -999_999_999 * 86400]),
              st.integers(-2, 2)),
    st.integers(-(3 * 10**10), 3 * 10**10), st.integers(-(3 * 10**14), 3 * 10**14), ints())
NUM_FLOATS = st.one_of(
    NUM_INTS.filter(lambda i: abs(i) < 10**30).map(float),
    st.builds(lambda i, f: i + f, st.integers(-(2 * 10**9), 2 * 10**9), st.sampled_from([0.5, 0.25, 0.1, 0.999999, 0.9999999, 0.000001, 1e-7, 0.123456])),
    st.builds(lambda i, f: i + f, st.integers(-(10**14), 10**14), st.sampled_from([0.5, 0.25, 0.125])),
    st.builds(lambda i, f: i + f, st.integers(-2, 90000), st.floats().map(lambda f: abs(f) % 1 if math.isfinite(f) else 0.0)),
    floats())
NUM_TXT = st.one_of(NUM_INTS.map(str), NUM_FLOATS.filter(lambda f: math.isfinite(f) and abs(f) < 1e15).map(lambda f: f'{f:.6f}'.rstrip('0')),
                    st.builds(lambda s, z, d: s + '0' * z + d, st.sampled_from(['', '+', '-', '--']), st.integers(0, 2), st.text('0123456789', max_size=12)))
NUMB = st.one_of(st.integers(0, 99).map(str), st.sampled_from(['0', '1', '12', '007', '365', '999999999', '1000000000', '4294967295', '4294967296']))
NF = st.builds(lambda n, f: n + f, NUMB, st.sampled_from(['', '', '', '.5', ',5', '.25', '.1', '.000001', '.3333333']))


@st.composite
def iso_duration(draw):
    out = draw(st.sampled_from(['', '', '+', '-'])) + 'P'
    for u in 'YMWD':
        if draw(st.integers(0, 2)) == 0:
            out += draw(NF if u == 'D' or draw(st.integers(0, 4)) == 0 else NUMB) + u
    if draw(st.booleans()):
        out += 'T'
        for u in 'HMS':
            if draw(st.booleans()):
                out += draw(NF if u == 'S' or draw(st.integers(0, 4)) == 0 else NUMB) + u
    return out


DUR_TXT = st.one_of(
    iso_duration(),
    st.builds(lambda s, d, w, c, t: f'{s}{d}{w}{c}{t}', st.sampled_from(['', '', '-', '+']), NUMB, st.sampled_from([' days', 'd', ' day', 'D', ' d', 'days', ' dayz', ' d']),
              st.sampled_from([' ', ', ', ',', '']), st.one_of(st.just(''), HMS_TXT, HMS_TXT, st.just('24:00:00'), st.just('30:00:00'))),
    st.builds(lambda s, h, m, x: f'{s}{h}:{m:02d}{x}', st.sampled_from(['', '-', '+']), NUMB, st.integers(0, 61),
              st.one_of(st.just(''), st.builds(lambda s, f: f':{s:02d}{f}', st.integers(0, 61), FRAC))))


@st.composite
def edited(draw, base):
    s = draw(base)
    if draw(st.integers(0, 3)) == 0:
        i = draw(st.integers(0, len(s)))
        c = draw(st.sampled_from(list('0195-+:.,TZP DSMx_ ') + ['é', '\n', '٣']))
        s = draw(st.sampled_from([s[:i] + c + s[i:], s[:i] + s[i + 1:], s[:i] + c + s[i + 1:], s[:i], s + s, s[i:]]))
    return s


TXT = {'date': st.one_of(DATE_TXT, DATE_TXT, DT_TXT, NUM_TXT, st.builds(lambda d, t: d + 'T' + t, DATE_TXT, st.sampled_from(['00:00', '00:00:00Z', '00:00+05:00', '00:00:00.0']))),
       'datetime': st.one_of(DT_TXT, DT_TXT, DATE_TXT, NUM_TXT), 'time': st.one_of(TIME_TXT, TIME_TXT, NUM_TXT, DT_TXT), 'timedelta': st.one_of(DUR_TXT, DUR_TXT, DUR_TXT, NUM_TXT)}


@st.composite
def text_case(draw, kind):
    return (kind, draw(edited(TXT[kind])) if draw(st.integers(0, 15)) else draw(texts()), draw(st.sampled_from(['str', 'str', 'bytes', 'strsub', 'json', 'json', 'strings'])),
            draw(st.sampled_from([None, None, True, False])), draw(st.sampled_from([None, None, 'truncate', 'error'])), draw(st.sampled_from(['schema', 'config'])))


TYPE_ERR = {'date': 'date_type', 'time': 'time_type', 'datetime': 'datetime_type', 'timedelta': 'time_delta_type'}


def expect_text(kind, s, precision, fallback):
    if kind == 'date':
        return M.date_text(s, fallback)
    if kind == 'datetime':
        return M.datetime_text(s, precision, fallback)
    if kind == 'time':
        return M.time_text(s, precision)
    return M.duration_text(s, precision)


def close(a, b, us):
    if type(a) is not type(b):
        return False
    if isinstance(a, dt.time):
        a, b = (dt.datetime.combine(dt.date(2000, 1, 1), x) for x in (a, b))
    if isinstance(a, dt.datetime):
        return a.utcoffset() == b.utcoffset() and abs(a - b) <= dt.timedelta(microseconds=us)
    if isinstance(a, dt.timedelta):
        return abs(a - b) <= dt.timedelta(microseconds=us)
    return a == b


def builder(kind, strict, precision, where, extra=None):
    schema, cfg = {'type': kind, **(extra or {})}, {}
    if precision and kind != 'date':
        if where == 'schema':
            schema['microseconds_precision'] = precision
        else:
            cfg['microseconds_precision'] = precision
    if strict is not None and where == 'config':
        cfg['strict'] = strict
    v = core_validator(schema, cfg)
    return v, ({'strict': strict} if strict is not None and where != 'config' else {})


def decide(got, want, what, *info, slack=0):
    if want[0] == 'ok':
        ensure(got[0] == 'ok', f'{what}: valid input rejected', *info, got[1], want[1])
        if slack:
            ensure(close(got[1], want[1], slack), f'{what}: wrong value', *info, f'got {got[1]!r}', f'expected {want[1]!r}')
        else:
            ensure(same(got[1], want[1]), f'{what}: wrong value', *info, f'got {got[1]!r}', f'expected {want[1]!r}')
    elif want[0] == 'near':
        if want[1] is not None:
            ensure(got[0] == 'ok' and close(got[1], want[1], 2), f'{what}: wrong value', *info, got, want[1])
    else:
        ensure(got[0] == 'err', f'{what}: accepted', *info, f'got {got[1]!r}', f'expected {want[1]}')
        ensure(got[1] == [(want[1], ())], f'{what}: wrong error', *info, f'got {got[1]}', f'expected {want[1]}')


def check_text(case, rec):
    kind, s, form, strict, precision, where = case
    v, kw = builder(kind, strict, precision, where)
    arg = {'str': s, 'bytes': s.encode(), 'strsub': mk(X('str', s)), 'json': json.dumps(s), 'strings': s}[form]
    mode = 'json' if form == 'json' else 'strings' if form == 'strings' else 'python'
    got = validate(v, mode, arg, **kw)
    if mode == 'python' and strict:
        want = ('err', TYPE_ERR[kind])
    else:
        want = expect_text(kind, s, precision or 'truncate', not strict)
    rec.label(f'{kind}-{mode}-{want[0] if want else "undecided"}')
    if want is None:
        ensure(got[0] == 'ok' or len(got[1]) == 1, f'{kind} text: more than one error', arg, got)
        raise Skip
    rec.nontrivial(want[0] != 'err' or len(s) > 3)
    slack = 8 if M.FLOAT_RE.fullmatch(s) and kind == 'datetime' else 0
    decide(got, want, f'{kind} text', arg, strict, precision, slack=slack)


@st.composite
def number_case(draw, kind):
    n = draw(st.one_of(NUM_INTS, NUM_FLOATS, NUM_FLOATS))
    return kind, n, draw(st.sampled_from(['python', 'python', 'json', 'sub'])), draw(st.sampled_from([None, None, True, False])), draw(st.sampled_from([None, 'truncate', 'error']))


def check_number(case, rec):
    kind, n, form, strict, precision = case
    if form == 'json' and isinstance(n, float) and not math.isfinite(n):
        raise Skip
    v, kw = builder(kind, strict, precision, 'schema')
    arg = n
    mode = 'python'
    if form == 'json':
        mode, arg = 'json', json.dumps(n)
        if abs(n) >= 10**18 and isinstance(n, int):
            raise Skip
    elif form == 'sub':
        arg = mk(X(type(n).__name__, n))
    got = validate(v, mode, arg, **kw)
    slack = 1 if isinstance(n, float) and n != (int(n) if math.isfinite(n) else n) else 0
    if isinstance(n, int) and abs(n) >= 2**63:
        if abs(n) > 10**300:
            raise Skip
    if strict:
        want = ('err', TYPE_ERR[kind])
    elif kind in ('date', 'datetime'):
        if kind == 'date' and mode == 'json':
            pass
        d = M.int_timestamp(n) if isinstance(n, int) else M.float_timestamp(n)
        if d is None:
            raise Skip
        if d in ('range', 'year0'):
            want = ('err', 'datetime_parsing' if kind == 'datetime' else 'date_from_datetime_parsing')
            if kind == 'date' and d == 'year0':
                ensure(got[0] == 'err', 'date number: year 0 accepted', arg, got)
                raise Skip
        else:
            want = ('ok', d) if kind == 'datetime' else M.date_of(d)
            if kind == 'date' and slack and abs(d - d.replace(hour=0, minute=0, second=0, microsecond=0)) < dt.timedelta(seconds=1):
                raise Skip  # a microsecond decides
    elif kind == 'time':
        want = M.time_number(n)
        if slack and (abs(n) > 86399 or n < 0):
            want = ('err', 'time_parsing') if n < -1e-6 or n > 86400 else None
    else:
        want = M.duration_number(n)
        if want[0] == 'err' and abs(n) < 86400 * 10**9 + 1 or abs(n) > 86399 * 10**9:
            if slack or isinstance(n, float):
                want = want if abs(n) > 86400 * 10**9 else None
    if want is None:
        raise Skip
    rec.nontrivial(want[0] == 'ok' or not strict)
    rec.label(f'{kind}-{form}-{want[0]}')
    decide(got, want, f'{kind} number', arg, strict, slack=slack)


def check_object(case, rec):
    kind, x, mode_strict, where = case
    v = mk(x)
    if isinstance(v, (str, bytes, bytearray)) or (isinstance(v, (int, float)) and not isinstance(v, bool)):
        raise Skip
    val, kw = builder(kind, mode_strict, None, where)
    got = attempt(val.validate_python, v, **kw)
    strict = bool(mode_strict)
    isdt, isd, ist, istd = isinstance(v, dt.datetime), isinstance(v, dt.date), isinstance(v, dt.time), isinstance(v, dt.timedelta)
    want = None
    if kind == 'datetime':
        if isdt:
            want = ('is',)
        elif isd:
            want = ('err', 'datetime_type') if strict else ('ok', dt.datetime(v.year, v.month, v.day))
        elif ist or istd or v is None or v is True or v is False:
            want = ('err', 'datetime_type')
    elif kind == 'date':
        if isdt:
            want = ('err', 'date_type') if strict else M.date_of(v)
        elif isd:
            want = ('is',)
        elif ist or istd or v is None or v is True or v is False:
            want = ('err', 'date_type')
    elif kind == 'time':
        if ist:
            want = ('is',)
        elif isd or isdt or istd or v is None or v is True or v is False:
            want = ('err', 'time_type')
    else:
        if istd:
            want = ('is',)
        elif isd or isdt or ist or v is None:
            want = ('err', 'time_delta_type')
        elif v is True or v is False:
            want = ('err', 'time_delta_type') if strict else ('ok', dt.timedelta(seconds=int(v)))
    if want is None:
        if strict:
            want = ('err', TYPE_ERR[kind])
        else:
            raise Skip
    rec.nontrivial()
    rec.label(f'{kind}-{type(v).__name__}-{want[0]}')
    if want[0] == 'is':
        ensure(got[0] == 'ok' and got[1] is v, f'{kind} object: instance not returned as is', v, got)
    else:
        decide(got, want, f'{kind} object', v, strict)


def value_strategy(kind):
    return {'date': dates, 'time': times, 'datetime': datetimes, 'timedelta': timedeltas}[kind]()


@st.composite
def constraint_case(draw, kind):
    v = draw(value_strategy(kind))
    c = {}
    for k in ('le', 'lt', 'ge', 'gt'):
        if draw(st.integers(0, 2)) == 0:
            r = draw(st.integers(0, 3))
            if r == 0:
                c[k] = v
            elif r == 1 and kind in ('datetime', 'time'):
                a = list(v.args)
                i = draw(st.sampled_from([-1, -1, -2, -3, -4]))
                a[i] = draw(st.sampled_from([None, 'utc', *OFFSETS])) if i == -1 else draw(st.integers(0, 23 if i == -5 else 59))
                c[k] = X(v.kind, *a)
            else:
                c[k] = draw(value_strategy(kind))
    tzc = draw(st.sampled_from([None, None, None, 'naive', 'aware', 0, 3600, -3600])) if kind in ('time', 'datetime') else None
    now = draw(st.sampled_from([None, None, None, 'past', 'future'])) if kind in ('date', 'datetime') else None
    return kind, v, c, tzc, now, draw(st.sampled_from([None, 0, 3600, -86340])) if now else None, draw(st.sampled_from(['python', 'json']))


def whole_minutes(*vs):
    for v in vs:
        if isinstance(v, (dt.datetime, dt.time)) and v.tzinfo is not None and M.offset_of(v) % 60:
            return False
    return True


def check_constraint(case, rec):
    kind, x, c, tzc, now, nowoff, mode = case
    v = mk(x)
    bounds = {k: mk(b) for k, b in c.items()}
    schema = opt({'type': kind, **bounds, 'tz_constraint': tzc, 'now_op': now, 'now_utc_offset': nowoff})
    if mode == 'json' and (kind == 'timedelta' or not whole_minutes(v)):
        mode = 'python'
    try:
        val = core_validator(schema)
    except pc.SchemaError:
        raise Skip
    arg = json.dumps(v.isoformat()) if mode == 'json' else v
    got = validate(val, mode, arg)
    broken = M.first_broken(v, bounds, kind)
    if broken is None and now:
        today = dt.datetime.now(dt.timezone.utc)
        d = v if kind == 'date' else v.date()
        if abs(d - today.date()) < dt.timedelta(days=4):
            raise Skip
        if (now == 'past') != (d < today.date()):
            broken = f'{kind}_{now}'
    if broken is None and tzc is not None:
        off = M.offset_of(v)
        if tzc == 'naive':
            broken = 'timezone_naive' if off is not None else None
        elif off is None:
            broken = 'timezone_aware'
        elif tzc != 'aware' and off != tzc:
            broken = 'timezone_offset'
    rec.nontrivial(c or tzc is not None or now)
    rec.label(f'{kind}-{broken or "ok"}')
    if broken is None:
        ensure(got[0] == 'ok', f'{kind} constraint: satisfying value rejected', v, bounds, tzc, now, got[1])
        if mode == 'python':
            ensure(got[1] is v, f'{kind} constraint: value not returned as is', v, got[1])
        else:
            ensure(same(got[1], v), f'{kind} constraint: wrong value', v, got[1])
    else:
        ensure(got[0] == 'err', f'{kind} constraint: breaks {broken} but accepted', v, bounds, tzc, now)
        ensure(got[1] == [(broken, ())], f'{kind} constraint: wrong error', v, bounds, tzc, now, got[1], broken)
        try:
            validate_raise(val, mode, arg)
        except ValidationError as e:
            ctx = e.errors(include_url=False)[0].get('ctx', {})
            if broken == 'timezone_offset':
                ensure(ctx == {'tz_expected': tzc, 'tz_actual': M.offset_of(v)}, f'{kind} constraint: context', ctx)


def validate_raise(val, mode, arg):
    (val.validate_json if mode == 'json' else val.validate_python)(arg)


def tz_case():
    return st.tuples(st.one_of(st.integers(-90000, 90000), st.sampled_from([0, 1, -1, 59, 60, -60, 86399, -86399, 86400, -86400, 3600, -19800])),
                     st.one_of(st.integers(-90000, 90000), st.sampled_from([0, 3600, -3600])), datetimes(False))


def check_tz(case, rec):
    a, b, x = case
    try:
        t = pc.TzInfo(a)
    except ValueError:
        ensure(abs(a) >= 86400, 'tz: valid offset rejected', a)
        return
    ensure(abs(a) < 86400, 'tz: offset of a day or more accepted', a)
    rec.nontrivial()
    ref = dt.timezone(dt.timedelta(seconds=a))
    d = mk(x)
    ensure(t.utcoffset(None) == dt.timedelta(seconds=a), 'tz: utcoffset', a, t.utcoffset(None))
    ensure(t == ref and hash(t) == hash(ref), 'tz: differs from datetime.timezone', a)
    if abs(b) < 86400:
        u = pc.TzInfo(b)
        for got, want in ((t == u, a == b), (t < u, a < b), (t <= u, a <= b), (t > u, a > b), (t != u, a != b)):
            ensure(got == want, 'tz: comparison', a, b)
    name = 'UTC' if a == 0 else ref.tzname(None)[3:]
    ensure(str(t) == name and repr(t) == f'TzInfo({name})' and t.tzname(None) == name, 'tz: name', a, str(t), name)
    for u in (copy.deepcopy(t), copy.copy(t), pickle.loads(pickle.dumps(t))):
        ensure(u == t and type(u) is pc.TzInfo and str(u) == str(t), 'tz: copy', a)
    ensure(t.dst(None) is None, 'tz: dst')
    try:
        want = d.replace(tzinfo=dt.timezone.utc).astimezone(ref)
    except OverflowError:
        return
    got = d.replace(tzinfo=dt.timezone.utc).astimezone(t)
    ensure(got == want and got.replace(tzinfo=None) == want.replace(tzinfo=None), 'tz: fromutc', a, d, got, want)
    ensure(d.replace(tzinfo=t).isoformat() == d.replace(tzinfo=ref).isoformat(), 'tz: isoformat', a)


def roundtrip_case():
    return st.sampled_from(KINDS).flatmap(lambda k: st.tuples(st.just(k), value_strategy(k), st.sampled_from(['iso8601', 'float'])))


def check_roundtrip(case, rec):
    """What the formatter writes is ISO text of the same value (read by the stdlib and by the validator)."""
    kind, x, mode = case
    v = mk(x)
    if not whole_minutes(v):
        raise Skip
    cfg = {'ser_json_timedelta': mode} if kind == 'timedelta' else {}
    s = pc.SchemaSerializer({'type': kind}, cfg)
    text = s.to_json(v).decode()
    ensure(json.loads(text) == s.to_python(v, mode='json'), f'{kind} format: to_json and to_python differ', v, text)
    rec.nontrivial()
    out = json.loads(text)
    if kind == 'timedelta' and mode == 'float':
        ensure(out == v.total_seconds(), 'timedelta format: float seconds', v, out)
        return
    if kind == 'timedelta':
        sign = '-' if v < dt.timedelta(0) else ''
        m = M.duration_text(out, 'error')
        ensure(m == ('ok', v), 'timedelta format: text does not mean the value', v, out, m)
        ensure(out.startswith(sign + 'P'), 'timedelta format: sign', v, out)
    else:
        back = type(v).fromisoformat(out)
        ensure(back == v and M.offset_of(back) == M.offset_of(v) if kind in ('time', 'datetime') else back == v,
               f'{kind} format: text does not mean the value', v, out)
    got = attempt(core_validator({'type': kind}).validate_json, text)
    ensure(got[0] == 'ok' and same(got[1], v), f'{kind} format: does not validate back', v, out, got)
    key = {k: 1 for k in [v]}
    d = pc.SchemaSerializer({'type': 'dict', 'keys_schema': {'type': kind}}, cfg)
    ensure(list(json.loads(d.to_json(key))) == [out] and list(d.to_python(key, mode='json')) == [out], f'{kind} format: as a key', v, out)


TESTS = (
    [Test(f'text-{k}', lambda k=k: text_case(k), check_text, 100000, 3_000_000) for k in KINDS]
    + [Test(f'number-{k}', lambda k=k: number_case(k), check_number, 60000, 1_500_000) for k in KINDS]
    + [Test(f'object-{k}', lambda k=k: st.tuples(st.just(k), st.one_of(scalars(), value_strategy(k), dates(), datetimes(), datetimes(),
            st.builds(lambda d, z: X('dt', *d.args, 0, 0, 0, 0, z), dates(), st.sampled_from([None, 'utc', 3600]))),
            st.sampled_from([None, True, False]), st.sampled_from(['arg', 'config'])), check_object, 15000, 400_000) for k in KINDS]
    + [Test(f'constraint-{k}', lambda k=k: constraint_case(k), check_constraint, 50000, 900_000) for k in KINDS]
    + [Test('tzinfo', tz_case, check_tz, 15000, 400_000), Test('format', roundtrip_case, check_roundtrip, 25000, 900_000)]
)
