"""Reference model of date/time/datetime/timedelta conversion, from the documented formats (ISO 8601 subset, unix timestamps).

Each function returns ('ok', value), ('err', type) or None where the documentation does not decide."""

from __future__ import annotations

import datetime as dt
import math
import re
from fractions import Fraction

EPOCH = dt.datetime(1970, 1, 1)
WATERSHED = 20_000_000_000
YEAR0 = -62_167_219_200
Y1 = -62_135_596_800
Y10K = 253_402_300_800

DATE_RE = re.compile(r'([0-9]{4})-([0-9]{2})-([0-9]{2})')
TIME_RE = re.compile(r'([0-9]{2}):([0-9]{2})(?::([0-9]{2})(?:[.,]([0-9]+))?)?(Z|z|([+\-−])([0-9]{2}):?([0-9]{2}))?')
INT_RE = re.compile(r'[+-]?[0-9]+')
FLOAT_RE = re.compile(r'[+-]?[0-9]+\.[0-9]*')
I64 = range(-(2**63), 2**63)


def tz(seconds):
    return None if seconds is None else dt.timezone(dt.timedelta(seconds=seconds))


def parse_date(s):
    """A dt.date, 'year0' or None."""
    m = DATE_RE.fullmatch(s)
    if not m:
        return None
    y, mo, d = map(int, m.groups())
    if y == 0:
        try:
            dt.date(2000, mo, d)  # the year 0 would be a leap year
        except ValueError:
            return None
        return 'year0'
    try:
        return dt.date(y, mo, d)
    except ValueError:
        return None


def parse_time(s, precision):
    m = TIME_RE.fullmatch(s)
    if not m:
        return None
    h, mi, sec, frac, z, sign, zh, zm = m.groups()
    off = None
    if z in ('Z', 'z'):
        off = 0
    elif z:
        if int(zm) > 59:
            return None
        off = int(zh) * 3600 + int(zm) * 60
        if off >= 86400:
            return None
        if sign != '+':
            off = -off
    us = 0
    if frac:
        if len(frac) > 6 and precision == 'error':
            return None
        us = int(frac[:6].ljust(6, '0'))
    try:
        return dt.time(int(h), int(mi), int(sec or 0), us, tz(off))
    except ValueError:
        return None


def parse_dt(s, precision):
    if len(s) < 11 or s[10] not in 'Tt _':
        return None
    d = parse_date(s[:10])
    t = parse_time(s[11:], precision)
    if d is None or t is None:
        return None
    if d == 'year0':
        return 'year0'
    return dt.datetime.combine(d, t)


def from_seconds(sec: Fraction, precise: bool):
    """Exact seconds since the epoch -> aware datetime, 'year0', 'range' or None (too close to call)."""
    us = sec * 1_000_000
    n = round(us)
    if not precise and (n // 1_000_000 in (YEAR0 - 1, YEAR0, Y1 - 1, Y1, Y10K - 1, Y10K)):
        return None
    whole = n // 1_000_000
    if whole < YEAR0 or whole >= Y10K:
        return 'range'
    if whole < Y1:
        return 'year0'
    return (EPOCH + dt.timedelta(microseconds=n)).replace(tzinfo=dt.timezone.utc)


def int_timestamp(i):
    return from_seconds(Fraction(i) if abs(i) <= WATERSHED else Fraction(i, 1000), True)


def float_timestamp(f):
    if f != f or abs(f) == math.inf:
        return 'range'
    if abs(abs(f) - WATERSHED) < 2 and f != int(f):
        return None
    if abs(f) > 1e16:
        return 'range'
    fr = Fraction(f)
    if f == int(f):
        return int_timestamp(int(f))
    return from_seconds(fr if abs(f) <= WATERSHED else fr / 1000, False)


def text_timestamp(s, precision):
    """'not' when the text is not a number at all."""
    if INT_RE.fullmatch(s):
        i = int(s)
        return int_timestamp(i) if i in I64 and abs(i) < 2**63 else 'not'
    if FLOAT_RE.fullmatch(s):
        ip, frac = s.lstrip('+-').split('.')
        if int(ip) not in I64:
            return 'not'
        if int(ip) > 2 * 10**13 or abs(int(ip) - WATERSHED) < 2:
            return None
        if precision == 'error':
            if len(frac) > (3 if int(ip) > WATERSHED else 6):
                return 'precision'
        fr = Fraction(s if not s.endswith('.') else s + '0')
        if len(frac) > 12:
            return None
        return from_seconds(fr if abs(fr) <= WATERSHED else fr / 1000, False)
    return 'not'


def datetime_text(s, precision, fallback, strict_name='datetime_parsing'):
    d = parse_dt(s, precision)
    if d == 'year0':
        return 'err', 'datetime_parsing'
    if d is not None:
        return 'ok', d
    t = text_timestamp(s, precision)
    if t is None:
        return None
    if isinstance(t, dt.datetime):
        return 'ok', t
    if t == 'year0':
        return 'err', 'datetime_parsing'
    if not fallback:
        return 'err', 'datetime_parsing'
    day = parse_date(s)
    if day == 'year0':
        return 'err', 'datetime_parsing'
    if day is not None:
        return 'ok', dt.datetime(day.year, day.month, day.day)
    return 'err', 'datetime_from_date_parsing'


def inexact(d):
    return d.replace(tzinfo=None).time() != dt.time(0)


def date_text(s, fallback):
    d = parse_date(s)
    if d == 'year0':
        return 'err', 'date_parsing'
    if d is not None:
        return 'ok', d
    if INT_RE.fullmatch(s) and int(s) in I64 and abs(int(s)) < 2**63:
        t = int_timestamp(int(s))
        if isinstance(t, dt.datetime) and not inexact(t):
            return 'ok', t.date()
        if t == 'year0' and int(s) % (86400 if abs(int(s)) <= WATERSHED else 86_400_000) == 0:
            return 'err', 'date_parsing'
    if not fallback:
        return 'err', 'date_parsing'
    x = parse_dt(s, 'truncate')
    if x == 'year0':
        return None
    if x is None:
        x = text_timestamp(s, 'truncate')
        if x is None or x == 'year0':
            return None
        if not isinstance(x, dt.datetime):
            return 'err', 'date_from_datetime_parsing'
    return date_of(x)


def date_of(d):
    return ('err', 'date_from_datetime_inexact') if inexact(d) else ('ok', d.date())


def time_text(s, precision):
    t = parse_time(s, precision)
    return ('err', 'time_parsing') if t is None else ('ok', t)


def time_number(v):
    if v != v or v < 0 or v >= 86400:
        return 'err', 'time_parsing'
    us = round(Fraction(v) * 1_000_000)
    if us >= 86400 * 1_000_000:
        return 'err', 'time_parsing'
    t = (EPOCH + dt.timedelta(microseconds=us)).time()
    return 'ok', t.replace(tzinfo=dt.timezone.utc)


# ---------------------------------------------------------------------------------------------------- durations
ISO_RE = re.compile(
    r'([+-]?)P(?=.)(?:([0-9]+)([.,][0-9]+)?Y)?(?:([0-9]+)([.,][0-9]+)?M)?(?:([0-9]+)([.,][0-9]+)?W)?(?:([0-9]+)([.,][0-9]+)?D)?'
    r'(?:T(?=.)(?:([0-9]+)([.,][0-9]+)?H)?(?:([0-9]+)([.,][0-9]+)?M)?(?:([0-9]+)([.,][0-9]+)?S)?)?'
)
UNITS = [365 * 86400, 30 * 86400, 7 * 86400, 86400, 3600, 60, 1]
DAYS_RE = re.compile(r'([+-]?)([0-9]+) ?(?:[dD]|days?|DAYS?|Days?)(?:(?:, ?| )?([0-9]{1,10}):([0-9]{2})(?::([0-9]{2})(?:\.([0-9]+))?)?)?')
HMS_RE = re.compile(r'([+-]?)([0-9]{1,10}):([0-9]{2})(?::([0-9]{2})(?:\.([0-9]+))?)?')
CLEARLY_BAD = re.compile(r'[^0-9PpYyMmWwDdTtHhSsAa:.,+\- ]')


def delta(sign, us):
    if sign == '-':
        us = -us
    try:
        return 'ok', dt.timedelta(microseconds=us)
    except OverflowError:
        return 'err', 'time_delta_parsing'


def duration_text(s, precision):
    bad = ('err', 'time_delta_parsing')
    m = ISO_RE.fullmatch(s)
    if m:
        g = m.groups()
        total = Fraction(0)
        seen_fraction = False
        for i, unit in enumerate(UNITS):
            n, f = g[1 + 2 * i], g[2 + 2 * i]
            if n is None:
                continue
            if seen_fraction:
                return bad
            if int(n) >= 2**32 // max(1, unit // 86400 if unit >= 86400 else unit):
                return None  # component overflow: representable or not is up to the implementation
            x = Fraction(int(n))
            if f:
                if len(f) > 7:
                    return None
                seen_fraction = True
                x += Fraction(int(f[1:]), 10 ** len(f[1:]))
            total += x * unit
        if sum(int(n) * u for n, u in zip(g[9::2], UNITS[4:]) if n) > 2**32 - 10**6 or sum(int(n) * u for n, u in zip(g[1:9:2], UNITS[:4]) if n) > 86400 * (2**32 - 10**6):
            return None
        us = total * 1_000_000
        if us.denominator != 1:
            return 'near', dt.timedelta(microseconds=round(us) * (-1 if g[0] == '-' else 1)) if us < 86399 * 10**6 * 10**9 else None
        return delta(g[0], us.numerator)
    m = HMS_RE.fullmatch(s)
    days = 0
    if m:
        sign, h, mi, sec, frac = m.groups()
        if int(h) > 24 * 10**8:
            return bad
    else:
        m = DAYS_RE.fullmatch(s)
        if not m:
            if re.search(r':[0-9]{2}:[0-9]{2}[.,][0-9]{6}', s):
                return None  # speedate drops whatever follows the sixth digit of a fraction
            if CLEARLY_BAD.search(s) and not re.match(r'[+-]?[0-9]*:', s) or not any(c in s for c in ':PDdy') or s == '' or INT_RE.fullmatch(s):
                return bad
            return None
        if 'Days' in s or 'Day' in s:
            return None
        sign, d, h, mi, sec, frac = m.groups()
        days = int(d)
        if days > 999_999_999:
            return bad
        if h is None:
            return delta(sign, days * 86400 * 10**6)
        if int(h) >= 24:
            return bad
    if int(mi) > 59 or int(sec or 0) > 59:
        return bad
    if len(h + mi) + 1 + (1 + len(sec) if sec else 0) < 5:
        return None  # "1:30": a bare one-digit hour without seconds is rejected, which no document decides
    us = 0
    if frac:
        if len(frac) > 6:
            if precision == 'error':
                return bad
        us = int(frac[:6].ljust(6, '0'))
    return delta(sign, ((days * 86400) + int(h) * 3600 + int(mi) * 60 + int(sec or 0)) * 10**6 + us)


def duration_number(v):
    if v != v or abs(v) == math.inf:
        return 'err', 'time_delta_parsing'
    us = Fraction(v) * 1_000_000
    try:
        return 'ok', dt.timedelta(microseconds=round(us))
    except OverflowError:
        return 'err', 'time_delta_parsing'


# --------------------------------------------------------------------------------------------------- constraints
def offset_of(d):
    o = d.utcoffset() if not isinstance(d, dt.time) else (d.tzinfo.utcoffset(None) if d.tzinfo else None)
    return None if o is None else round(o.total_seconds())


def key(v, other):
    """Comparison keys of two datetimes/times: instants when both are aware, wall clocks otherwise."""
    if isinstance(v, dt.time):
        def wall(t):
            return ((t.hour * 60 + t.minute) * 60 + t.second) * 10**6 + t.microsecond
    else:
        def wall(t):
            return (t.replace(tzinfo=None) - EPOCH) // dt.timedelta(microseconds=1)
    a, b = wall(v), wall(other)
    if offset_of(v) is not None and offset_of(other) is not None:
        a -= offset_of(v) * 10**6
        b -= offset_of(other) * 10**6
    return a, b


def first_broken(v, constraints, kind):
    for name, err in (('le', 'less_than_equal'), ('lt', 'less_than'), ('ge', 'greater_than_equal'), ('gt', 'greater_than')):
        if name not in constraints:
            continue
        b = constraints[name]
        x, y = (v, b) if kind in ('date', 'timedelta') else key(v, b)
        if not {'le': x <= y, 'lt': x < y, 'ge': x >= y, 'gt': x > y}[name]:
            return err
    return None
