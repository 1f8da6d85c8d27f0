"""C02: a constrained scalar is returned iff it satisfies every constraint; the first broken one is reported."""

import decimal
import math
import re
import unicodedata
from fractions import Fraction

import gen as st
from core import Skip, Test
from lib import ODD_CHARS, Decimal, X, attempt, core_validator, decimals, ensure, floats, ints, mk, opt, same, short, texts, validate, ValidationError
from models import scalars as M

RULE = (
    'One case = a constrained int/float/decimal/str/bytes schema (constraints from the schema or, for str, the config; '
    'bounds drawn around the value) and a value, given in python or JSON mode. Non-trivial: at least one constraint is '
    'present and the value is within one step of a bound, or is rejected by a constraint.'
)
ASSUMPTIONS = [
    'float multiple_of is documented as approximate (1e-9); it is checked only where the model and the limit agree by 1e-12',
    'Unicode case mapping: CPython tables, characters unassigned there are excluded',
]

BIG = decimal.Context(prec=200)
KEYS = ['multiple_of', 'le', 'lt', 'ge', 'gt']


@st.composite
def numeric_case(draw, kind):
    if kind == 'int':
        v = draw(ints())
        near = lambda: draw(st.one_of(st.sampled_from([v, v + 1, v - 1, v, 0, 2**63, 2**63 - 1, -(2**63), -(2**63) - 1]), ints()))  # noqa: E731
        mult = lambda: draw(st.one_of(st.sampled_from([1, 2, 3, 7, 10, -1, -3, 2**63, -(2**63), 2**64, 10**30]), ints().filter(bool)))  # noqa: E731
    elif kind == 'float':
        v = draw(floats())
        near = lambda: draw(st.one_of(  # noqa: E731
            st.sampled_from([v, math.nextafter(v, math.inf), math.nextafter(v, -math.inf), 0.0, 1.0]), floats(False)))
        mult = lambda: draw(st.sampled_from([0.1, 0.5, 0.25, 1.0, 2.0, 3.0, 0.01, 1e-3, 7.5, -0.5]))  # noqa: E731
    else:
        v = draw(decimals())
        step = lambda d: draw(st.sampled_from([Decimal(0), Decimal(0), Decimal('1E-3'), Decimal(1)]))  # noqa: E731
        near = lambda: draw(st.one_of(st.just(v), decimals(False))) if not v.is_finite() else draw(  # noqa: E731
            st.one_of(st.just(v), st.just(M.stripped(v)), decimals(False)))
        mult = lambda: draw(st.sampled_from([Decimal('0.1'), Decimal('0.01'), Decimal(1), Decimal(3), Decimal('2.5'), Decimal('1E+2'), Decimal('-0.5')]))  # noqa: E731
    c = {}
    if draw(st.integers(0, 2)) == 0:
        c['multiple_of'] = m = mult()
        if kind == 'int' and draw(st.booleans()):
            v = m * draw(st.integers(-5, 5))
        if kind == 'float' and draw(st.booleans()):
            v = m * draw(st.integers(-2000, 2000)) + draw(st.sampled_from([0.0, 0.0, 1e-12, 1e-7, 0.05]))
        if kind == 'decimal' and draw(st.booleans()):
            v = m * draw(st.integers(-2000, 2000))
        elif kind == 'decimal' and draw(st.booleans()):
            n = draw(st.one_of(st.integers(10**27, 10**30), st.integers(10**60, 10**61), st.just(10**40 + 5)))
            v = M.exact_product(n, m).scaleb(draw(st.sampled_from([0, 0, 3, -30, 40])), BIG)
    for k in KEYS[1:]:
        if draw(st.integers(0, 2)) == 0:
            b = near()
            if kind == 'decimal' and not b.is_finite():
                continue
            if kind == 'float' and not math.isfinite(b):
                continue
            c[k] = b
    if kind == 'decimal':
        if draw(st.booleans()):
            c['max_digits'] = draw(st.integers(1, 12))
        if draw(st.booleans()):
            c['decimal_places'] = draw(st.integers(0, 8))
        if draw(st.integers(0, 4)) == 0 and 'max_digits' not in c and 'decimal_places' not in c:
            c['allow_inf_nan'] = True
    if kind == 'float' and draw(st.integers(0, 3)) == 0:
        c['allow_inf_nan'] = draw(st.booleans())
    if c and draw(st.integers(0, 5)) == 0:  # give the value in another form
        form = draw(st.sampled_from(['str', 'sub', 'json', 'jsonstr']))
    else:
        form = 'exact'
    return kind, v, c, form, draw(st.sampled_from([None, True, False]))


NAMES = {'multiple_of': 'multiple_of', 'less_than_equal': 'le', 'less_than': 'lt', 'greater_than_equal': 'ge', 'greater_than': 'gt'}


def check_numeric(case, rec):
    kind, v, c, form, strict = case
    constraints = dict(c)
    allow = constraints.pop('allow_inf_nan', kind != 'decimal')
    digits = constraints.pop('max_digits', None), constraints.pop('decimal_places', None)
    m = constraints.get('multiple_of')
    isfin = True if kind == 'int' else (math.isfinite(v) if kind == 'float' else v.is_finite())
    if m is not None:
        if kind == 'float':
            if not isfin:
                raise Skip
            exact = abs(Fraction(v) - round(Fraction(v) / Fraction(m)) * Fraction(m))
            if abs(v / m) >= 2**50 or abs(exact - Fraction(1, 10**9)) < Fraction(1, 10**11):
                raise Skip
            if abs(v) > 1e5:
                raise Skip  # the rounding error of the product approaches the documented tolerance
    validator = core_validator({'type': kind, **c})
    mode = 'python'
    arg = v
    if form == 'sub':
        arg = mk(X({'int': 'int', 'float': 'float', 'decimal': 'dec'}[kind], v))
    elif form == 'str':
        arg = repr(v) if kind == 'float' else str(v)
    elif form in ('json', 'jsonstr'):
        mode = 'json'
        if kind == 'float':
            arg = repr(v) if form == 'json' else f'"{v!r}"'
            if not isfin:
                raise Skip
        else:
            if kind == 'decimal' and (not isfin or form == 'json'):
                raise Skip
            arg = str(v) if form == 'json' else f'"{v}"'
    kw = {} if strict is None or form in ('str', 'jsonstr') else {'strict': strict}
    got = validate(validator, mode, arg, **kw)
    # ---- reference
    broken = None
    if not isfin and not allow:
        broken = 'finite_number'
    if broken is None and kind == 'decimal' and digits != (None, None):
        broken = M.check_decimal_digits(v, *digits)
    if broken is None:
        if m is not None and kind == 'decimal':
            if not M.decimal_multiple(v, m):
                broken = 'multiple_of'
            rest = {k: x for k, x in constraints.items() if k != 'multiple_of'}
            broken = broken or M.check_number(kind, v, rest)
        elif m is not None and kind == 'float':
            q = Fraction(v) / Fraction(m)
            if abs(Fraction(v) - round(q) * Fraction(m)) > Fraction(1, 10**9):
                broken = 'multiple_of'
            rest = {k: x for k, x in constraints.items() if k != 'multiple_of'}
            broken = broken or M.check_number(kind, v, rest)
        else:
            broken = M.check_number(kind, v, constraints)
    rec.label(f'{kind}-{form}-{broken or "ok"}')
    rec.nontrivial(bool(c) and (broken is not None or any(constraints.get(k) is not None and isfin and abs(constraints[k] - v) <= 1 for k in KEYS[1:])
                                or m is not None or digits != (None, None)))
    if broken is None:
        ensure(got[0] == 'ok', f'{kind}: satisfies every constraint but was rejected', arg, c, got[1])
        ensure(same(got[1], v) or (form == 'sub' and got[1] == v and type(got[1]) is type(v)) or v != v or (form == 'str' and got[1] == v),
               f'{kind}: value changed', v, got[1])
    else:
        ensure(got[0] == 'err', f'{kind}: breaks {broken} but was accepted', arg, c)
        ensure(got[1] == [(broken, ())], f'{kind}: wrong error', arg, c, got[1], f'expected {broken}')
        if broken in NAMES:
            try:
                validator.validate_python(arg, **kw) if mode == 'python' else validator.validate_json(arg, **kw)
            except ValidationError as e:
                ctx = e.errors(include_url=False)[0]['ctx']
                name = NAMES[broken]
                ensure(set(ctx) == {name} and ctx[name] == c[name], f'{kind}: error context', ctx, c)


# ----------------------------------------------------------------------------------------------------------- str
def assigned(s):
    return all(unicodedata.category(ch) != 'Cn' for ch in s)


PATTERNS = ['^a', 'b$', r'^\d+$', '[a-c]+x?', '^$', r'\s', '(ab)+', '^[A-Z][a-z]*', r'\bfoo', 'é', '.', r'^.{3}$', '(?i)abc']


@st.composite
def str_case(draw):
    s = draw(st.one_of(texts(), st.text('abcABC 0x', max_size=5), st.builds(
        lambda a, b, c: a + b + c, st.sampled_from(['', ' ', '\t\n', '\xa0', '\u2003', '\u200b', '\x1c']), st.text('aßéİΣσABC1', max_size=4),
        st.sampled_from(['', '  ', '\r\n', '\u3000', '\x85', '\x1f', 'Σ']))))
    c, cfg = {}, {}
    for k, ck, strat in (
        ('strip_whitespace', 'str_strip_whitespace', st.booleans()),
        ('to_lower', 'str_to_lower', st.booleans()),
        ('to_upper', 'str_to_upper', st.booleans()),
        ('min_length', 'str_min_length', st.one_of(st.integers(0, 6), st.sampled_from([len(s), len(s) + 1, len(s.strip())]))),
        ('max_length', 'str_max_length', st.one_of(st.integers(0, 6), st.sampled_from([len(s), max(0, len(s) - 1), len(s.strip())]))),
    ):
        if draw(st.integers(0, 2)) == 0:
            c[k] = draw(strat)
        if draw(st.integers(0, 5)) == 0:
            cfg[ck] = draw(strat)
    if draw(st.integers(0, 3)) == 0:
        c['pattern'] = draw(st.one_of(st.sampled_from(PATTERNS), st.just('^' + re.escape(s[:3]) if s.isascii() and s.isalnum() else 'x')))
        if draw(st.booleans()):
            (c if draw(st.booleans()) else cfg)['regex_engine'] = draw(st.sampled_from(['rust-regex', 'python-re']))
    form = draw(st.sampled_from(['exact', 'exact', 'sub', 'bytes', 'ba', 'json', 'strings']))
    return s, c, cfg, form


def check_str(case, rec):
    s, c, cfg, form = case
    if not assigned(s):
        raise Skip
    if c.get('pattern') and ('\n' in s or (r'\s' in c['pattern'] and any(ch in s for ch in '\x1c\x1d\x1e\x1f\x85'))):
        raise Skip  # the two regex engines differ on `$` before a newline and on \s for C1 separators
    if c.get('pattern') and not s.isascii():
        engine = c.get('regex_engine') or cfg.get('regex_engine') or 'rust-regex'
        if '(?i)' in c['pattern'] or r'\b' in c['pattern'] or (r'\d' in c['pattern'] and engine == 'rust-regex' and not all(x.isascii() for x in s if x.isnumeric())):
            raise Skip
    if any(k.endswith(('to_lower', 'to_upper')) for k in [*c, *cfg]) and any(ord(ch) > 0x17F and not 0x370 <= ord(ch) < 0x460 and ch not in ODD_CHARS for ch in s):
        raise Skip  # newer Unicode versions than CPython's add case pairs
    v = core_validator({'type': 'str', **c}, cfg or None)
    arg = {'exact': s, 'sub': mk(X('str', s)), 'bytes': s.encode(), 'ba': bytearray(s.encode()), 'json': __import__('json').dumps(s), 'strings': s}[form]
    got = validate(v, 'json' if form == 'json' else 'strings' if form == 'strings' else 'python', arg)

    def opt_(k, ck, default):
        return c[k] if k in c else cfg.get(ck, default)

    w = s
    if opt_('strip_whitespace', 'str_strip_whitespace', False):
        w = w.strip(M.WS)
    broken = None
    mn, mx = opt_('min_length', 'str_min_length', None), opt_('max_length', 'str_max_length', None)
    if mn is not None and len(w) < mn:
        broken = 'string_too_short'
    elif mx is not None and len(w) > mx:
        broken = 'string_too_long'
    elif c.get('pattern') and not re.search(c['pattern'], w):
        broken = 'string_pattern_mismatch'
    out = w
    if opt_('to_lower', 'str_to_lower', False):
        out = w.lower()
    elif opt_('to_upper', 'str_to_upper', False):
        out = w.upper()
    rec.nontrivial(bool(c or cfg) and (broken is not None or out != s or len(w) in (mn, mx)))
    rec.label(f'str-{broken or "ok"}')
    if broken:
        ensure(got == ('err', [(broken, ())]), 'str: expected ' + broken, arg, c, cfg, got)
        try:
            v.validate_json(arg) if form == 'json' else v.validate_strings(arg) if form == 'strings' else v.validate_python(arg)
        except ValidationError as e:
            ctx = e.errors(include_url=False)[0]['ctx']
            want = {'string_too_short': {'min_length': mn}, 'string_too_long': {'max_length': mx}, 'string_pattern_mismatch': {'pattern': c.get('pattern')}}[broken]
            ensure(ctx == want, 'str: error context', ctx, want)
    else:
        ensure(got[0] == 'ok', 'str: satisfies every constraint but was rejected', arg, c, cfg, got[1])
        ensure(same(got[1], out), 'str: wrong value', arg, c, cfg, f'got {got[1]!r}', f'expected {out!r}')


def bytes_case():
    return st.tuples(st.binary(max_size=8), st.sampled_from([None, 0, 1, 2, 3, 5, 8]), st.sampled_from([None, 0, 1, 2, 3, 5, 8]),
                     st.sampled_from(['exact', 'ba', 'sub', 'json-utf8', 'json-hex', 'json-base64']))


def check_bytes(case, rec):
    import base64

    b, mn, mx, form = case
    cfg = {}
    mode, arg = 'python', b
    if form == 'ba':
        arg = bytearray(b)
    elif form == 'sub':
        arg = mk(X('bytes', b))
    elif form.startswith('json'):
        enc = form[5:]
        cfg = {'val_json_bytes': enc}
        mode = 'json'
        if enc == 'utf8':
            b = ''.join(chr(x) for x in b)
            arg = __import__('json').dumps(b)
            b = b.encode()
        else:
            arg = '"' + (b.hex() if enc == 'hex' else base64.urlsafe_b64encode(b).decode()) + '"'
    v = core_validator(opt({'type': 'bytes', 'min_length': mn, 'max_length': mx}), cfg)
    got = validate(v, mode, arg)
    broken = 'bytes_too_short' if mn is not None and len(b) < mn else 'bytes_too_long' if mx is not None and len(b) > mx else None
    rec.nontrivial(broken or len(b) in (mn, mx))
    if broken:
        ensure(got == ('err', [(broken, ())]), 'bytes: expected ' + broken, arg, mn, mx, got)
    else:
        ensure(got[0] == 'ok' and bytes(got[1]) == b, 'bytes: satisfies every constraint but', arg, mn, mx, got)


TESTS = [
    Test('int', lambda: numeric_case('int'), check_numeric, 150000, 3_000_000),
    Test('float', lambda: numeric_case('float'), check_numeric, 150000, 3_000_000),
    Test('decimal', lambda: numeric_case('decimal'), check_numeric, 120000, 2_500_000),
    Test('str', str_case, check_str, 150000, 3_000_000),
    Test('bytes', bytes_case, check_bytes, 20000, 600_000),
]
