"""C01: every scalar validator implements the documented conversion table, for every input, mode and strictness."""

import json
import math

import gen as st
from core import Skip, Test
from lib import (Decimal, X, attempt, core_validator, decimals, dumps, ensure, floats, ints, mk, opt, rust_float_alike, same, scalars, short,
                 texts, uuid_int, uuids, validate)
from models import scalars as M

RULE = (
    'One case = one scalar schema (int/float/str/bytes/bool/decimal/complex/uuid/none, options and the three strictness '
    'sources drawn) applied to one drawn input in one of the python/json/strings modes. Non-trivial: the input is not '
    'already an exact instance of the target type, or the outcome is an error other than the plain wrong-type error.'
)
ASSUMPTIONS = [
    'CPython int()/float()/Decimal()/complex()/uuid semantics are the reference for the meaning of a text',
    'float texts that mix underscores with whitespace, signs or exponents, and partially padded base64, are unspecified',
]

WS = st.sampled_from(['', '', '', '', ' ', '\n', '\t ', '\xa0', '\u3000', '\u2003', '\x0b', '\x1c', '\u200b'])
DIG = st.text('0123456789', min_size=1, max_size=5)


def digit_runs():
    return st.one_of(
        st.lists(DIG, min_size=1, max_size=3).map('_'.join),
        st.lists(DIG, min_size=1, max_size=2).map('__'.join),
        ints().map(lambda i: str(abs(i))),
        st.builds(lambda z, d: '0' * z + d, st.integers(0, 4), DIG),
        st.builds(lambda a, n: a * n, st.sampled_from('0159'), st.sampled_from([1, 18, 19, 20, 40, 308, 310])),
        st.just('0'), st.just('00'), st.just(''), st.just('_1'), st.just('1_'), st.just('0_0'), st.just('٣'), st.just('１'),
    )


def int_texts():
    return st.builds(
        lambda w, sg, z, d, suf, w2: w + sg + z + d + suf + w2,
        WS,
        st.sampled_from(['', '', '', '+', '-', '-', '--', '+-', '-+', '++', ' -']),
        st.sampled_from(['', '', '', '', '0', '0_', '00', '0__', '0-', '0+']),
        digit_runs(),
        st.sampled_from(['', '', '', '', '.0', '.000', '.', '.5', '.0_0', '.0e1', 'e1', 'e0', '_.0', 'x', 'L', '.0 ', '_']),
        WS,
    )


def float_texts():
    return st.builds(
        lambda w, sg, a, p, b, e, w2: w + sg + a + p + b + e + w2,
        WS,
        st.sampled_from(['', '', '+', '-', '--', '+-']),
        st.one_of(digit_runs(), st.sampled_from(['inf', 'Infinity', 'NaN', 'nan', 'INF', 'infinit', 'nan1'])),
        st.sampled_from(['', '.', '.', '..']),
        st.one_of(st.just(''), digit_runs()),
        st.sampled_from(['', '', '', 'e5', 'E-3', 'e+10', 'e', 'e400', 'e-400', 'e1.5', 'p3', 'f']),
        WS,
    )


def bool_texts():
    return st.one_of(
        st.sampled_from(sorted(M.TRUE | M.FALSE)).flatmap(
            lambda s: st.sampled_from([s, s.upper(), s.title(), s + ' ', ' ' + s, s[:-1], s + s, s.swapcase()])
        ),
        st.sampled_from(['2', '-1', '00', '01', 'oN', 'oﬀ', 'ſ', 'TRUE', 'tRUE', '', 'none', '１', 'K']),
    )


def byte_texts():
    import base64

    def enc(b, how, pad):
        if how == 'hex':
            return b.hex().upper() if pad else b.hex()
        s = (base64.urlsafe_b64encode if how == 'url' else base64.b64encode)(b).decode()
        return s if pad else s.rstrip('=')

    good = st.builds(enc, st.binary(max_size=9), st.sampled_from(['hex', 'url', 'std']), st.booleans())
    return st.one_of(
        good,
        good,
        st.builds(lambda s, i, c: s[: i % (len(s) + 1)] + c + s[i % (len(s) + 1) + 1 :], good, st.integers(0, 20),
                  st.sampled_from(['=', '+', '/', '-', '_', 'A', 'g', ' ', '\n', 'é', 'B', '==', ''])),
        st.text('AQgw+/-_=', max_size=9),
    )


def uuid_texts():
    def form(i, how, up):
        h = f'{i:032x}'
        hy = f'{h[:8]}-{h[8:12]}-{h[12:16]}-{h[16:20]}-{h[20:]}'
        s = {
            'hy': hy, 'hex': h, 'br': '{' + hy + '}', 'urn': 'urn:uuid:' + hy, 'brhex': '{' + h + '}', 'urnhex': 'urn:uuid:' + h,
            'sp': hy + ' ', 'short': hy[:-1], 'long': hy + '0', 'moved': h[:7] + '-' + h[7:11] + '-' + h[11:16] + '-' + h[16:20] + '-' + h[20:],
            'bad': hy[:5] + 'g' + hy[6:], 'half': '{' + hy, 'urnbad': 'URN:UUID:' + hy, 'nodash': hy.replace('-', '', 1), 'ud': hy.replace('-', '_'),
        }[how]
        return s.upper() if up and how not in ('urn', 'urnhex') else s

    return st.builds(
        form,
        uuids(),
        st.sampled_from(['hy', 'hy', 'hex', 'br', 'urn', 'brhex', 'urnhex', 'sp', 'short', 'long', 'moved', 'bad', 'half', 'urnbad', 'nodash', 'ud']),
        st.booleans(),
    )


def decimal_texts():
    return st.one_of(float_texts(), decimals().map(str), st.sampled_from(['sNaN', 'NaN123', '-Infinity', '1_0.5', '1e999999', '１.5']))


def complex_texts():
    part = st.one_of(st.sampled_from(['1', '1.5', '-2', '+3e2', 'inf', 'nan', '.5', '', '0']), DIG)
    return st.one_of(
        st.builds(lambda a, s, b, j: a + s + b + j, part, st.sampled_from(['+', '-', '', ' + ']), part, st.sampled_from(['j', 'J', 'i', ''])),
        st.builds(lambda a: f'({a})', st.sampled_from(['1+2j', '1', '1 + 2j', ''])),
    )


TEXTS = {
    'int': int_texts, 'float': float_texts, 'bool': bool_texts, 'bytes': byte_texts, 'uuid': uuid_texts,
    'decimal': decimal_texts, 'complex': complex_texts, 'str': texts, 'none': lambda: st.sampled_from(['None', 'null', '']),
}

SURR = st.sampled_from(['\ud800', 'a\udfff1', '1\ud83d'])


def options(t):
    if t == 'float' or t == 'decimal':
        return st.fixed_dictionaries({'allow_inf_nan': st.sampled_from([None, True, False]),
                                      'cfg_allow_inf_nan': st.sampled_from([None, None, True, False])})
    if t == 'str':
        return st.fixed_dictionaries({'coerce': st.sampled_from([None, True, True, False]), 'cfg_coerce': st.sampled_from([None, None, True, False])})
    if t == 'bytes':
        return st.fixed_dictionaries({'enc': st.sampled_from([None, 'utf8', 'base64', 'base64', 'hex'])})
    if t == 'uuid':
        return st.fixed_dictionaries({'version': st.sampled_from([None, None, 1, 3, 4, 5, 6, 7, 8])})
    return st.just({})


TRI = st.sampled_from([None, None, True, False])


def py_values(t):
    tx = TEXTS[t]()
    parts = [scalars(), tx, tx, tx.map(lambda s: X('str', s)), tx.map(lambda s: s.encode()), tx.map(lambda s: X('bytes', s.encode())),
             tx.map(lambda s: X('ba', s.encode())), SURR, SURR.map(lambda s: X('str', s)), st.sampled_from([b'\xff', b'1\xe9', X('ba', b'\xff'), [], {}, (1,)])]
    if t == 'uuid':
        parts += [uuids().map(lambda i: X('uuid', i)), uuids().map(lambda i: i.to_bytes(16, 'big')), st.binary(min_size=15, max_size=17)]
    if t in ('int', 'float', 'bool', 'decimal', 'complex', 'str'):
        parts += [floats(), ints(), decimals(), floats().map(lambda f: X('hasfloat', f)), ints(False).map(lambda i: X('hasindex', i))]
    return st.one_of(parts)


def json_texts(t):
    tx = TEXTS[t]()
    num = st.one_of(
        ints().map(str),
        floats(False).map(repr),
        st.builds(lambda i, f, e: f'{i}.{f}{e}', ints(), DIG, st.sampled_from(['', 'e3', 'E-2', 'e+20', 'e-300', 'e400'])),
        st.builds(lambda i, e: f'{i}{e}', ints(), st.sampled_from(['e0', 'e5', 'E+2', 'e-1'])),
        st.sampled_from(['1.0', '0.0', '-0.0', '1e0', '0e5', '-0', 'NaN', 'Infinity', '-Infinity', '9223372036854775807', '9223372036854775808',
                         '-9223372036854775808', '-9223372036854775809', '1e22', '1e23', '123456789012345678901234567890']),
    )
    return st.one_of(num, num, tx.map(dumps), tx.map(dumps), tx.map(json.dumps), texts().map(dumps),
                     st.sampled_from(['true', 'false', 'null', '[]', '{}', '""', '[1]']))


def case_for(t):
    def go(mode):
        val = {'python': py_values(t), 'json': json_texts(t), 'strings': st.one_of(TEXTS[t](), texts())}[mode]
        return st.tuples(st.just(t), options(t), st.tuples(TRI, TRI, TRI), st.just(mode), val)

    return st.sampled_from(['python', 'python', 'json', 'strings']).flatmap(go)


def eff(*xs, default=False):
    for x in xs:
        if x is not None:
            return x
    return default


def build(t, o, cfg_strict, sch_strict):
    schema = opt({'type': t, 'strict': sch_strict})
    cfg = opt({'strict': cfg_strict})
    if t in ('float', 'decimal'):
        schema.update(opt({'allow_inf_nan': o['allow_inf_nan']}))
        cfg.update(opt({'allow_inf_nan': o['cfg_allow_inf_nan']}))
    elif t == 'str':
        schema.update(opt({'coerce_numbers_to_str': o['coerce']}))
        cfg.update(opt({'coerce_numbers_to_str': o['cfg_coerce']}))
    elif t == 'bytes':
        cfg.update(opt({'val_json_bytes': o['enc']}))
    elif t == 'uuid':
        schema.update(opt({'version': o['version']}))
    if t == 'none':
        schema.pop('strict', None)
    return core_validator(schema, cfg)


def expected(t, o, strict, mode, v):
    if t == 'int':
        return M.ref_int(v, strict, mode)
    if t == 'bool':
        return M.ref_bool(v, strict, mode)
    if t == 'float':
        return M.ref_float(v, strict, mode, eff(o['allow_inf_nan'], o['cfg_allow_inf_nan'], default=True))
    if t == 'decimal':
        return M.ref_decimal(v, strict, mode, eff(o['allow_inf_nan'], o['cfg_allow_inf_nan'], default=False))
    if t == 'str':
        return M.ref_str(v, strict, mode, eff(o['coerce'], o['cfg_coerce']))
    if t == 'bytes':
        return M.ref_bytes(v, strict, mode, o['enc'] or 'utf8')
    if t == 'uuid':
        return M.ref_uuid(v, strict, mode, o['version'])
    if t == 'complex':
        return M.ref_complex(v, strict, mode)
    return M.ref_none(v, strict, mode)


EXACT = {'int': int, 'bool': bool, 'float': float, 'decimal': Decimal, 'str': str, 'bytes': bytes, 'complex': complex, 'none': type(None)}


def check(case, rec):
    t, o, (cfg_s, sch_s, rt_s), mode, raw = case
    v = build(t, o, cfg_s, sch_s)
    strict = eff(rt_s, sch_s, cfg_s)
    value = mk(raw)
    if mode == 'json':
        if t == 'decimal' and len(raw) > 3000:
            raise Skip
        ref_in = json.loads(raw)
    else:
        ref_in = value
    if t == 'uuid' and mode == 'strings' and rt_s is None:
        pass
    want = expected(t, o, strict, mode, ref_in)
    kw = {} if rt_s is None else {'strict': rt_s}
    got = validate(v, mode, value, **kw)
    rec.label(f'{t}-{mode}-{got[0]}')
    if want is None:
        raise Skip
    if got[0] == 'ok':
        ensure(want[0] == 'ok', f'{t} {mode}: accepted', short(value), f'got {short(got[1])}', f'expected error {want[1]}', f'strict={strict}')
        if mode == 'json' and type(ref_in) is float and t in ('str', 'decimal') and math.isfinite(ref_in):
            text = got[1] if t == 'str' else format(got[1], 'f')
            ensure(type(got[1]) is type(want[1]) and rust_float_alike(text, ref_in), f'{t} {mode}: wrong text of a float', raw, text)
            want = got
        ensure(same(got[1], want[1]), f'{t} {mode}: wrong value', short(value), f'got {got[1]!r}', f'expected {want[1]!r}')
        if want[1] is not None and type(ref_in) is type(want[1]) and t != 'uuid' and mode == 'python' and t not in ('complex',):
            ensure(got[1] is ref_in or got[1] == ref_in or ref_in != ref_in, 'exact input was not kept', value)
        rec.nontrivial(type(ref_in) is not EXACT.get(t) or mode != 'python')
    else:
        types = want[1] if isinstance(want[1], set) else {want[1]}
        ensure(want[0] == 'err', f'{t} {mode}: rejected', short(value), f'error {got[1]}', f'expected {short(want[1])}', f'strict={strict}')
        ensure(len(got[1]) == 1 and got[1][0][1] == () and got[1][0][0] in types, f'{t} {mode}: wrong error', short(value), got[1], types, f'strict={strict}')
        rec.nontrivial(not got[1][0][0].endswith('_type'))
    # isinstance_python is the same decision
    if mode == 'python':
        ensure(v.isinstance_python(mk(raw), **kw) == (got[0] == 'ok'), 'isinstance_python disagrees with validate_python', value)


TESTS = [
    Test(t, (lambda t: lambda: case_for(t))(t), check, quick=q * 3, thorough=q * 150)
    for t, q in [('int', 16000), ('float', 14000), ('bool', 8000), ('str', 8000), ('bytes', 10000), ('decimal', 12000), ('complex', 5000),
                 ('uuid', 8000), ('none', 800)]
]
