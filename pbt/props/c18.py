"""C18: reading JSON text."""

from __future__ import annotations

import json
import re

import gen as st
import lib
from core import Test, ensure
from lib import Skip, same
from models import jsontext
from models.jsontext import Bad, Reader
from pydantic_core import SchemaValidator, ValidationError, from_json
from specs import chance, pick

RULE = 'non-trivial: the text has a container, an escape or more than a short number, or is refused or cut inside a value'
ASSUMPTIONS = [
    'texts nested deeper than the limit of 200 are refused; integers of more than 4300 digits are refused',
    'with allow_inf_nan=False, what a number too large for a float gives is unspecified',
    'partial mode on a text that is not the beginning of any JSON text is checked only for agreement between the ways in',
]


def reference(text, inf_nan=True, partial=None):
    r = Reader(text, inf_nan, partial)
    try:
        return 'ok', r.read()
    except Bad:
        return ('murky' if partial and r.murky else 'err'), None


def form(text: str, how: str):
    if how == 'bytes':
        return text.encode()
    if how == 'bytearray':
        return bytearray(text.encode())
    if how == 'strsub':
        return lib.StrSub(text)
    return text


FORMS = ['str', 'bytes', 'bytearray', 'strsub']
CACHES = [True, False, 'all', 'keys', 'none']


def read(data, **kw):
    try:
        return 'ok', from_json(data, **kw)
    except ValueError as e:
        return 'err', str(e)


ANY = SchemaValidator({'type': 'any'})
JSON_ANY = SchemaValidator({'type': 'json'})
VALUE = {
    'type': 'definitions',
    'definitions': [
        {
            'type': 'union',
            'mode': 'left_to_right',
            'ref': 'v',
            'choices': [
                {'type': 'list', 'items_schema': {'type': 'definition-ref', 'schema_ref': 'v'}, 'strict': True},
                {'type': 'dict', 'values_schema': {'type': 'definition-ref', 'schema_ref': 'v'}, 'strict': True},
                {'type': 'none'},
                {'type': 'bool', 'strict': True},
                {'type': 'int', 'strict': True},
                {'type': 'float', 'strict': True},
                {'type': 'str', 'strict': True},
            ],
        }
    ],
    'schema': {'type': 'definition-ref', 'schema_ref': 'v'},
}
# the schemas of all JSON values; building them makes the JSON go through typed validators
TYPED = SchemaValidator(VALUE)
JSON_TYPED = SchemaValidator({'type': 'json', 'schema': VALUE})
NESTED = SchemaValidator({'type': 'list', 'items_schema': {'type': 'json'}})
CONFIGURED = {c: SchemaValidator({'type': 'json'}, {'cache_strings': c}) for c in CACHES}
CONFIGURED_ANY = {c: SchemaValidator({'type': 'any'}, {'cache_strings': c}) for c in CACHES}


def ways(data, text, cache, **kw):
    """Every way to have a JSON text read, with all of JSON allowed."""

    def run(f, *args, **k):
        try:
            return 'ok', f(*args, **k)
        except ValidationError as e:
            (line,) = e.errors(include_url=False)
            if line['type'] != 'json_invalid':
                return 'other', (line['type'], line.get('ctx'))
            return 'err', line['ctx']['error'], line['loc']

    yield 'validate_json', (), run(ANY.validate_json, data, **kw)
    yield 'validate_json, cached', (), run(CONFIGURED_ANY[cache].validate_json, data, **kw)
    yield 'json schema', (), run(JSON_ANY.validate_python, data, **kw)
    yield 'json schema, cached', (), run(CONFIGURED[cache].validate_python, data, **kw)
    yield 'strict json schema', (), run(JSON_ANY.validate_python, data, strict=True, **kw)
    yield 'validate_json, typed', (), run(TYPED.validate_json, data, **kw)
    yield 'json schema, typed', (), run(JSON_TYPED.validate_python, data, **kw)
    yield 'json schema in strings mode', (), run(JSON_ANY.validate_strings, text, **kw)
    if not kw:
        r = run(NESTED.validate_json, json.dumps(['1', text]))
        yield 'json in json', (1,), ((r[0], r[1][1]) if r[0] == 'ok' else r)


def agree(case, expect, **kw):
    """All ways give what from_json gives."""
    text, cache = case['text'], case['cache']
    data = form(text, case['form'])
    first = read(data, cache_strings=cache, **kw)
    ensure(expect is None or first[0] == expect[0], f'from_json of {text!r} gave {first!r}, expected {expect!r}')
    if expect is not None and expect[0] == 'ok':
        ensure(same(first[1], expect[1]), f'from_json of {text!r} gave {first[1]!r}, expected {expect[1]!r}')
    for name, loc, r in ways(data, text, cache, **kw):
        if first[0] == 'ok':
            ensure(r[0] == 'ok' and same(r[1], first[1]), f'{text!r} is read as {first[1]!r} by from_json, by {name} as {r!r}')
        else:
            ensure(r[0] == 'err' and r[2] == loc, f'{text!r} is refused by from_json ({first[1]}), by {name}: {r!r}')
            # some ways find the mistake first, but all say the same about a mistake
            ensure(r[1] == first[1] or name.endswith('typed'), f'{text!r}: {first[1]!r} from from_json, {r[1]!r} from {name}')
    return first


def labelled(text, rec):
    rec.nontrivial(len(text) > 3)
    rec.label('container' if text[:1] in ('[', '{') else 'scalar')


# ----------------------------------------------------------------------------------------------------------- valid
def valid_case(s):
    return {
        'text': jsontext.space(s) + jsontext.document(s) + jsontext.space(s),
        'form': pick(s, FORMS),
        'cache': pick(s, CACHES),
        'inf_nan': chance(s, 1, 2),
        'partial': pick(s, [False, True, 'on', 'off', 'trailing-strings']),
    }


def valid_check(case, rec):
    text = case['text']
    labelled(text, rec)
    expect = reference(text)
    ensure(expect[0] == 'ok', f'the reference reader refuses {text!r}')
    agree(case, expect)
    strict = reference(text, False)
    data = form(text, case['form'])
    got = read(data, allow_inf_nan=False)
    if strict[0] == 'ok':
        ensure(got[0] == 'ok' and same(got[1], strict[1]), f'from_json(allow_inf_nan=False) of {text!r} gave {got!r}')
    else:
        rec.label('inf or nan')
        ensure(got[0] == 'err', f'from_json(allow_inf_nan=False) of {text!r} gave {got!r}')
    got = read(data, allow_partial=case['partial'], allow_inf_nan=True)
    ensure(got[0] == 'ok' and same(got[1], expect[1]), f'from_json(allow_partial={case["partial"]!r}) of {text!r} gave {got!r}')


# --------------------------------------------------------------------------------------------------------- invalid
JUNK = list('[]{}",:.-+eE019 atfnNI\'\\/\t\n\x00\x1fu') + ['\\u', '\\ud800', '\\udc00', '\\x', 'null', 'true', '\ufeff', 'é', '\x7f', '//', '0x', '00', '1.', '.5', '""']


def invalid_case(s):
    text = jsontext.document(s, 3)
    for _ in range(1 + s.draw(2)):
        i = s.draw(len(text) + 1)
        k = s.draw(5)
        text = text[:i] + (pick(s, JUNK) if k < 3 else '') + text[i + (1 if k in (1, 3) else 0) :]
    return {'text': text, 'form': pick(s, FORMS), 'cache': pick(s, CACHES), 'partial': pick(s, [True, 'trailing-strings'])}


POSITION = re.compile(r' at line (\d+) column (\d+)$')


def invalid_check(case, rec):
    text = case['text']
    expect = reference(text)
    rec.label(expect[0])
    rec.nontrivial(expect[0] == 'err')
    got = agree(case, expect)
    if expect[0] == 'err':
        m = POSITION.search(got[1])
        ensure(m, f'{text!r}: the error {got[1]!r} has no position')
        lines = text.encode().split(b'\n')
        line, column = int(m[1]), int(m[2])
        ensure(1 <= line <= len(lines) and column <= len(lines[line - 1]) + 1, f'{text!r}: the position of {got[1]!r} is outside')
    # partial mode: never refuses what is JSON, and the ways in agree
    got = agree(case, None, allow_partial=case['partial'])
    if expect[0] == 'ok':
        ensure(got[0] == 'ok' and same(got[1], expect[1]), f'from_json(allow_partial={case["partial"]!r}) of {text!r} gave {got!r}')


# ------------------------------------------------------------------------------------------------------- truncated
def truncated_case(s):
    text = jsontext.space(s) + jsontext.document(s, 4)
    return {'text': text[: s.draw(len(text) + 1)], 'form': pick(s, FORMS), 'cache': pick(s, CACHES), 'partial': pick(s, [True, 'on', 'trailing-strings', False, 'off'])}


def truncated_check(case, rec):
    text, partial = case['text'], case['partial']
    mode = {True: 'on', False: None, 'off': None}.get(partial, partial)
    expect = reference(text, True, mode)
    rec.nontrivial(len(text) > 1 and reference(text)[0] != 'ok')
    rec.label(f'{mode}: {expect[0]}')
    if expect[0] == 'murky':
        raise Skip
    data = form(text, case['form'])
    got = read(data, allow_partial=partial, cache_strings=case['cache'])
    ensure(got[0] == expect[0] and (got[0] == 'err' or same(got[1], expect[1])), f'from_json(allow_partial={partial!r}) of {text!r} gave {got!r}, expected {expect!r}')
    for name, loc, r in ways(data, text, case['cache'], allow_partial=partial):
        if 'typed' in name:
            continue  # C19
        ensure(r[0] == got[0] and (r[0] == 'err' or same(r[1], got[1])), f'{text!r} with allow_partial={partial!r} is read as {got!r} by from_json, by {name} as {r!r}')


# ----------------------------------------------------------------------------------------------------------- depth
def depth_case(s):
    n = pick(s, [1, 50, 150, 198, 199, 200, 201, 202, 255, 256, 257, 300, 1000, 5000, 100000]) + s.draw(3)
    return {'depth': n, 'shape': [s.draw(3) for _ in range(3)], 'closed': chance(s, 3, 4), 'partial': pick(s, [False, True]), 'side': chance(s, 1, 3)}


def depth_check(case, rec):
    n, shape = case['depth'], case['shape']
    opening, closing = [], []
    for i in range(n):
        k = shape[i % 3]
        opening.append(['[', '{"a":', '[1,'][k])
        closing.append([']', '}', ']'][k])
    text = ''.join(opening) + ('0' if case['closed'] else '')
    if case['closed']:
        text += ''.join(reversed(closing))
    if case['side']:
        text = '[[],[[1]],' + text + (',[]]' if case['closed'] else '')
        n += 1
    if not case['closed'] and n in (201, 202):
        raise Skip  # may end before the limit is noticed
    rec.nontrivial(n > 100)
    rec.label('refused' if n > 200 else 'read')
    partial = case['partial']
    results = [read(text, allow_partial=partial)]
    for v, f in ((ANY, 'validate_json'), (JSON_ANY, 'validate_python')):
        try:
            results.append(('ok', getattr(v, f)(text, allow_partial=partial)))
        except ValidationError as e:
            (line,) = e.errors(include_url=False, include_input=False)
            results.append((line['type'], line['ctx']['error']))
    for r in results:
        if n > 200:
            ensure(r[0] in ('err', 'json_invalid') and ('recursion limit' in r[1] or n < 203), f'{n} levels: {r[0]} {str(r[1])[:100]}')
        elif case['closed'] or partial:
            ensure(r[0] == 'ok', f'{n} levels: {r}')
            v, d = r[1], 0
            while isinstance(v, (list, dict)):
                d += 1
                if not v:
                    break
                v = v['a'] if isinstance(v, dict) else (v[2] if case['side'] and d == 1 and len(v) > 2 else v[-1])
            if not (not case['closed'] and partial):
                ensure(d == n, f'{n} levels: read as {d}')
        else:
            ensure(r[0] in ('err', 'json_invalid'), f'{n} levels, not closed: {r}')


# ----------------------------------------------------------------------------------------------------------- bytes
def bytes_case(s):
    text = bytearray(jsontext.document(s, 3).encode())
    for _ in range(1 + s.draw(3)):
        i = s.draw(len(text) + 1)
        k = s.draw(4)
        b = pick(s, [0xFF, 0x80, 0xC3, 0xE2, 0xF0, 0xED, 0xA0, 0xC0, 0xF4, 0x90, 0x22, 0x5C, 0x00, 0x9F])
        if k < 2:
            text[i:i] = bytes([b])
        elif i < len(text):
            text[i] = b
    return {'data': bytes(text), 'cache': pick(s, CACHES)}


def bytes_check(case, rec):
    data = case['data']
    try:
        text = data.decode()
    except UnicodeDecodeError:
        text = None
    expect = ('err', None) if text is None else reference(text)
    rec.nontrivial(text is None)
    rec.label('not UTF-8' if text is None else expect[0])
    got = read(data, cache_strings=case['cache'])
    ensure(got[0] == expect[0] and (got[0] == 'err' or same(got[1], expect[1])), f'from_json of {data!r} gave {got!r}, expected {expect!r}')
    for v, f in ((ANY, 'validate_json'), (JSON_ANY, 'validate_python'), (TYPED, 'validate_json'), (JSON_TYPED, 'validate_python')):
        try:
            r: tuple = ('ok', getattr(v, f)(data))
        except ValidationError as e:
            r = ('err', [(x['type'], x['loc']) for x in e.errors(include_url=False)])
            ensure(r[1] == [('json_invalid', ())], f'{data!r}: {r}')
        ensure(r[0] == got[0] and (r[0] == 'err' or same(r[1], got[1])), f'{data!r} is read as {got!r}, by {f} as {r!r}')


# ------------------------------------------------------------------------------------------------------ not a text
NOT_TEXT = [None, 1, 1.5, True, [], ['1'], {}, {'a': 1}, (), lib.X('dec', '1'), lib.X('d', 2020, 1, 1)]


def wrong_case(s):
    return {'value': pick(s, NOT_TEXT), 'strict': pick(s, [None, True, False]), 'json': chance(s, 1, 3)}


def wrong_check(case, rec):
    v = lib.mk(case['value'])
    rec.nontrivial()
    try:
        r: tuple = ('ok', from_json(v))
    except TypeError:
        r = ('type', None)
    ensure(r[0] == 'type', f'from_json({v!r}) gave {r!r}')
    if case['json']:
        try:
            text = json.dumps(v)
        except TypeError:
            raise Skip from None
        call = lambda w: w.validate_json(text, strict=case['strict'])  # noqa: E731
        which: tuple = (JSON_ANY, JSON_TYPED)
    else:
        call = lambda w: w.validate_python(v, strict=case['strict'])  # noqa: E731
        which = (JSON_ANY, JSON_TYPED)
        for w in (ANY, TYPED):
            try:
                r = ('ok', w.validate_json(v))
            except ValidationError as e:
                r = ('err', [(x['type'], x['loc'], x['input'] is v) for x in e.errors(include_url=False)])
            ensure(r == ('err', [('json_type', (), True)]), f'validate_json({v!r}) gave {r!r}')
    for w in which:
        try:
            r = ('ok', call(w))
        except ValidationError as e:
            r = ('err', [(x['type'], x['loc']) for x in e.errors(include_url=False)])
        ensure(r == ('err', [('json_type', ())]), f'a json schema on {v!r} gave {r!r}')


def _s(fn):
    return lambda: st.Strategy(fn)


# ------------------------------------------------------------------------------------------------ fields of an object
KEYS = ['a', 'b', 'c', '1']


def fields_doc(s, depth: int) -> str:
    """JSON text of objects and lists whose keys come from a few, and again."""
    k = s.draw(8)
    if depth <= 0 or k == 0:
        return pick(s, ['1', '2', '3', '"x"', '"y"', 'null', '2.5', '[]', '{}'])
    if k < 3:
        return '[' + ', '.join(fields_doc(s, depth - 1) for _ in range(s.draw(4))) + ']'
    return '{' + ', '.join(f'"{pick(s, KEYS)}": {fields_doc(s, depth - 1)}' for _ in range(1 + s.draw(5))) + '}'


def alias(s):
    def path():
        return [pick(s, KEYS), *(pick(s, [*KEYS, 0, 1, -1, -2]) for _ in range(s.draw(3)))]

    k = s.draw(4)
    if k == 0:
        return pick(s, KEYS)
    if k < 3:
        return path()
    return [path() for _ in range(1 + s.draw(3))]


def fields_case(s):
    kind = pick(s, ['typed-dict', 'model', 'dataclass'])
    names = KEYS[: 1 + s.draw(3)]
    fs = {}
    for n in names:
        f = {'schema': {'type': 'any'} if chance(s, 3, 4) else {'type': 'nullable', 'schema': {'type': 'any'}}}
        if chance(s, 3, 4):
            f['validation_alias'] = alias(s)
        fs[n] = f
    case = {'kind': kind, 'fields': fs, 'text': fields_doc(s, 3), 'list': chance(s, 1, 5)}
    if case['list']:
        case['text'] = f'[{case["text"]}]'
    if chance(s, 1, 3):
        case['by_name'] = True
    return case


def fields_check(case, rec):
    kind = case['kind']
    if kind == 'typed-dict':
        spec = {'type': kind, 'fields': {n: {'type': 'typed-dict-field', **f} for n, f in case['fields'].items()}}
    elif kind == 'model':
        spec = {'type': 'model-fields', 'fields': {n: {'type': 'model-field', **f} for n, f in case['fields'].items()}}
    else:
        spec = {
            'type': 'dataclass-args',
            'dataclass_name': 'D',
            'fields': [{'name': n, 'type': 'dataclass-field', **f} for n, f in case['fields'].items()],
        }
    if case['list']:
        spec = {'type': 'list', 'items_schema': spec}
    text = case['text']
    seen = []

    def pairs(xs):
        d = dict(xs)
        seen.append(len(d) < len(xs))
        return d

    once = json.dumps(json.loads(text, object_pairs_hook=pairs))
    rec.nontrivial(any(seen))
    rec.label(kind)
    kw = {'by_name': True} if case.get('by_name') else {}
    v, nested = SchemaValidator(spec), SchemaValidator({'type': 'json', 'schema': spec})

    def go(f, x):
        try:
            return 'ok', f(x, **kw)
        except ValidationError as e:
            return 'err', [(x['type'], x['loc']) for x in e.errors()]

    want = go(v.validate_json, once)
    for what, got in (('validate_json', go(v.validate_json, text)), ('the json schema', go(nested.validate_python, text))):
        ensure(got[0] == want[0] and same(got[1], want[1]), f'{what} on {text} and on the same with the last of repeated keys only differ', got, want)
    obj = go(v.validate_python, json.loads(text))
    ensure(obj[0] == want[0] and (obj[0] == 'err' or same(obj[1], want[1])), f'from {text} and from the object it stands for', want, obj)


TESTS = [
    Test('valid', _s(valid_case), valid_check, 48000, 1200000),
    Test('invalid', _s(invalid_case), invalid_check, 48000, 1200000),
    Test('truncated', _s(truncated_case), truncated_check, 48000, 1200000),
    Test('bytes', _s(bytes_case), bytes_check, 32000, 600000),
    Test('depth', _s(depth_case), depth_check, 400, 8000),
    Test('fields', _s(fields_case), fields_check, 32000, 800000),
    Test('wrong', _s(wrong_case), wrong_check, 300, 3000),
]
