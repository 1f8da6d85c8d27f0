"""C22: URLs: components, normal form, options, multiple hosts, identity."""

from __future__ import annotations

import copy
import json
import pickle
import urllib.parse

import gen as st
import lib
from core import Test, X, ensure
from lib import Skip, mk
from models import urls
from pydantic_core import MultiHostUrl, PydanticSerializationError, SchemaSerializer, SchemaValidator, Url, ValidationError, to_json  # noqa: F401
from specs import chance, pick

RULE = 'non-trivial: the text is a URL with more than a scheme and a host, an option decides, or the text is refused for its own reason'
ASSUMPTIONS = [
    'the `url` crate is trusted for texts far from any URL (only relations are checked there)',
    'an explicit port that is the usual one of the scheme counts as absent: what default_port does then is unspecified',
    'a comma in a MultiHostUrl without an authority is a separator of (empty) hosts, as the test suite wants it',
    'a comma in the host of a Url instance made a MultiHostUrl, and tabs, newlines or backslashes inside a MultiHostUrl, are unspecified',
    'file URLs: the `url` crate has its own ideas about drive letters and slashes, so only plain paths are modelled',
    'strict MultiHostUrl to Url: the text is parsed again, strictly',
]
KINDS = {'url': Url, 'multi-host-url': MultiHostUrl}

# ------------------------------------------------------------------------------------------------------ generation
SCHEMES = ['http', 'https', 'ws', 'wss', 'ftp', 'foo', 'redis+x', 'postgres', 'HTTP', 'Https', 'FOO', 'a.b-c1']
DOMAINS = ['example.com', 'a', 'A.b', 'x-y.z9', 'EXAMPLE.Com', 'localhost', 'münchen.de', 'a.ñandú.es', 'пример.испытание', 'xn--mnchen-3ya.de', 'a_b', 'é']
OPAQUE = ['example.com', 'a', 'A.b', 'x-y', 'münchen', 'a!b', "a'b", '~', 'xn--mnchen-3ya.de']
IPS = [('127.0.0.1', '127.0.0.1'), ('[::1]', '[::1]'), ('[2001:DB8::0001]', '[2001:db8::1]'), ('[1:2:3:4:5:6:7:8]', '[1:2:3:4:5:6:7:8]')]
SPECIAL_IPS = [('0x7F.1', '127.0.0.1'), ('1.2.3', '1.2.0.3'), ('017.0.0.1', '15.0.0.1')]
USERS = ['u', 'user', 'a.b', '', 'U;=x', 'é', 'a b', 'x{y}', '$&', 'u:v', 'm@x', '%', 'a[b]|']
SEGMENTS = ['a', 'b c', '', 'é', '..', '.', 'x{y}', 'a"b', '%20', '~', 'a;b=c', '<>', 'x`', 'a:b@c', "d'e", 'A', 'a,b']
QUERIES = ['', 'a=1', 'a=1&b=2', 'a=b c', "q='x'", 'é=ü', 'a=%20+b', '<"x">', '?a', '/x?y', 'a&a=1&=2', '{}', 'a=1,2', 'x=%FF', '&&']
FRAGMENTS = ['', 'f', 'a b', '<é>', 'x`y"', '?/', 'a,b', '#', '{}']


def host(s, special, plain=False):
    if chance(s, 1, 4):
        ips = IPS + (SPECIAL_IPS if special else [])
        t, n = pick(s, ips)
        return ['ip', t, n]
    return ['name', pick(s, DOMAINS if special else OPAQUE)]


def one_host(s, scheme):
    special = scheme.lower() in urls.SPECIAL
    h: dict = {'host': host(s, special)}
    if chance(s, 1, 3):
        h['user'] = [pick(s, USERS), pick(s, USERS) if chance(s, 1, 2) else None]
    if chance(s, 1, 3):
        h['port'] = pick(s, ['80', '8080', '443', '1', '65535', '0', '21', '0080'])
    return h


def path(s):
    n = pick(s, [0, 0, 1, 1, 2, 3, 4])
    return '/' + '/'.join(pick(s, SEGMENTS) for _ in range(n)) if n else pick(s, ['', '/', ''])


def url_spec(s, hosts=1):
    scheme = pick(s, SCHEMES)
    return {
        'scheme': scheme,
        'hosts': [one_host(s, scheme) for _ in range(hosts)],
        'path': path(s),
        'query': pick(s, QUERIES) if chance(s, 1, 3) else None,
        'fragment': pick(s, FRAGMENTS) if chance(s, 1, 3) else None,
    }


def hosts_count(s):
    return pick(s, [1, 2, 2, 3, 4])


# ---------------------------------------------------------------------------------------------------- expectations
def describe(u) -> dict:
    if isinstance(u, MultiHostUrl):
        return {
            'str': str(u), 'unicode': u.unicode_string(), 'hosts': u.hosts(), 'scheme': u.scheme, 'path': u.path, 'query': u.query,
            'fragment': u.fragment, 'query_params': u.query_params(),
        }  # fmt: skip
    return {
        'str': str(u), 'unicode': u.unicode_string(), 'scheme': u.scheme, 'username': u.username, 'password': u.password, 'host': u.host,
        'unicode_host': u.unicode_host(), 'port': u.port, 'path': u.path, 'query': u.query, 'fragment': u.fragment,
        'query_params': u.query_params(),
    }  # fmt: skip


def shown(p: urls.Parts) -> dict:
    return {
        'str': p.text(), 'unicode': p.text(unicode=True), 'username': p.username, 'password': p.password, 'host': p.host,
        'unicode_host': p.unicode_host(), 'port': p.known_port(), **p.getters(),
    }  # fmt: skip


def shown_multi(ps: list[urls.Parts]) -> dict:
    *extra, p = ps
    return {
        'str': p.text(authorities=[x.authority() for x in extra]),
        'unicode': p.text(unicode=True, authorities=[x.authority(unicode=True) for x in extra]),
        'hosts': [x.host_dict() for x in ps],
        **p.getters(),
    }


def differing(got: dict, want: dict) -> str:
    return ', '.join(f'{k}: {got.get(k)!r} instead of {want.get(k)!r}' for k in {**got, **want} if got.get(k) != want.get(k))


def ensure_parts(u, want: dict, what: str, *details):
    got = describe(u)
    ensure(got == want, f'{what}: {differing(got, want)}', *details)


def run(v, mode, value, **kw):
    try:
        return 'ok', v.validate_json(value if isinstance(value, bytes) else json.dumps(value), **kw) if mode == 'json' else (
            v.validate_strings(value, **kw) if mode == 'strings' else v.validate_python(value, **kw)
        )
    except ValidationError as e:
        (line,) = e.errors(include_url=False)
        ensure(line['loc'] == (), 'an error with a location', line)
        return 'err', (line['type'], line.get('ctx'))


def interesting(spec) -> bool:
    return bool(len(spec['hosts']) > 1 or spec['path'] or spec['query'] is not None or spec['hosts'][0].keys() - {'host'} or spec['scheme'] != spec['scheme'].lower())


# ------------------------------------------------------------------------------------------------------ components
def components_case(s):
    return {'spec': url_spec(s, 1 if chance(s, 1, 2) else hosts_count(s)), 'mode': pick(s, ['python', 'json', 'bytes', 'sub', 'call', 'strings'])}


def usable_multi(spec):
    """MultiHostUrl splits at every comma of the authority."""
    return not any(',' in urls.user_text(h.get('user')) or ',' in urls.host_text(h['host'], True)[0] for h in spec['hosts'])


def components_check(case, rec):
    spec, mode = case['spec'], case['mode']
    text = urls.compose_text(spec)
    ps = urls.parts(spec)
    rec.nontrivial(interesting(spec))
    rec.label(f'{len(ps)} hosts')
    for kind, cls in KINDS.items():
        if kind == 'url' and len(ps) > 1:
            continue
        want = shown(ps[0]) if kind == 'url' else shown_multi(ps)
        if mode == 'call':
            got = cls(text)
        else:
            v = SchemaValidator({'type': kind})
            value = {'bytes': lambda: text.encode(), 'sub': lambda: lib.StrSub(text)}.get(mode, lambda: text)()
            r = run(v, mode if mode in ('json', 'strings') else 'python', value)
            ensure(r[0] == 'ok', f'{text!r} is refused as {kind}: {r[1]}')
            got = r[1]
        ensure(type(got) is cls, f'{kind} gave {type(got).__name__}')
        ensure_parts(got, want, f'{kind} {text!r}')
        ensure(bool(got) and repr(got) == f"{cls.__name__}('{want['str']}')", f'repr({got!r})')
        # the normal form is a fixed point
        again = cls(str(got))
        ensure_parts(again, want, f'{kind} of the normal form {str(got)!r}')
        ensure(again == got and hash(again) == hash(got), f'{got!r} is not equal to what its text gives')
        # and the unicode form stands for the same URL
        ensure_parts(cls(want['unicode']), want, f'{kind} of the unicode form {want["unicode"]!r}')
        for twin in (copy.copy(got), copy.deepcopy(got), pickle.loads(pickle.dumps(got)), copy.deepcopy([got])[0]):
            ensure(type(twin) is cls and twin == got and hash(twin) == hash(got), f'a copy of {got!r} is {twin!r}')
            ensure_parts(twin, want, f'a copy of {got!r}')
        # written as its text
        ser = SchemaSerializer({'type': kind})
        ensure(to_json(got) == json.dumps(want['str']).encode(), f'to_json({got!r}) gave {to_json(got)!r}')
        ensure(ser.to_python(got, mode='json') == want['str'] and ser.to_json(got) == to_json(got), f'{got!r} is serialized as {ser.to_json(got)!r}')
        ensure(ser.to_python(got) is got, f'{got!r} in python mode')
    if len(ps) == 1:
        # the two kinds are made from each other
        u, m = Url(text), MultiHostUrl(text)
        ensure_parts(Url(m), shown(ps[0]), f'Url({m!r})')
        if ',' not in ps[0].authority():
            ensure_parts(MultiHostUrl(u), shown_multi(ps), f'MultiHostUrl({u!r})')
            ensure(MultiHostUrl(u) == m and hash(MultiHostUrl(u)) == hash(m), f'MultiHostUrl({u!r}) is not {m!r}')


# --------------------------------------------------------------------------------------------------------- options
def options_case(s):
    spec = url_spec(s, pick(s, [1, 1, 2, 3]))
    if chance(s, 1, 4):
        # a URL without a host
        spec['scheme'] = pick(s, ['foo', 'redis+x', 'postgres', 'FOO', 'file'])
        spec['hosts'] = [{'host': None}]
        if spec['scheme'] == 'file':
            spec['path'] = pick(s, ['/', '/a', '/a/b c', '/a,b'])
    o: dict = {}
    if chance(s, 1, 3):
        o['max_length'] = pick(s, ['-1', '0', '+1', 10, 20, 40])
    if chance(s, 1, 3):
        o['allowed_schemes'] = pick(s, [['http'], ['http', 'https'], ['foo', 'https', 'ws'], ['redis+x'], ['HTTP', 'FOO'], ['ftp', 'foo', 'file']])
    if chance(s, 1, 3):
        o['host_required'] = chance(s, 2, 3)
    if chance(s, 1, 3):
        o['default_host'] = pick(s, ['localhost', 'B.c', 'münchen.de', '10.0.0.1'])
    if chance(s, 1, 3):
        o['default_port'] = pick(s, [80, 8000, 443, 0, 65535])
    if chance(s, 1, 3):
        o['default_path'] = pick(s, ['/base', 'rel/x', '/a b', '', '/'])
    if chance(s, 1, 3):
        o['strict'] = True
    return {'spec': spec, 'options': o, 'kind': pick(s, list(KINDS)), 'input': pick(s, ['str', 'str', 'json', 'bytes', 'url', 'multi', 'fresh'])}


def quoted(schemes):
    *init, last = [f"'{x}'" for x in schemes]
    return f'{", ".join(init)} or {last}' if init else last


def options_check(case, rec):
    spec, o, kind, how = case['spec'], dict(case['options']), case['kind'], case['input']
    hostless = spec['hosts'][0]['host'] is None
    if hostless:
        text = f'{spec["scheme"]}://{spec["path"]}' + ('' if spec['query'] is None else '?' + spec['query']) + ('' if spec['fragment'] is None else '#' + spec['fragment'])
        scheme = spec['scheme'].lower()
        fake = urls.parts({**spec, 'hosts': [{'host': ['name', 'h']}]})[0]
        ps = [fake.replace(host=None, query=fake.query if scheme != 'file' else (None if spec['query'] is None else urls.encode(spec['query'], urls.SPECIAL_QUERY_SET)))]
        if spec['path'].startswith('//') or ps[0].path.startswith('//'):
            raise Skip  # written with /. in front
        if scheme == 'file' and not ps[0].path:
            raise Skip
        if ',' in spec['path'] and (kind == 'multi-host-url' or how == 'multi'):
            raise Skip  # taken for a separator of hosts
    else:
        if kind == 'url' and len(spec['hosts']) > 1:
            spec = {**spec, 'hosts': spec['hosts'][:1]}
        text = urls.compose_text(spec)
        ps = urls.parts(spec)
    made = how in ('url', 'multi')
    source = text
    if how == 'url':
        if len(ps) > 1 or (kind == 'multi-host-url' and ',' in ps[0].authority()):
            raise Skip
        source = Url(text)
    elif how == 'multi':
        if kind == 'url' and (len(ps) > 1 or ',' in ps[0].authority()):
            raise Skip
        source = MultiHostUrl(text)
    elif how == 'bytes':
        source = text.encode()
    if kind == 'multi-host-url' and any(',' in p.authority() for p in ps):
        raise Skip
    if isinstance(o.get('max_length'), str):
        o['max_length'] = max(0, len((str(source) if made else text).encode()) + int(o['max_length']))
    strict = o.get('strict', False)
    schema = {'type': kind, **o}
    if how == 'bytes' and strict:
        expect: tuple = ('err', ('url_type', None))
    else:
        length = len((str(source) if made else text).encode())
        if 'max_length' in o and length > o['max_length']:
            expect = ('err', ('url_too_long', {'max_length': o['max_length']}))
        elif 'allowed_schemes' in o and ps[-1].scheme not in o['allowed_schemes']:
            expect = ('err', ('url_scheme', {'expected_schemes': quoted(o['allowed_schemes'])}))
        else:
            expect = defaults(ps, o)
    if hostless and expect[0] == 'ok' and expect[1][0].host is None and expect[1][0].path.startswith('//'):
        raise Skip
    v = SchemaValidator(schema)
    before = describe(source) if made else None
    got = run(v, 'json' if how == 'json' else 'python', source)
    if made:
        ensure(describe(source) == before, f'validating changed the URL it was given into {source!r}')
    reparsed = not made or (how == 'multi' and kind == 'url')
    if strict and reparsed and expect[0] == 'ok' and got[0] == 'err' and got[1][0] == 'url_syntax_violation':
        rec.label('violation')
        return  # decided by the strict test
    if strict and reparsed and expect[0] == 'err' and expect[1][0] in ('url_scheme', 'url_parsing') and got[0] == 'err' and got[1][0] == 'url_syntax_violation':
        return
    rec.nontrivial(bool(o))
    rec.label(expect[0] if expect[0] == 'ok' else expect[1][0])
    if expect[0] == 'err':
        ensure(got == expect, f'{schema!r} on {source!r}: got {got!r}, expected {expect!r}')
        return
    ensure(got[0] == 'ok', f'{schema!r} on {source!r} is refused: {got[1]}')
    ensure(type(got[1]) is KINDS[kind], f'{kind} gave {type(got[1]).__name__}')
    want = shown(expect[1][0]) if kind == 'url' else shown_multi(expect[1])
    if kind == 'multi-host-url' and expect[1][0].host is None:
        want['hosts'] = []
    ensure_parts(got[1], want, f'{schema!r} on {source!r}')


def defaults(ps, o):
    *extra, p = ps
    special = p.scheme in urls.SPECIAL
    if p.host is None:
        if 'default_host' in o:
            p = p.replace(host=urls.host_text(['name', o['default_host']], special or p.scheme == 'file')[1])
        elif o.get('host_required'):
            return 'err', ('url_parsing', {'error': 'empty host'})
    if o.get('default_port') is not None:
        if p.scheme == 'file':
            raise Skip  # a file URL has no port
        if p.port is None:
            if p.host is None:
                return 'err', ('url_parsing', {'error': 'empty host'})
            port = o['default_port']
            p = p.replace(port=None if port == urls.KNOWN_PORT.get(p.scheme) else port)
    if 'default_path' in o and p.path in ('', '/'):
        d = o['default_path']
        if d == '':
            p = p.replace(path='/' if special or p.scheme == 'file' else '')
        else:
            p = p.replace(path='/' + urls.encode(d.lstrip('/'), urls.PATH_SET) if not d.startswith('/') else '/' + urls.encode(d[1:], urls.PATH_SET))
    return 'ok', [*extra, p]


def explicit_usual_port(spec):
    return any(h.get('port') is not None and int(h['port']) == urls.KNOWN_PORT.get(spec['scheme'].lower()) for h in spec['hosts'])


def options_check_(case, rec):
    if case['spec']['hosts'][0]['host'] is not None and case['options'].get('default_port') is not None and explicit_usual_port(case['spec']):
        raise Skip
    options_check(case, rec)


# ---------------------------------------------------------------------------------------------------------- strict
VIOLATIONS = [
    ('http://{h}\\{p}', 'backslash'),
    ('http:/{h}/{p}', 'expected //'),
    ('http:///{h}/{p}', 'expected //'),
    ('http:{h}/{p}', 'expected //'),
    (' http://{h}/{p}', 'leading or trailing control or space character are ignored in URLs'),
    ('http://{h}/{p}\n', 'leading or trailing control or space character are ignored in URLs'),
    ('http://{h}/\t{p}', 'tabs or newlines are ignored in URLs'),
    ('http://{h}/{p}\r\n/x', 'tabs or newlines are ignored in URLs'),
    ('http://{h}/{p}/"', 'non-URL code point'),
    ('http://{h}/{p}/<', 'non-URL code point'),
    ('http://{h}/{p}/a b', 'non-URL code point'),
    ('http://{h}/{p}/{{', 'non-URL code point'),
    ('http://{h}/{p}/%2', 'expected 2 hex digits after %'),
    ('http://{h}/{p}/%zz', 'expected 2 hex digits after %'),
    ('http://{h}/{p}?%', 'expected 2 hex digits after %'),
    ('http://{h}/{p}?a|b', 'non-URL code point'),
    ('http://{h}/{p}#%x', 'expected 2 hex digits after %'),
    ('http://{h}/{p}#a\x00b', 'NULL characters are ignored in URL fragment identifiers'),
    ('http://u@v@{h}/{p}', 'unencoded @ sign in username or password'),
    ('foo://{h}/{p}/^', 'non-URL code point'),
    ('foo://{h}/{p}?`', 'non-URL code point'),
    ('http://{h}/{p}', None),
    ('http://u:p@{h}/{p}', None),
    ('foo://u@{h}:1/{p}?q#f', None),
    ('http://{h}:80/{p}?a=%20', None),
    ('https://{h}/../{p}/./x', None),
    ('foo:{p}', None),
]


def strict_case(s):
    text, why = pick(s, VIOLATIONS)
    return {
        'text': text.format(h=pick(s, ['a', 'B.com', 'münchen.de', '127.0.0.1', '[::1]']), p=pick(s, ['x', 'x/y', 'é', "'"])),
        'why': why,
        'kind': pick(s, list(KINDS)),
        'hosts': pick(s, ['', 'b,', 'b:1,c,']),
        'how': pick(s, ['schema', 'config', 'call', 'model']),
        'mode': pick(s, ['python', 'json', 'strings']),
    }


def strict_check(case, rec):
    text, why, kind = case['text'], case['why'], case['kind']
    if kind == 'multi-host-url' and case['hosts'] and '://' in text and ':///' not in text:
        text = text.replace('://', '://' + case['hosts'])
    strict, config, kw = {'schema': (True, None, {}), 'config': (None, {'strict': True}, {}), 'call': (None, None, {'strict': True}), 'model': (False, {'strict': True}, {})}[case['how']]
    schema = {'type': kind} if strict is None else {'type': kind, 'strict': strict}
    rec.nontrivial(why is not None)
    rec.label(why or 'proper')
    lax = run(SchemaValidator({'type': kind}), 'python', text)
    ensure(lax[0] == 'ok', f'{text!r} is refused: {lax[1]}')
    got = run(SchemaValidator(schema, config), case['mode'], text, **kw)
    if why is None or case['how'] == 'model':
        ensure(got[0] == 'ok' and describe(got[1]) == describe(lax[1]), f'strict {kind} on {text!r}: got {got!r}, in lax mode {lax[1]!r}')
    else:
        ensure(got == ('err', ('url_syntax_violation', {'error': why})), f'strict {kind} on {text!r}: got {got!r}, expected {why!r}')
    # an instance was parsed already
    again = run(SchemaValidator({'type': kind, 'strict': True}), 'python', lax[1])
    ensure(again[0] == 'ok' and again[1] is lax[1], f'strict {kind} on {lax[1]!r}: {again!r}')


# --------------------------------------------------------------------------------------------------------- refused
BROKEN = [
    ('', 'input is empty'),
    ('example.com', 'relative URL without a base'),
    ('/a/b', 'relative URL without a base'),
    ('//h/x', 'relative URL without a base'),
    ('é://h', 'relative URL without a base'),
    ('://h', 'relative URL without a base'),
    ('a_b://h', 'relative URL without a base'),
    ('http://', 'empty host'),
    ('https:///', 'empty host'),
    ('http://?x', 'empty host'),
    ('http://u@/x', 'empty host'),
    ('http://:80', 'empty host'),
    ('foo://u@', 'empty host'),
    ('foo://:1/x', 'empty host'),
    ('http://{h}:65536/', 'invalid port number'),
    ('http://{h}:x/', 'invalid port number'),
    ('foo://{h}:-1', 'invalid port number'),
    ('foo://{h}:80x/', 'invalid port number'),
    ('http://[::1/x', 'invalid IPv6 address'),
    ('http://[1:2]/', 'invalid IPv6 address'),
    ('foo://[x]', 'invalid IPv6 address'),
    ('http://1.2.3.256/', 'invalid IPv4 address'),
    ('http://1.2.3.4.5/', 'invalid IPv4 address'),
    ('http://0x100000000', 'invalid IPv4 address'),
    ('http://a b/', 'invalid international domain name'),
    ('http://a<b', 'invalid international domain name'),
    ('https://xn--/', 'invalid international domain name'),
    ('foo://a b/', 'invalid domain character'),
    ('foo://a<b', 'invalid domain character'),
]
WRONG = [None, 1, 1.5, True, [], {}, ['http://a'], X('bytes', b'\xff') if False else b'http://\xff', X('dec', '1'), X('d', 2020, 1, 1)]


def refused_case(s):
    text, why = pick(s, BROKEN)
    return {
        'text': text.format(h=pick(s, ['a', 'b.c'])),
        'why': why,
        'kind': pick(s, list(KINDS)),
        'at': s.draw(3),
        'hosts': s.draw(3),
        'wrong': chance(s, 1, 6) and [pick(s, WRONG)],
        'options': pick(s, [{}, {}, {'host_required': True}, {'default_host': 'd'}, {'default_port': 1}, {'default_path': '/x'}, {'allowed_schemes': ['x']}]),
        'mode': pick(s, ['python', 'json', 'class', 'strings']),
    }


def refused_check(case, rec):
    kind, why, text = case['kind'], case['why'], case['text']
    rec.nontrivial()
    if case['wrong']:
        value = mk(case['wrong'][0])
        for strict in (False, True):
            got = run(SchemaValidator({'type': kind, 'strict': strict}), 'python', value)
            ensure(got == ('err', ('url_type', None)), f'{kind} on {value!r}: {got!r}')
        return
    if kind == 'multi-host-url' and case['hosts'] and '://' in text and text.index('://') and not text.startswith('é') and not text.startswith('a_b'):
        # one broken host among others
        prefix, hosts, rest = urls.split_hosts(text)
        others = ['x:1', 'u@y', '[::2]'][: case['hosts']]
        at = min(case['at'], len(others))
        if rest and at < len(others):
            rest = rest.replace(',', '')
        text = prefix + ','.join(others[:at] + hosts + others[at:]) + rest
        if hosts == ['']:
            why = 'empty host'
    rec.label(why)
    expect = ('err', ('url_parsing', {'error': why}))
    if case['mode'] == 'class':
        try:
            got: tuple = ('ok', KINDS[kind](text))
        except ValidationError as e:
            (line,) = e.errors(include_url=False)
            got = 'err', (line['type'], line.get('ctx'))
    else:
        got = run(SchemaValidator({'type': kind, **case['options']}), case['mode'], text)
    ensure(got == expect, f'{kind} on {text!r}: got {got!r}, expected {expect!r}')


# ----------------------------------------------------------------------------------------------------------- build
def build_case(s):
    spec = url_spec(s, hosts_count(s))
    return {'spec': spec, 'path': pick(s, [None, '', 'a', 'a/b', 'x y/é']), 'single': chance(s, 1, 3)}


def build_check(case, rec):
    spec = {**case['spec'], 'path': '' if case['path'] is None else '/' + case['path']}
    if not usable_multi(spec):
        raise Skip
    rec.nontrivial()
    args = {'scheme': spec['scheme'], 'path': case['path'], 'query': spec['query'], 'fragment': spec['fragment']}
    if len(str(args)) % 2:
        args = {k: x for k, x in args.items() if x is not None}
    special = spec['scheme'].lower() in urls.SPECIAL
    hosts = []
    for h in spec['hosts']:
        d = {'host': urls.host_text(h['host'], special)[0]}
        if h.get('port') is not None:
            d['port'] = int(h['port'])
        if h.get('user') is not None:
            name, password = (None if x is None else urls.encode(x, set('/?#@:,%\\')) for x in h['user'])
            if name or password is None:
                d['username'] = name
            if password is not None:
                d['password'] = password
        hosts.append(d)
    ps = urls.parts(spec)
    if len(ps) == 1:
        ensure_parts(Url.build(**args, **hosts[0]), shown(ps[0]), f'Url.build({args}, {hosts[0]})')
        ensure_parts(MultiHostUrl.build(**args, **hosts[0]), shown_multi(ps), f'MultiHostUrl.build({args}, {hosts[0]})')
    m = MultiHostUrl.build(**args, hosts=hosts)
    ensure_parts(m, shown_multi(ps), f'MultiHostUrl.build({args}, {hosts})')
    # what hosts() gives builds it again
    p = ps[-1]
    if ',' not in ''.join(x.authority() for x in ps):
        again = MultiHostUrl.build(
            scheme=m.scheme, hosts=m.hosts(), path=None if m.path is None else m.path[1:], query=m.query, fragment=m.fragment
        )
        ensure(again == m and hash(again) == hash(m) and str(again) == str(m), f'building from the parts of {m!r} gave {again!r}')
    for bad in ({'hosts': hosts, 'host': 'x'}, {'hosts': hosts, 'port': 1}, {'hosts': hosts, 'username': 'u'}, {'hosts': hosts, 'password': 'u'}, {}, {'hosts': [{}]}):
        try:
            r = MultiHostUrl.build(**args, **bad)
        except ValueError:
            continue
        ensure(False, f'MultiHostUrl.build with {bad} gave {r!r}')
    del p


# ------------------------------------------------------------------------------------------------------- free form
ALPHABET = list('abAZ019.:/?#@%[]\\ -_~!$&\'()*+,;=<>"{}|^`\t\n\x00') + ['é', 'ß', '\u202e', '\U0001f600', '://', '%41', '%zz', '..', 'http', 'xn--', '[::1]', '//', 'foo:', 'file:', ':80']


def free_case(s):
    if chance(s, 1, 3):
        text = pick(s, ['http://', 'https:', 'foo://', 'foo:', 'file://', '', 'ws:/']) + ''.join(pick(s, ALPHABET) for _ in range(s.draw(14)))
    else:
        text = urls.compose_text(url_spec(s, pick(s, [1, 1, 1, 2, 3])))
        for _ in range(1 + s.draw(3)):
            i = s.draw(len(text) + 1)
            k = s.draw(4)
            text = text[:i] + (pick(s, ALPHABET) if k < 3 else '') + text[i + (1 if k in (1, 3) else 0) :]
    return {'text': text}


def attempt(cls, text):
    try:
        return 'ok', cls(text)
    except ValidationError as e:
        (line,) = e.errors(include_url=False)
        return 'err', (line['type'], line.get('ctx'))


def free_check(case, rec):
    text = case['text']
    one, many = attempt(Url, text), attempt(MultiHostUrl, text)
    rec.label(f'{one[0]}/{many[0]}')
    for kind, r in (('url', one), ('multi-host-url', many)):
        cls = KINDS[kind]
        lax = SchemaValidator({'type': kind})
        for mode in ('python', 'json', 'strings'):
            got = run(lax, mode, text)
            ensure(got == r and (r[0] == 'err' or describe(got[1]) == describe(r[1])), f'{kind} on {text!r} in {mode} mode: {got!r}, but the class gives {r!r}')
        strict = run(SchemaValidator({'type': kind, 'strict': True}), 'python', text)
        if strict[0] == 'ok':
            ensure(r[0] == 'ok' and describe(strict[1]) == describe(r[1]), f'strict {kind} on {text!r}: {strict!r}, in lax mode {r!r}')
        elif r[0] == 'err':
            ensure(strict == r or strict[1][0] == 'url_syntax_violation', f'strict {kind} on {text!r}: {strict!r}, in lax mode {r!r}')
        else:
            ensure(strict[1][0] == 'url_syntax_violation', f'strict {kind} on {text!r}: {strict!r}, in lax mode {r!r}')
        if r[0] == 'ok' and r[1].scheme != 'file' and (kind == 'url' or not any(c in text for c in '\t\n\r\\')):
            rec.nontrivial()
            u = r[1]
            ensure(str(u).isascii(), f'{u!r} is not ASCII')
            if kind != 'url' and ',' in str(u) and not any(h.get('host') for h in u.hosts()):
                continue  # a path such as /a/../b,c: it has a comma in its first part only now
            again = attempt(cls, str(u))
            ensure(again[0] == 'ok' and describe(again[1]) == describe(u) and again[1] == u and hash(again[1]) == hash(u), f'{u!r} is parsed as {again!r}')
            ensure(pickle.loads(pickle.dumps(u)) == u, f'pickling {u!r}')
    if one[0] == 'ok' and one[1].scheme != 'file':
        u = one[1]
        d = describe(u)
        user = '' if u.username is None and u.password is None else (u.username or '') + ('' if u.password is None else f':{u.password}') + '@'
        known = urls.KNOWN_PORT.get(u.scheme)
        port = '' if u.port is None or u.port == known else f':{u.port}'
        tail = (u.path or '') + ('' if u.query is None else f'?{u.query}') + ('' if u.fragment is None else f'#{u.fragment}')
        joined = (f'{u.scheme}://{user}{u.host}{port}' if u.host is not None else f'{u.scheme}:') + tail
        ensure(str(u) in (joined, joined.replace(':', '://', 1), joined.replace(':', ':/.', 1)), f'the parts of {u!r} make {joined!r}')
        ensure(u.unicode_string() == (str(u) if u.host is None else str(u).replace('//' + user + u.host, '//' + user + u.unicode_host(), 1)), f'unicode form of {u!r}: {d}')
    if any(c in text for c in '\t\n\r'):
        return  # ignored wherever they are in a URL, but not by MultiHostUrl
    split = urls.split_hosts(text)
    if split is None:
        if ',' not in text:
            ensure(many[0] == one[0] and (one[0] == 'err' or str(many[1]) == str(one[1])), f'{text!r}: {one!r} as one host, {many!r} as several')
            ensure(one[0] == 'ok' or many[1] == one[1], f'{text!r} is refused as {one[1]!r}, and as {many[1]!r}')
        return
    prefix, hosts, rest = split
    if '\\' in text or text[:1] <= ' ' or (len(hosts) > 1 and (prefix.lower() == 'file://' or not all(hosts))):
        if len(hosts) > 1 and not all(hosts) and '\\' not in text:
            ensure(many[0] == 'err', f'{text!r} has an empty host, but gave {many!r}')
        return
    if len(hosts) == 1 and not hosts[0] and ',' in rest:
        return  # more slashes before the authority
    each = [attempt(Url, prefix + h + (rest if i == len(hosts) - 1 else '')) for i, h in enumerate(hosts)]
    rec.label(f'{len(hosts)} hosts')
    if len(hosts) > 1 and any(e[0] == 'ok' and e[1].host is None for e in each):
        each.append(('err', None))
    if all(e[0] == 'ok' for e in each):
        ensure(many[0] == 'ok', f'{text!r} is refused: {many[1]}')
        m = many[1]
        last = each[-1][1]
        want = [{'username': u.username, 'password': u.password, 'host': u.host, 'port': u.port} for _, u in each if u.host is not None]
        ensure(m.hosts() == want, f'{text!r} has the hosts {m.hosts()}, expected {want}')
        for name in ('scheme', 'path', 'query', 'fragment'):
            ensure(getattr(m, name) == getattr(last, name), f'{name} of {text!r} is {getattr(m, name)!r}, expected {getattr(last, name)!r}')
        ensure(m.query_params() == last.query_params(), f'query_params of {text!r}')
    else:
        ensure(many[0] == 'err', f'{text!r} gave {many!r}, but its hosts are {each!r}')


# -------------------------------------------------------------------------------------------------------- ordering
def order_case(s):
    base = [url_spec(s, 1) for _ in range(2)]
    out = []
    for _ in range(2 + s.draw(4)):
        spec = {**pick(s, base)}
        if chance(s, 1, 2):
            spec['path'] = path(s)
        if chance(s, 1, 3):
            spec['scheme'] = spec['scheme'].upper() if chance(s, 1, 2) else spec['scheme'].lower()
        if chance(s, 1, 3) and spec['scheme'].lower() in urls.SPECIAL:
            h = dict(spec['hosts'][0])
            h['port'] = str(urls.SPECIAL[spec['scheme'].lower()])
            spec['hosts'] = [h]
        out.append(urls.compose_text(spec))
    return {'texts': out, 'kind': pick(s, list(KINDS))}


def order_check(case, rec):
    cls = KINDS[case['kind']]
    if case['kind'] == 'multi-host-url' and any(',' in t.split('://')[1].split('/')[0] for t in case['texts']):
        raise Skip
    items = [cls(t) for t in case['texts']]
    key = str if cls is Url else (lambda u: u.unicode_string())
    for a in items:
        for b in items:
            ka, kb = key(a), key(b)
            got = (a < b, a <= b, a == b, a != b, a > b, a >= b)
            want = tuple(f(ka.encode(), kb.encode()) for f in (bytes.__lt__, bytes.__le__, bytes.__eq__, bytes.__ne__, bytes.__gt__, bytes.__ge__))
            ensure(got == want, f'{a!r} and {b!r} compare as {got}')
            ensure((str(a) == str(b)) == (a == b), f'{a!r} == {b!r} is {a == b}')
            if a == b:
                ensure(hash(a) == hash(b), f'{a!r} and {b!r} are equal, but their hashes differ')
                rec.nontrivial(str(a) != case['texts'][0])
            ensure(a != str(a), f'{a!r} equals its text')
    ensure([key(u) for u in sorted(items)] == sorted(map(key, items), key=str.encode), f'the order of {items}')
    ensure(len(set(items)) == len({str(u) for u in items}), f'set({items})')


def _s(fn):
    return lambda: st.Strategy(fn)


TESTS = [
    Test('components', _s(components_case), components_check, 30000, 750000),
    Test('options', _s(options_case), options_check_, 50000, 1250000),
    Test('strict', _s(strict_case), strict_check, 20000, 300000),
    Test('refused', _s(refused_case), refused_check, 20000, 300000),
    Test('build', _s(build_case), build_check, 20000, 500000),
    Test('free', _s(free_case), free_check, 60000, 2000000),
    Test('order', _s(order_case), order_check, 20000, 500000),
]
