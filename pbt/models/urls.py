"""URLs: texts put together from components, and what parsing them has to give.

Only texts whose parts are unambiguous are made here (no backslashes, tabs or empty authorities unless a case is about
them); the parts themselves contain anything, so that percent-encoding, case folding, punycode, default ports and dot
segments all have to be right."""

from __future__ import annotations

import re
import urllib.parse
from typing import Any

SPECIAL = {'http': 80, 'https': 443, 'ws': 80, 'wss': 443, 'ftp': 21}
KNOWN_PORT = SPECIAL

QUERY_SET = set(' "#<>')
SPECIAL_QUERY_SET = QUERY_SET | {"'"}
FRAGMENT_SET = set(' "<>`')
PATH_SET = QUERY_SET | set('?`{}')
USER_SET = PATH_SET | set('/:;=@[\\]^|')


def encode(text: str, which: set) -> str:
    out = []
    for ch in text:
        if ch in which or ord(ch) < 32 or ord(ch) > 126:
            out.append(''.join(f'%{b:02X}' for b in ch.encode()))
        else:
            out.append(ch)
    return ''.join(out)


def puny(label: str) -> str:
    return label if label.isascii() else 'xn--' + label.encode('punycode').decode()


def unpuny(label: str) -> str:
    return label[4:].encode().decode('punycode') if label.startswith('xn--') else label


class Parts:
    """The components of a parsed (single-host) URL."""

    def __init__(self, scheme, username, password, host, port, path, query, fragment):
        self.scheme = scheme
        self.username = username or None
        self.password = password or None
        self.host = host
        self.port = port  # None: absent, or the usual port of the scheme
        self.path = path
        self.query = query
        self.fragment = fragment

    def authority(self, unicode: bool = False) -> str:
        auth = ''
        if self.username or self.password is not None:
            auth = (self.username or '') + (f':{self.password}' if self.password is not None else '') + '@'
        auth += (self.unicode_host() if unicode else self.host) or ''
        return auth + (f':{self.port}' if self.port is not None else '')

    def text(self, unicode: bool = False, authorities: list[str] | None = None) -> str:
        auth = ','.join([*(authorities or []), self.authority(unicode)])
        out = f'{self.scheme}://{auth}{self.path}'
        return out + ('' if self.query is None else f'?{self.query}') + ('' if self.fragment is None else f'#{self.fragment}')

    def unicode_host(self):
        if self.host is None or self.scheme not in (*SPECIAL, 'file'):
            return self.host
        return '.'.join(map(unpuny, self.host.split('.')))

    def known_port(self):
        return KNOWN_PORT.get(self.scheme) if self.port is None else self.port

    def host_dict(self):
        return {'username': self.username, 'password': self.password, 'host': self.host, 'port': self.known_port()}

    def getters(self) -> dict[str, Any]:
        query = [] if self.query is None else urllib.parse.parse_qsl(self.query, keep_blank_values=True, errors='replace')
        return {
            'scheme': self.scheme, 'path': self.path or None, 'query': self.query, 'fragment': self.fragment, 'query_params': query,
        }  # fmt: skip

    def replace(self, **kw) -> Parts:
        now = {k: getattr(self, k) for k in ('scheme', 'username', 'password', 'host', 'port', 'path', 'query', 'fragment')}
        return Parts(**{**now, **kw})


def host_text(spec, special: bool) -> tuple[str, str]:
    """The text of a host, and what it is normalised to."""
    if spec[0] == 'ip':
        return spec[1], spec[2]
    text = spec[1]
    if not special:
        return text, encode(text, set())
    return text, '.'.join(puny(label.lower()) for label in text.split('.'))


def path_norm(path: str, special: bool) -> str:
    if not path:
        return '/' if special else ''
    out: list[str] = []
    segments = path.split('/')[1:]
    for i, seg in enumerate(segments):
        last = i == len(segments) - 1
        if seg == '..':
            if out:
                out.pop()
            if last:
                out.append('')
        elif seg == '.':
            if last:
                out.append('')
        else:
            out.append(encode(seg, PATH_SET))
    return '/' + '/'.join(out)


def user_text(user) -> str:
    """The text before the host; user is None or [name, password | None], not yet percent-encoded."""
    if user is None:
        return ''
    name, password = user
    return encode(name, set('/?#@:,%\\')) + ('' if password is None else ':' + encode(password, set('/?#@:,%\\'))) + '@'


def user_norm(user) -> tuple[str | None, str | None]:
    if user is None:
        return None, None
    name, password = user
    escape = set('/?#@:,%\\')  # these are percent-encoded in the text already
    once = lambda t: encode(encode(t, escape), USER_SET)  # noqa: E731
    return once(name) or None, (once(password) or None) if password is not None else None


def compose_text(spec) -> str:
    hosts = []
    special = spec['scheme'].lower() in SPECIAL
    for h in spec['hosts']:
        port = h.get('port')
        hosts.append(user_text(h.get('user')) + host_text(h['host'], special)[0] + ('' if port is None else f':{port}'))
    return (
        f'{spec["scheme"]}://{",".join(hosts)}{spec["path"]}'
        + ('' if spec['query'] is None else f'?{spec["query"]}')
        + ('' if spec['fragment'] is None else f'#{spec["fragment"]}')
    )


def parts(spec) -> list[Parts]:
    """One per host; the last one has the rest of the URL."""
    scheme = spec['scheme'].lower()
    special = scheme in SPECIAL
    out = []
    for i, h in enumerate(spec['hosts']):
        last = i == len(spec['hosts']) - 1
        user, password = user_norm(h.get('user'))
        port = h.get('port')
        port = None if port is None or int(port) == KNOWN_PORT.get(scheme) else int(port)
        query = spec['query'] if last else None
        frag = spec['fragment'] if last else None
        out.append(
            Parts(
                scheme, user, password, host_text(h['host'], special)[1], port, path_norm(spec['path'] if last else '', special),
                None if query is None else encode(query, SPECIAL_QUERY_SET if special else QUERY_SET),
                None if frag is None else encode(frag, FRAGMENT_SET),
            )  # fmt: skip
        )
    return out


AUTHORITY = re.compile(r'([A-Za-z][A-Za-z0-9+.-]*)://([^/\\?#]*)(.*)', re.S)


def split_hosts(text: str) -> tuple[str, list[str], str] | None:
    """The prefix, the comma-separated hosts and the rest of a URL with an authority."""
    m = AUTHORITY.fullmatch(text)
    if m is None:
        return None
    return m[1] + '://', m[2].split(','), m[3]
