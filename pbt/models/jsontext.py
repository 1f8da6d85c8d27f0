"""RFC 8259 by hand: a reader that also says what a truncated text is good for, and a writer with all the freedom the
grammar leaves."""

from __future__ import annotations

from typing import Any

from specs import chance, pick

WS = ' \t\n\r'
MAX_DIGITS = 4300


class Bad(Exception):
    """Not JSON."""


class End(Exception):
    """The text stops in the middle of a value."""


class Reader:
    """partial: None, 'on' or 'trailing-strings'."""

    def __init__(self, text: str, inf_nan: bool = True, partial: str | None = None, limit: int = 200):
        self.t = text
        self.i = 0
        self.inf_nan = inf_nan
        self.partial = partial
        self.depth = 0
        self.limit = limit
        self.murky = False  # a truncated text that is not the beginning of JSON anyway

    def read(self) -> Any:
        try:
            v = self.value()
        except End:
            raise Bad from None
        self.space()
        if self.i < len(self.t):
            if self.partial:
                self.murky = True
            raise Bad
        return v

    def space(self):
        while self.i < len(self.t) and self.t[self.i] in WS:
            self.i += 1

    def peek(self) -> str:
        if self.i >= len(self.t):
            raise End
        return self.t[self.i]

    def word(self, text: str, v: Any):
        for ch in text:
            if self.peek() != ch:
                raise Bad
            self.i += 1
        return v

    def value(self) -> Any:
        self.space()
        ch = self.peek()
        if ch == '"':
            return self.string(value=True)
        if ch == '[':
            return self.array()
        if ch == '{':
            return self.object()
        if ch == 't':
            return self.word('true', True)
        if ch == 'f':
            return self.word('false', False)
        if ch == 'n':
            return self.word('null', None)
        if self.inf_nan and ch == 'N':
            return self.word('NaN', float('nan'))
        if self.inf_nan and ch == 'I':
            return self.word('Infinity', float('inf'))
        if ch == '-' or ch in '0123456789':
            return self.number()
        raise Bad

    def digits(self) -> None:
        if self.peek() not in '0123456789':
            raise Bad
        while self.i < len(self.t) and self.t[self.i] in '0123456789':
            self.i += 1

    def number(self):
        start = self.i
        if self.t[self.i] == '-':
            self.i += 1
            if self.inf_nan and self.peek() == 'I':
                return self.word('Infinity', float('-inf'))
        if self.peek() == '0':
            self.i += 1
            if self.i < len(self.t) and self.t[self.i] in '0123456789':
                raise Bad
        else:
            self.digits()
        integer = True
        if self.i < len(self.t) and self.t[self.i] == '.':
            integer = False
            self.i += 1
            self.digits()
        if self.i < len(self.t) and self.t[self.i] in 'eE':
            integer = False
            self.i += 1
            if self.peek() in '+-':
                self.i += 1
            self.digits()
        text = self.t[start : self.i]
        if not integer:
            return float(text)
        if len(text.lstrip('-')) > MAX_DIGITS:
            raise Bad
        return int(text)

    def hex4(self) -> int:
        digits = ''
        for _ in range(4):
            if self.peek() not in '0123456789abcdefABCDEF':
                raise Bad
            digits += self.t[self.i]
            self.i += 1
        return int(digits, 16)

    def string(self, value: bool = False) -> str:
        self.i += 1
        out: list[str] = []
        while True:
            if self.i >= len(self.t):
                if value and self.partial == 'trailing-strings':
                    return ''.join(out)
                raise End
            ch = self.t[self.i]
            self.i += 1
            if ch == '"':
                return ''.join(out)
            if ch < ' ':
                raise Bad
            if ch != '\\':
                out.append(ch)
                continue
            e = self.peek()
            self.i += 1
            simple = {'"': '"', '\\': '\\', '/': '/', 'b': '\b', 'f': '\f', 'n': '\n', 'r': '\r', 't': '\t'}
            if e in simple:
                out.append(simple[e])
            elif e == 'u':
                code = self.hex4()
                if 0xDC00 <= code < 0xE000:
                    raise Bad
                if 0xD800 <= code < 0xDC00:
                    for want in '\\u':
                        if self.peek() != want:
                            raise Bad
                        self.i += 1
                    low = self.hex4()
                    if not 0xDC00 <= low < 0xE000:
                        raise Bad
                    code = 0x10000 + ((code - 0xD800) << 10) + (low - 0xDC00)
                out.append(chr(code))
            else:
                raise Bad

    def down(self):
        self.depth += 1
        if self.depth > self.limit:
            raise Bad

    def array(self):
        self.down()
        self.i += 1
        out: list = []
        try:
            self.space()
            if self.peek() == ']':
                self.i += 1
                return out
            while True:
                out.append(self.value())
                self.space()
                ch = self.peek()
                self.i += 1
                if ch == ']':
                    return out
                if ch != ',':
                    self.murky = True
                    raise Bad
        except End:
            if self.partial:
                return out
            raise
        finally:
            self.depth -= 1

    def object(self):
        self.down()
        self.i += 1
        out: dict = {}
        try:
            self.space()
            if self.peek() == '}':
                self.i += 1
                return out
            while True:
                self.space()
                if self.peek() != '"':
                    raise Bad
                k = self.string()
                self.space()
                if self.peek() != ':':
                    raise Bad
                self.i += 1
                out[k] = self.value()
                self.space()
                ch = self.peek()
                self.i += 1
                if ch == '}':
                    return out
                if ch != ',':
                    self.murky = True
                    raise Bad
        except End:
            if self.partial:
                return out
            raise
        finally:
            self.depth -= 1


# ---------------------------------------------------------------------------------------------------------- writing
CHARS = ['a', 'b', 'Z', '0', ' ', '"', '\\', '/', '\n', '\t', '\x00', '\x1f', '\x7f', 'é', '\u2028', '中', '\U0001f600', '\U0010ffff', '\ud7ff', '\ue000', "'", '{', ']', ',', ':']
NUMBERS = [
    '0', '1', '-1', '12', '-0', '0.0', '-0.0', '1.5', '-2.25', '1e2', '1E+2', '1e-2', '10e0', '0e5', '9007199254740993', '0.1', '1.7976931348623157e308', '5e-324',
    '123456789012345678', '9223372036854775807', '9223372036854775808', '-9223372036854775808', '-9223372036854775809', '18446744073709551616',
    '123456789012345678901234567890', '0.30000000000000004', '2.2250738585072011e-308', '1e400', '-1e400', '1e-400', '0.000001', '123456.789e3', '1' * 40, '3' * 400, '1.' + '7' * 60,
]  # fmt: skip


def space(s) -> str:
    return '' if not chance(s, 1, 4) else ''.join(pick(s, WS) for _ in range(1 + s.draw(3)))


def char(s, ch: str) -> str:
    short = {'"': '\\"', '\\': '\\\\', '/': '\\/', '\b': '\\b', '\f': '\\f', '\n': '\\n', '\r': '\\r', '\t': '\\t'}
    if ch in short and (ch != '/' or chance(s, 1, 2)) and not chance(s, 1, 4):
        return short[ch]
    if ch < ' ' or ch in '"\\' or chance(s, 1, 6):
        code = ord(ch)
        units = [code] if code < 0x10000 else [0xD800 + ((code - 0x10000) >> 10), 0xDC00 + ((code - 0x10000) & 0x3FF)]
        return ''.join(f'\\u{u:04x}' if chance(s, 1, 2) else f'\\u{u:04X}' for u in units)
    return ch


def string(s) -> str:
    if chance(s, 1, 20):
        return '"' + pick(s, 'ab"') .replace('"', '\\"') * (60 + s.draw(20)) + '"'
    return '"' + ''.join(char(s, pick(s, CHARS)) for _ in range(s.draw(6))) + '"'


def number(s) -> str:
    k = s.draw(3)
    if k == 0:
        return str(s.draw(100))
    if k == 1:
        return pick(s, NUMBERS)
    text = pick(s, ['', '-']) + (str(1 + s.draw(9)) + ''.join(str(s.draw(10)) for _ in range(s.draw(25))) if chance(s, 2, 3) else '0')
    if chance(s, 1, 2):
        text += '.' + ''.join(str(s.draw(10)) for _ in range(1 + s.draw(20)))
    if chance(s, 1, 3):
        text += pick(s, 'eE') + pick(s, ['', '+', '-']) + str(s.draw(330))
    return text


def document(s, depth: int = 4, inf_nan: bool = True) -> str:
    k = s.draw(10 if depth > 0 else 5)
    if k < 2:
        return number(s)
    if k == 2:
        return string(s)
    if k == 3:
        return pick(s, ['true', 'false', 'null'])
    if k == 4:
        return pick(s, ['NaN', 'Infinity', '-Infinity']) if inf_nan and chance(s, 1, 3) else string(s)
    n = s.draw(4)
    if k < 8:
        inner = ','.join(space(s) + document(s, depth - 1, inf_nan) + space(s) for _ in range(n))
        return '[' + (inner or space(s)) + ']'
    keys = [string(s) for _ in range(n)]
    if n > 1 and chance(s, 1, 4):
        keys[-1] = keys[0]
    inner = ','.join(space(s) + k + space(s) + ':' + space(s) + document(s, depth - 1, inf_nan) + space(s) for k in keys)
    return '{' + (inner or space(s)) + '}'
