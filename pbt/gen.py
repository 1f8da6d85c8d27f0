"""Generators with integrated shrinking.

A strategy maps a source of bounded choices to a value.  A case is generated from random choices; a failing one is
shrunk by editing its sequence of choices (deleting, lowering) and generating again, so that every shrunk case is one
the strategy can produce.  Same vocabulary as hypothesis.strategies, but fast enough for 10^5 cases per minute."""

from __future__ import annotations

import datetime as dt
import math
import random
import struct
from typing import Any, Callable


class Reject(Exception):
    """The choices do not lead to a value (a filter gave up)."""


class Source:
    __slots__ = ('rng', 'forced', 'log', 'pos')

    def __init__(self, rng: random.Random | None, forced: list[int] | None = None):
        self.rng = rng
        self.forced = forced
        self.log: list[int] = []
        self.pos = 0

    def draw(self, n: int) -> int:
        """An integer in [0, n)."""
        if self.forced is None:
            v = int(self.rng.random() * n) if n <= 1 << 50 else self.rng.randrange(n)  # type: ignore[union-attr]
        else:
            p = self.pos
            self.pos = p + 1
            v = self.forced[p] if p < len(self.forced) else 0
            if v >= n:
                v = n - 1
        self.log.append(v)
        return v


class Strategy:
    __slots__ = ('do',)

    def __init__(self, do: Callable[[Source], Any]):
        self.do = do

    def map(self, f: Callable[[Any], Any]) -> Strategy:
        do = self.do
        return Strategy(lambda s: f(do(s)))

    def flatmap(self, f: Callable[[Any], Strategy]) -> Strategy:
        do = self.do
        return Strategy(lambda s: f(do(s)).do(s))

    def filter(self, pred: Callable[[Any], bool]) -> Strategy:
        do = self.do

        def go(s):
            for _ in range(30):
                v = do(s)
                if pred(v):
                    return v
            raise Reject

        return Strategy(go)

    def __or__(self, other: Strategy) -> Strategy:
        return one_of(self, other)


SearchStrategy = Strategy


def just(v: Any) -> Strategy:
    return Strategy(lambda s: v)


def none() -> Strategy:
    return just(None)


def booleans() -> Strategy:
    return Strategy(lambda s: s.draw(2) == 1)


def sampled_from(xs) -> Strategy:
    xs = list(xs)
    n = len(xs)
    assert n
    return Strategy(lambda s: xs[s.draw(n)])


def one_of(*parts) -> Strategy:
    if len(parts) == 1 and isinstance(parts[0], (list, tuple)):
        parts = tuple(parts[0])
    dos = [p.do for p in parts]
    n = len(dos)
    return Strategy(lambda s: dos[s.draw(n)](s))


def weighted(*pairs) -> Strategy:
    """weighted((3, a), (1, b))"""
    dos = [p.do for w, p in pairs for _ in range(w)]
    n = len(dos)
    return Strategy(lambda s: dos[s.draw(n)](s))


def integers(lo: int, hi: int) -> Strategy:
    n = hi - lo + 1
    if lo <= 0 <= hi:  # shrink towards zero
        def go(s):
            k = s.draw(n)
            return k if k <= hi else hi - k

        return Strategy(go)
    return Strategy(lambda s: lo + s.draw(n))


def floats(allow_nan: bool = False, allow_infinity: bool = False) -> Strategy:
    def go(s):
        how = s.draw(6)
        if how == 0:
            return float(s.draw(2001) - 1000)
        if how == 1:
            return (s.draw(2_000_001) - 1_000_000) / 10 ** s.draw(7)
        if how == 2:
            return (1 if s.draw(2) else -1) * float(s.draw(1 << 60)) * 10.0 ** (s.draw(41) - 20)
        if how == 3:
            return (1 if s.draw(2) else -1) * (1 + s.draw(10**6) / 10**6) * 10.0 ** (s.draw(600) - 300)
        f = struct.unpack('<d', struct.pack('<Q', s.draw(1 << 64)))[0]
        if math.isfinite(f) or (f != f and allow_nan) or (abs(f) == math.inf and allow_infinity):
            return f
        return 1.0

    return Strategy(go)


def characters(**kw) -> Strategy:
    def go(s):
        how = s.draw(8)
        if how < 3:
            return chr(32 + s.draw(95))
        if how == 3:
            return chr(s.draw(0x300))
        if how == 4:
            return chr(s.draw(0x3000))
        c = s.draw(0x110000)
        return chr(c) if not 0xD800 <= c < 0xE000 else 'x'

    return Strategy(go)


def text(alphabet=None, min_size: int = 0, max_size: int = 8) -> Strategy:
    if alphabet is None:
        alphabet = characters()
    elif not isinstance(alphabet, Strategy):
        alphabet = sampled_from(alphabet)
    do = alphabet.do
    n = max_size - min_size + 1
    return Strategy(lambda s: ''.join([do(s) for _ in range(min_size + s.draw(n))]))


def binary(min_size: int = 0, max_size: int = 8) -> Strategy:
    n = max_size - min_size + 1
    return Strategy(lambda s: bytes([s.draw(256) for _ in range(min_size + s.draw(n))]))


def tuples(*parts) -> Strategy:
    dos = [p.do for p in parts]
    return Strategy(lambda s: tuple([d(s) for d in dos]))


def lists(elem: Strategy, min_size: int = 0, max_size: int = 5, unique_by=None, unique: bool = False) -> Strategy:
    do = elem.do
    n = max_size - min_size + 1
    if unique:
        unique_by = lambda x: x  # noqa: E731
    if unique_by is None:
        return Strategy(lambda s: [do(s) for _ in range(min_size + s.draw(n))])

    def go(s):
        out, seen = [], set()
        want = min_size + s.draw(n)
        for _ in range(want * 4):
            if len(out) >= want:
                break
            v = do(s)
            k = unique_by(v)
            if k not in seen:
                seen.add(k)
                out.append(v)
        if len(out) < min_size:
            raise Reject
        return out

    return Strategy(go)


def dictionaries(k: Strategy, v: Strategy, min_size: int = 0, max_size: int = 5) -> Strategy:
    return lists(tuples(k, v), min_size, max_size).map(dict)


def fixed_dictionaries(d: dict, optional: dict | None = None) -> Strategy:
    items = [(k, v.do) for k, v in d.items()]
    opts = [(k, v.do) for k, v in (optional or {}).items()]

    def go(s):
        out = {k: do(s) for k, do in items}
        for k, do in opts:
            if s.draw(2):
                out[k] = do(s)
        return out

    return Strategy(go)


def builds(f: Callable, *parts, **kw) -> Strategy:
    dos = [p.do for p in parts]
    kdos = [(k, p.do) for k, p in kw.items()]
    return Strategy(lambda s: f(*[d(s) for d in dos], **{k: d(s) for k, d in kdos}))


def recursive(base: Strategy, extend: Callable[[Strategy], Strategy], max_leaves: int = 8, depth: int = 3) -> Strategy:
    levels = [base]
    for _ in range(depth):
        levels.append(weighted((2, base), (3, extend(levels[-1]))))
    top = [levels[0]] + [extend(lv) for lv in levels[:-1]]
    dos = [t.do for t in top]
    n = len(dos)
    return Strategy(lambda s: dos[s.draw(n)](s))


def permutations(xs) -> Strategy:
    xs = list(xs)

    def go(s):
        out = list(xs)
        for i in range(len(out) - 1):
            j = i + s.draw(len(out) - i)
            out[i], out[j] = out[j], out[i]
        return out

    return Strategy(go)


def subsets(xs) -> Strategy:
    xs = list(xs)
    return Strategy(lambda s: [x for x in xs if s.draw(2)])


def dates(lo: dt.date = dt.date.min, hi: dt.date = dt.date.max) -> Strategy:
    a = lo.toordinal()
    n = hi.toordinal() - a + 1
    return Strategy(lambda s: dt.date.fromordinal(a + s.draw(n)))


def deferred(f: Callable[[], Strategy]) -> Strategy:
    return Strategy(lambda s: f().do(s))


def composite(f: Callable[..., Any]) -> Callable[..., Strategy]:
    """f(draw, *args) -> value"""

    def make(*args, **kw):
        return Strategy(lambda s: f(lambda strat: strat.do(s), *args, **kw))

    return make


def shrink(strategy: Strategy, log: list[int], fails: Callable[[Any], bool], deadline: Callable[[], bool]) -> tuple[Any, list[int]]:
    """The simplest failing case reachable by editing `log` (shorter first, then lexicographically smaller)."""
    best = list(log)
    best_value = None

    def attempt(cand: list[int]) -> bool:
        nonlocal best, best_value
        if deadline():
            return False
        s = Source(None, cand)
        try:
            v = strategy.do(s)
        except Reject:
            return False
        used = s.log
        if (len(used), used) >= (len(best), best) and best_value is not None:
            return False
        if fails(v):
            best, best_value = used, v
            return True
        return False

    attempt(best)
    improved = True
    while improved and not deadline():
        improved = False
        # delete chunks
        for size in (32, 16, 8, 5, 4, 3, 2, 1):
            i = len(best) - size
            while i >= 0 and not deadline():
                if i + size <= len(best) and attempt(best[:i] + best[i + size :]):
                    improved = True
                elif i > 0 and best[i - 1] > 0 and attempt(best[: i - 1] + [best[i - 1] - 1] + best[i + size :]):
                    improved = True
                i -= 1
        # zero chunks, then minimise single choices
        for size in (8, 4, 2):
            for i in range(0, len(best) - size + 1):
                if any(best[i : i + size]) and attempt(best[:i] + [0] * size + best[i + size :]):
                    improved = True
        i = 0
        while i < len(best) and not deadline():
            if best[i]:
                if attempt(best[:i] + [0] + best[i + 1 :]):
                    improved = True
                else:
                    lo, hi = 0, best[i]
                    while hi - lo > 1 and i < len(best) and not deadline():
                        mid = (lo + hi) // 2
                        if attempt(best[:i] + [mid] + best[i + 1 :]):
                            improved = True
                            hi = mid
                        else:
                            lo = mid
                    if i < len(best) and best[i] > 0 and attempt(best[:i] + [best[i] - 1] + best[i + 1 :]):
                        improved = True
            i += 1
    return best_value, best
