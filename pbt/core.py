"""Property-test engine: a property module lists `Test`s; each draws repr-able cases from a Hypothesis strategy and
decides them with `check(case, rec)`.  A failing case is shrunk by Hypothesis and stored as a Python literal, which
`run.py replay` re-decides without Hypothesis."""

from __future__ import annotations

import collections
import dataclasses
import datetime
import decimal
import enum
import fractions
import hashlib
import math
import re
import traceback
import uuid
from typing import Any, Callable


class Violation(AssertionError):
    """The property does not hold for this case."""


def kind_of(e: Violation) -> str:
    """Failures of one kind: shrinking must not wander from one to another."""
    return re.split(r'[:\n]', str(e), maxsplit=1)[0]


class Skip(Exception):
    """The generated case is outside the property's domain (counted, never silently)."""


def ensure(cond: Any, msg: str, *details: Any) -> None:
    if not cond:
        raise Violation(msg + (': ' + ' | '.join(short(d) for d in details) if details else ''))


def short(x: Any, n: int = 400) -> str:
    try:
        s = x if isinstance(x, str) else repr(x)
    except Exception as e:  # repr of a broken object must not hide the violation
        s = f'<unrepr-able {type(x).__name__}: {e}>'
    return s if len(s) <= n else s[: n - 3] + '...'


@dataclasses.dataclass
class Test:
    name: str
    strategy: Callable[[], Any]
    check: Callable[[Any, 'Rec'], None]
    quick: int
    thorough: int
    doc: str = ''
    stateless: bool = True


class X:
    """A repr-able stand-in for an object that has no literal form; `mk` in lib.py builds the object."""

    __slots__ = ('kind', 'args')

    def __init__(self, kind: str, *args: Any):
        self.kind = kind
        self.args = args

    def __repr__(self) -> str:
        return 'X(' + ', '.join([repr(self.kind), *map(repr, self.args)]) + ')'

    def __eq__(self, other: Any) -> bool:
        return isinstance(other, X) and repr(self) == repr(other)

    def __hash__(self) -> int:
        return hash(repr(self))


NAMESPACE = {
    'X': X,
    'inf': math.inf,
    'nan': math.nan,
    'datetime': datetime,
    'Decimal': decimal.Decimal,
    'UUID': uuid.UUID,
    'Fraction': fractions.Fraction,
    'frozenset': frozenset,
    're': re,
    'enum': enum,
    'OrderedDict': collections.OrderedDict,
    'deque': collections.deque,
}


def parse_case(text: str) -> Any:
    return eval(text, dict(NAMESPACE))


class Rec:
    """Counts what a shard actually evaluated."""

    def __init__(self, journal: Any = None):
        self.evaluations = 0
        self.skipped = 0
        self.labels: collections.Counter = collections.Counter()
        self.hashes: set[bytes] = set()
        self.samples: list[str] = []
        self.journal = journal
        self._text = ''
        self._nontrivial = False

    def begin(self, case: Any) -> None:
        self._text = repr(case)
        self._nontrivial = False
        if self.journal is not None:
            self.journal(self._text)

    def nontrivial(self, cond: Any = True) -> None:
        if cond:
            self._nontrivial = True

    def label(self, *names: str) -> None:
        for n in names:
            self.labels[n] += 1

    def end(self) -> None:
        self.evaluations += 1
        if self._nontrivial:
            h = hashlib.blake2b(self._text.encode('utf-8', 'surrogatepass'), digest_size=8).digest()
            if h not in self.hashes:
                self.hashes.add(h)
                n = len(self.hashes)
                if n in (1, 7, 50, 300, 2000, 9000) and len(self._text) < 1500:
                    self.samples.append(self._text)


def run_one(test: Test, case: Any, rec: Rec) -> None:
    """Decides one case.  Raises Violation when the property is broken for it.

    On the tree the machinery was validated against no other exception ever leaves `check`; one that does means the
    code under test behaved in a way the harness did not consider possible, so it counts as a violation too (except
    resource exhaustion, which is an error of the run)."""
    rec.begin(case)
    try:
        test.check(case, rec)
    except Skip:
        rec.skipped += 1
        return
    except (Violation, KeyboardInterrupt, SystemExit, MemoryError):
        raise
    except BaseException as e:  # includes pyo3's PanicException
        tb = traceback.format_exc(limit=-6)
        raise Violation(f'{type(e).__name__}: {short(str(e))}\n{tb}') from e
    rec.end()
