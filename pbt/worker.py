"""One shard of one property (or one replay), in its own process."""

from __future__ import annotations

import importlib
import json
import mmap
import os
import random
import sys
import time
import traceback

SHRINK_S = 25
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)


def contain():
    """A case that runs away must not take the machine with it; nor may a worker outlive what started it."""
    import ctypes
    import resource
    import signal

    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    ctypes.CDLL(None).prctl(1, signal.SIGKILL, 0, 0, 0)  # PR_SET_PDEATHSIG


def load(prop: str):
    import pydantic_core

    expected = os.environ.get('PBT_PKG')
    if expected and not os.path.abspath(pydantic_core.__file__).startswith(os.path.abspath(expected)):
        raise SystemExit(f'wrong pydantic_core: {pydantic_core.__file__}')
    return importlib.import_module(f'props.{prop.lower()}')


def shard(prop: str, out: str, seed: int, idx: int, nshards: int, tier: str, scale: float, only: str | None) -> None:
    import warnings

    warnings.simplefilter('ignore')
    import core
    import gen

    mod = load(prop)
    jf = open(out + '.journal', 'w+b')
    jsize = 1 << 20
    jf.truncate(jsize)
    jm = mmap.mmap(jf.fileno(), jsize)
    result = {'tests': {}, 'failures': []}
    for t_index, test in enumerate(mod.TESTS):
        if only and test.name != only:
            continue
        n = int((test.quick if tier == 'quick' else test.thorough) * scale)
        n = max(1, n // nshards + (1 if idx < n % nshards else 0))
        prefix = test.name.encode() + b'\n'

        def journal(text: str, prefix=prefix):
            b = prefix + text.encode('utf-8', 'surrogatepass')[: jsize - len(prefix) - 8]
            jm[: len(b) + 1] = b + b'\0'

        rec = core.Rec(journal)
        fails: list[dict] = []

        def record_failure(case, exc):
            text = repr(case)
            if True:
                fails.append({'test': test.name, 'case': text, 'message': str(exc)[:3000]})
                with open(out + '.fail', 'w', encoding='utf-8', errors='surrogatepass') as f:
                    json.dump(fails[-1], f)

        strategy = test.strategy()
        rng = random.Random((seed * 1000 + idx) * 1000 + t_index)
        deadline_at = None
        t0 = time.time()
        harness_error = None
        rejected = 0
        try:
            for _ in range(n):
                src = gen.Source(rng)
                try:
                    case = strategy.do(src)
                except gen.Reject:
                    rejected += 1
                    continue
                try:
                    core.run_one(test, case, rec)
                except core.Violation as e:
                    kind = core.kind_of(e)
                    record_failure(case, e)
                    deadline_at = time.time() + SHRINK_S

                    def still_fails(v):
                        try:
                            core.run_one(test, v, core.Rec(journal))
                        except core.Violation as e2:
                            if core.kind_of(e2) == kind:
                                record_failure(v, e2)
                                return True
                        return False

                    gen.shrink(strategy, src.log, still_fails, lambda: time.time() > deadline_at)
                    break
            if rejected * 2 > n and n > 20:
                harness_error = f'the generator rejected {rejected} of {n} draws'
        except BaseException:
            harness_error = traceback.format_exc()
        result['tests'][test.name] = {
            'evaluations': rec.evaluations,
            'skipped': rec.skipped,
            'labels': dict(rec.labels),
            'hashes': [h.hex() for h in rec.hashes],
            'samples': rec.samples,
            'wall_s': time.time() - t0,
            'planned': n,
            'harness_error': harness_error,
        }
        if fails:
            result['failures'].append(fails[-1])
            break
    with open(out + '.tmp', 'w', encoding='utf-8', errors='surrogatepass') as f:
        json.dump(result, f)
    os.replace(out + '.tmp', out)


def replay(prop: str, test_name: str, case_file: str) -> int:
    import warnings

    warnings.simplefilter('ignore')
    import core

    mod = load(prop)
    test = next(t for t in mod.TESTS if t.name == test_name)
    with open(case_file, encoding='utf-8', errors='surrogatepass') as f:
        case = core.parse_case(json.load(f)['case'])
    try:
        core.run_one(test, case, core.Rec())
    except core.Violation as e:
        print(f'FAILS {prop}/{test_name}: {e}'.encode('utf-8', 'backslashreplace').decode())
        return 10
    print(f'HOLDS {prop}/{test_name}')
    return 0


if __name__ == '__main__':
    contain()
    if sys.argv[1] == 'shard':
        a = json.loads(sys.argv[2])
        shard(**a)
    else:
        sys.exit(replay(*sys.argv[2:5]))
