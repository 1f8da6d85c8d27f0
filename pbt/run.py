"""run.py PROP [--tier quick|thorough] [--seed N] [--only TEST] [--scale F]   decide one property
   run.py replay FILE                                                         re-decide one saved case

Exit 0: held on everything explored.  Exit 1 + VIOLATION line: broken.  Exit 2: the check itself could not decide."""

from __future__ import annotations

import argparse
import hashlib
import importlib
import json
import os
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import build as B  # noqa: E402

NSHARDS = int(os.environ.get('PBT_SHARDS', '8'))
HARD_LIMIT = {'quick': 780, 'thorough': 7200}
SHRINK_LIMIT = 45


def worker_env(pkg: str) -> dict[str, str]:
    e = B.env()
    e['PYTHONPATH'] = pkg
    e['PBT_PKG'] = pkg
    e['OPENBLAS_NUM_THREADS'] = '1'
    return e


def known_findings(prop: str) -> list[dict]:
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return [f for f in json.load(open(p))['findings'] if f['property'] == prop and f.get('status', 'open') == 'open']


def write_replay(prop: str, fail: dict, extra: dict) -> str:
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha256((fail['test'] + fail['case']).encode('utf-8', 'surrogatepass')).hexdigest()[:12]
    p = os.path.join(d, f'{prop}-{fail["test"]}-{h}.json')
    with open(p, 'w', encoding='utf-8', errors='surrogatepass') as f:
        json.dump({'property': prop, **fail, **extra}, f, indent=1)
    return p


def run_replay(prop: str, test: str, path: str, pkg: str, timeout: float = 120) -> tuple[int, str]:
    try:
        r = subprocess.run(
            [B.PYTHON, os.path.join(HERE, 'worker.py'), 'replay', prop, test, path],
            env=worker_env(pkg),
            stdout=subprocess.PIPE,
            stderr=subprocess.STDOUT,
            timeout=timeout,
        )
    except subprocess.TimeoutExpired:
        return 124, 'timeout'
    return r.returncode, r.stdout.decode('utf-8', 'replace')


def read_journal(path: str) -> tuple[str, str] | None:
    try:
        data = open(path, 'rb').read().split(b'\0', 1)[0]
        name, text = data.split(b'\n', 1)
        return name.decode(), text.decode('utf-8', 'surrogatepass')
    except (OSError, ValueError):
        return None


def run_property(prop: str, tier: str, seed: int, only: str | None, scale: float) -> int:
    t_start = time.time()
    try:
        pkg = B.build()
    except B.BuildError as e:
        print(f'ERROR: the extension does not build\n{e}')
        return 2
    t_built = time.time()
    tmp = tempfile.mkdtemp(prefix=f'pbt-{prop}-')
    procs: dict[int, subprocess.Popen] = {}
    outs: dict[int, str] = {}

    def start(i: int) -> None:
        outs[i] = os.path.join(tmp, f'shard{i}')
        args = dict(
            prop=prop, out=outs[i], seed=seed, idx=i, nshards=NSHARDS, tier=tier, scale=scale, only=only
        )
        log = open(outs[i] + '.log', 'wb')
        procs[i] = subprocess.Popen(
            [B.PYTHON, os.path.join(HERE, 'worker.py'), 'shard', json.dumps(args)],
            env=worker_env(pkg),
            stdout=log,
            stderr=subprocess.STDOUT,
            start_new_session=True,
        )

    for i in range(NSHARDS):
        start(i)
    limit = HARD_LIMIT[tier]
    first_fail = None
    timed_out = False
    crashed: list[int] = []
    while True:
        alive = [i for i, p in procs.items() if p.poll() is None]
        for i, p in procs.items():
            if p.poll() is not None and p.returncode != 0 and i not in crashed:
                crashed.append(i)
        if not alive:
            break
        if first_fail is None and (crashed or any(os.path.exists(o + '.fail') for o in outs.values())):
            first_fail = time.time()
        if first_fail is not None and time.time() - first_fail > SHRINK_LIMIT:
            break
        if time.time() - t_start > limit:
            timed_out = True
            break
        time.sleep(0.05)
    for p in procs.values():
        if p.poll() is None:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            p.wait()

    agg: dict[str, dict] = {}
    failures: list[dict] = []
    errors: list[str] = []
    for i, out in outs.items():
        if os.path.exists(out):
            with open(out, encoding='utf-8', errors='surrogatepass') as f:
                res = json.load(f)
            for name, t in res['tests'].items():
                a = agg.setdefault(
                    name, {'evaluations': 0, 'skipped': 0, 'labels': {}, 'hashes': set(), 'samples': [], 'wall_s': 0.0}
                )
                a['evaluations'] += t['evaluations']
                a['skipped'] += t['skipped']
                a['wall_s'] = max(a['wall_s'], t['wall_s'])
                a['hashes'].update(t['hashes'])
                a['samples'] += t['samples']
                for k, v in t['labels'].items():
                    a['labels'][k] = a['labels'].get(k, 0) + v
                if t['harness_error']:
                    errors.append(f'shard {i} {name}: {t["harness_error"]}')
            failures += res['failures']
        elif os.path.exists(out + '.fail'):
            with open(out + '.fail', encoding='utf-8', errors='surrogatepass') as f:
                failures.append(json.load(f))
        elif i in crashed:
            rc = procs[i].returncode
            j = read_journal(out + '.journal')
            log = open(out + '.log', 'rb').read()[-2000:].decode('utf-8', 'replace')
            if rc < 0 and j and rc != -signal.SIGKILL:
                failures.append(
                    {'test': j[0], 'case': j[1], 'message': f'the process died with signal {-rc}\n{log}', 'crash': -rc}
                )
            else:
                errors.append(f'shard {i} exited {rc}: {log}')
        elif first_fail is None:
            errors.append(f'shard {i} gave no result' + (' (time limit)' if timed_out else ''))

    # confirm each failure in a fresh process
    confirmed: list[tuple[dict, str]] = []
    unconfirmed: list[dict] = []
    failures.sort(key=lambda f: len(f['case']))
    seen_tests: set[str] = set()
    for fail in failures:
        if fail['test'] in seen_tests:
            continue
        path = write_replay(prop, fail, {'seed': seed, 'tier': tier})
        rc, text = run_replay(prop, fail['test'], path, pkg)
        if rc == 10 or (rc < 0 and rc != -signal.SIGKILL):
            confirmed.append((fail, path))
            seen_tests.add(fail['test'])
        else:
            fail['replay_rc'] = rc
            fail['replay_out'] = text[-500:]
            unconfirmed.append(fail)
    # A failure that needs the history of its process (state leaking between calls) is confirmed by running the
    # same shard again: the run is a pure function of code and seed.
    if unconfirmed and not confirmed:
        fail = unconfirmed[0]
        mod_outs = [o for o in outs.values() if os.path.exists(o + '.fail')]
        for o in mod_outs[:2]:
            i = next(k for k, v in outs.items() if v == o)
            os.remove(o + '.fail')
            start(i)
            try:
                procs[i].wait(timeout=240)
            except subprocess.TimeoutExpired:
                os.killpg(procs[i].pid, signal.SIGKILL)
                procs[i].wait()
            if os.path.exists(o + '.fail'):
                fail['message'] += '\n(reproduced by re-running the shard with the same seed, not by the single case)'
                path = write_replay(
                    prop, fail, {'seed': seed, 'tier': tier, 'shard': i, 'nshards': NSHARDS, 'needs_history': True}
                )
                confirmed.append((fail, path))
                break
        if not confirmed:
            errors.append(f'failure that could not be reproduced: {json.dumps(fail)[:3000]}')

    findings = known_findings(prop)
    for f in findings:
        print(f'KNOWN-FINDING: property={prop} {f["what"]}')

    evals = sum(a['evaluations'] for a in agg.values())
    distinct = sum(len(a['hashes']) for a in agg.values())
    try:
        mod_rules = json.loads(
            subprocess.run(
                [
                    B.PYTHON,
                    '-c',
                    f'import sys,json;sys.path.insert(0,{HERE!r});import importlib;'
                    f'm=importlib.import_module("props.{prop.lower()}");'
                    'print(json.dumps({"rule":m.RULE,"assumptions":getattr(m,"ASSUMPTIONS",[])}))',
                ],
                env=worker_env(pkg),
                capture_output=True,
                text=True,
                check=True,
            ).stdout
        )
    except (subprocess.CalledProcessError, ValueError):
        mod_rules = {'rule': '', 'assumptions': []}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    evidence = {
        'property': prop,
        'tier': tier,
        'seed': seed,
        'level': 'exploration',
        'coverage': {
            'evaluations': evals,
            'distinct_nontrivial': distinct,
            'rule': mod_rules['rule'],
            'samples': [s for a in agg.values() for s in a['samples'][:3]][:20],
            'shards': NSHARDS,
            'per_test': {
                n: {
                    'evaluations': a['evaluations'],
                    'distinct_nontrivial': len(a['hashes']),
                    'skipped_out_of_domain': a['skipped'],
                    'wall_s': round(a['wall_s'], 1),
                    'classes': dict(sorted(a['labels'].items())),
                }
                for n, a in agg.items()
            },
            'build_s': round(t_built - t_start, 1),
        },
        'assumptions': mod_rules['assumptions'],
        'wall_s': round(time.time() - t_start, 2),
        'violations': len(confirmed),
    }
    with open(os.path.join(VERIF, 'evidence', f'{prop}.json'), 'w', encoding='utf-8', errors='backslashreplace') as f:
        json.dump(evidence, f, indent=1)

    for name, a in agg.items():
        print(
            f'{prop}/{name}: {a["evaluations"]} cases, {len(a["hashes"])} distinct non-trivial, '
            f'{a["skipped"]} out of domain, {a["wall_s"]:.1f}s'
        )
    subprocess.run(['rm', '-rf', tmp], check=False)
    if confirmed:
        for fail, path in confirmed:
            print(f'--- {prop}/{fail["test"]}\ncase: {fail["case"][:2000]}\n{fail["message"]}'.encode('utf-8', 'backslashreplace').decode())
            print(f'VIOLATION property={prop} replay={path}')
        return 1
    if errors:
        for e in errors:
            print(f'ERROR: {e}'.encode('utf-8', 'backslashreplace').decode())
        return 2
    print(f'{prop}: held on {evals} cases ({time.time() - t_start:.1f}s, build {t_built - t_start:.1f}s)')
    return 0


def main() -> int:
    if len(sys.argv) > 1 and sys.argv[1] == 'replay':
        path = os.path.abspath(sys.argv[2])
        d = json.load(open(path, encoding='utf-8', errors='surrogatepass'))
        pkg = B.build()
        if d.get('needs_history'):
            out = os.path.join(tempfile.mkdtemp(prefix='pbt-replay-'), 'shard')
            args = dict(
                prop=d['property'], out=out, seed=d['seed'], idx=d['shard'], nshards=d['nshards'], tier=d['tier'],
                scale=1.0, only=None,
            )
            subprocess.run(
                [B.PYTHON, os.path.join(HERE, 'worker.py'), 'shard', json.dumps(args)], env=worker_env(pkg)
            )
            bad = os.path.exists(out + '.fail')
            print('FAILS' if bad else 'HOLDS')
        else:
            rc, text = run_replay(d['property'], d['test'], path, pkg)
            print(text)
            bad = rc == 10 or rc < 0
        if bad:
            print(f'VIOLATION property={d["property"]} replay={path}')
        return 1 if bad else 0
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--only')
    ap.add_argument('--scale', type=float, default=1.0)
    a = ap.parse_args()
    return run_property(a.prop, a.tier, a.seed, a.only, a.scale)


if __name__ == '__main__':
    sys.exit(main())
