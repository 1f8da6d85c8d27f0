"""Build pydantic-core from /repo's current working tree into /verif/.build (never into /repo).

The extension is compiled with the same profile the project's stable tests use (dev, opt-level 1, debug
assertions and overflow checks on).  A content hash over every input of the build decides whether the compiled
crate may be reused, so neither preserved mtimes nor a restored checkout can make a stale binary be tested.
"""

from __future__ import annotations

import fcntl
import glob
import hashlib
import os
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('PBT_REPO', '/repo')
BUILD = os.environ.get('PBT_BUILD', os.path.join(VERIF, '.build'))
PKG = os.path.join(BUILD, 'pkg')
TARGET = os.path.join(BUILD, 'target')
VENV = '/opt/vp/venv'
PYTHON = f'{VENV}/bin/python'


class BuildError(Exception):
    pass


def env() -> dict[str, str]:
    e = {k: v for k, v in os.environ.items() if k in ('TMPDIR', 'VERIF_SEED', 'VERIF_TIER')}
    e.update(
        HOME='/root',
        LANG='C.UTF-8',
        LC_ALL='C.UTF-8',
        TZ='UTC',
        VIRTUAL_ENV=VENV,
        PATH=f'{VENV}/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin',
        RUSTUP_TOOLCHAIN='stable',
        RUSTC_WRAPPER='',
        CARGO_NET_OFFLINE='true',
        CARGO_TERM_COLOR='never',
        CARGO_INCREMENTAL='1',
        CARGO_PROFILE_DEV_DEBUG='line-tables-only',
        CARGO_PROFILE_DEV_OPT_LEVEL='1',
        CARGO_TARGET_DIR=TARGET,
        PYO3_PYTHON=PYTHON,
        PYTHONHASHSEED='0',
        PYTHONDONTWRITEBYTECODE='1',
    )
    for k in ('CARGO_HOME', 'RUSTUP_HOME'):
        if k in os.environ:
            e[k] = os.environ[k]
    return e


def source_files() -> list[str]:
    out = []
    for top in ('Cargo.toml', 'Cargo.lock', 'build.rs', 'generate_self_schema.py', '.cargo/config.toml'):
        p = os.path.join(REPO, top)
        if os.path.exists(p):
            out.append(p)
    for d in ('src', 'python'):
        for root, dirs, files in os.walk(os.path.join(REPO, d)):
            dirs[:] = sorted(x for x in dirs if x != '__pycache__')
            for f in sorted(files):
                if f.endswith(('.so', '.pyc')) or f == 'self_schema.py':
                    continue
                out.append(os.path.join(root, f))
    return out


def tree_hash() -> str:
    h = hashlib.sha256()
    for p in source_files():
        h.update(os.path.relpath(p, REPO).encode() + b'\0')
        with open(p, 'rb') as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()


def build(verbose: bool = False) -> str:
    """Returns the directory to put on PYTHONPATH."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, 'lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        h = tree_hash()
        stamp = os.path.join(BUILD, 'stamp')
        if os.path.exists(stamp) and open(stamp).read() == h and glob.glob(f'{PKG}/pydantic_core/*.so'):
            return PKG
        t0 = time.time()
        if os.path.exists(stamp):
            os.remove(stamp)
        # our crate is always recompiled when the hash differs; dependencies are kept
        for fp in glob.glob(os.path.join(TARGET, '*', '.fingerprint', 'pydantic-core-*')):
            shutil.rmtree(fp)
        e = env()
        r = subprocess.run(
            ['cargo', 'rustc', '--offline', '--lib', '--crate-type', 'cdylib', '--features', 'extension-module'],
            cwd=REPO,
            env=e,
            stdout=subprocess.PIPE,
            stderr=subprocess.STDOUT,
            text=True,
        )
        if r.returncode != 0:
            raise BuildError(r.stdout[-4000:])
        dst = os.path.join(PKG, 'pydantic_core')
        if os.path.exists(dst):
            shutil.rmtree(dst)
        shutil.copytree(
            os.path.join(REPO, 'python', 'pydantic_core'),
            dst,
            ignore=shutil.ignore_patterns('*.so', '__pycache__'),
        )
        ext = subprocess.run(
            [PYTHON, '-c', 'import sysconfig;print(sysconfig.get_config_var("EXT_SUFFIX"))'],
            capture_output=True,
            text=True,
            check=True,
        ).stdout.strip()
        shutil.copy(os.path.join(TARGET, 'debug', 'lib_pydantic_core.so'), os.path.join(dst, '_pydantic_core' + ext))
        with open(stamp, 'w') as f:
            f.write(h)
        if verbose:
            print(f'built in {time.time() - t0:.1f}s', file=sys.stderr)
        return PKG


if __name__ == '__main__':
    try:
        print(build(verbose=True))
    except BuildError as ex:
        print(ex, file=sys.stderr)
        sys.exit(2)
