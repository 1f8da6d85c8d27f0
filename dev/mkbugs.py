"""Regenerates /verif/seeded/ from the definitions in bugs.py, against /repo's HEAD."""
import difflib, json, os, shutil, subprocess, sys
sys.path.insert(0, os.path.dirname(__file__))
OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'seeded')
BUGS = []
OWN = set(subprocess.run(['git', '-C', '/repo', 'log', '--format=%H', '7d33be0..HEAD'], capture_output=True, text=True).stdout.split())


def bug(id, prop, edits, demo, needs, breaks):
    BUGS.append((id, prop, edits, demo, needs, breaks))


def head(path):
    return subprocess.run(['git', '-C', '/repo', 'show', f'HEAD:{path}'], capture_output=True, text=True, check=True).stdout


def main():
    only = sys.argv[1:]
    exec(compile(open(os.path.join(os.path.dirname(__file__), 'bugs.py')).read(), 'bugs.py', 'exec'), {'bug': bug})
    if not only:
        for d in os.listdir(OUT):
            if d not in [b[0] for b in BUGS]:
                shutil.rmtree(os.path.join(OUT, d))
    for id, prop, edits, demo, needs, breaks in BUGS:
        if only and id not in only:
            continue
        files = {}
        for path, old, new in edits:
            text = files.get(path) or head(path)
            assert text.count(old) == 1, (id, path, text.count(old), old)
            files[path] = text.replace(old, new)
        for path, old, new in edits:  # only lines of the original repository may change
            text = head(path)
            if text.count(old) == 1:
                a = text[: text.index(old)].count('\n') + 1
                sm = difflib.SequenceMatcher(None, old.splitlines(), new.splitlines())
                for op, i1, i2, _, _ in sm.get_opcodes():
                    if op in ('replace', 'delete'):
                        bl = subprocess.run(['git', '-C', '/repo', 'blame', '-s', '-l', f'-L{a + i1},{a + i2 - 1}', 'HEAD', '--', path], capture_output=True, text=True).stdout
                        for line in bl.splitlines():
                            if line.split()[0] in OWN:
                                print(id, 'changes a line of our own:', line[:120])
        patch = ''
        for path, text in files.items():
            d = list(difflib.unified_diff(head(path).splitlines(True), text.splitlines(True), f'a/{path}', f'b/{path}'))
            patch += f'diff --git a/{path} b/{path}\n' + ''.join(d)
        d = os.path.join(OUT, id)
        os.makedirs(d, exist_ok=True)
        open(f'{d}/patch.diff', 'w').write(patch)
        open(f'{d}/demo.py', 'w').write(demo.strip() + '\n')
        open(f'{d}/demo.sh', 'w').write('#!/bin/bash\nexec /opt/vp/venv/bin/python "$(dirname "$0")/demo.py"\n')
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(f'{d}/meta.json', 'w'), indent=1)
    print(len(BUGS), 'bugs')


main()
