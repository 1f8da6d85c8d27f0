"""Rewrites the `fixed` part of known_findings.json from the fix: commits of /repo; the properties they broke are listed here."""
import json
import os
import subprocess

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# in the order of the commits
BROKE = '''C01 C01 C01 C03 C03 C03 C02 C01 C02 C01 C03 C03 C04 C04 C11 C13 C04 C04 C08 C10 C10 C08 C08 C09 C09 C09 C09 C08 C08 C26 C11 C11 C12 C14
C12 C12 C14 C13 C26 C16 C16 C22 C22 C22 C22 C22 C19'''.split()
BROKE += open(os.path.join(HERE, 'dev', 'broke_more.txt')).read().split() if os.path.exists(os.path.join(HERE, 'dev', 'broke_more.txt')) else []

log = subprocess.run(['git', '-C', os.environ.get('PBT_REPO', '/repo'), 'log', '--reverse', '--format=%h %s', '7d33be0..HEAD'], capture_output=True, text=True).stdout.splitlines()
fixes = [x for x in log if ' fix: ' in x]
assert len(fixes) == len(BROKE), (len(fixes), len(BROKE))
path = os.path.join(HERE, 'known_findings.json')
d = json.load(open(path))
d['fixed'] = [f'fixed: property={p} {x.split(" ", 1)[0]} {x.split(" fix: ", 1)[1]}' for p, x in zip(BROKE, fixes)]
json.dump(d, open(path, 'w'), indent=1)
print(len(fixes), 'fixed,', len(d['findings']), 'open')
