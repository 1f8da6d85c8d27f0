"""Source of properties.jsonl and MANIFEST.json: python3 dev/properties.py rewrites both."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mechanism, technique, note, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mechanism=mechanism, technique=technique,
                  note=note, na=na))


exec(open(os.path.join(HERE, 'dev', 'property_list.py')).read())

if __name__ == '__main__':
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps({
                'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['text']},
                'why_tests_cant': p['why'],
                'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mechanism']]}}, ensure_ascii=False) + '\n')
    checks = [{'property': p['id'], 'quick_cmd': f'python3 pbt/run.py {p["id"]} --tier quick', 'thorough_cmd': f'python3 pbt/run.py {p["id"]} --tier thorough',
               'technique': p['technique'], 'level': 'exploration', 'level_note': p['note']} for p in P if not p['na']]
    m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': [{'property': p['id'], 'reason': p['na']} for p in P if p['na']], 'notes': ''}
    json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
    print(len(checks), 'checks')
    import glob
    read = lambda n: open(os.path.join(HERE, 'dev', n)).read()
    rows = ['## Planted bugs and the checks that catch them', '', '| bug | caught by | what breaks | what it needs |', '|---|---|---|---|']
    for m in sorted(glob.glob(os.path.join(HERE, 'seeded', '*', 'meta.json'))):
        d = json.load(open(m))
        rows.append(f"| {os.path.basename(os.path.dirname(m))} | {d['property']} | {d['what_it_breaks']} | {d['needs']} |")
    rows += ['', 'Each was confirmed with `dev/trybug.sh`: the suite passes with it, its demonstration fails with it and passes without, and the quick tier of the check named reports it.', '', '']
    open(os.path.join(HERE, 'DESIGN.md'), 'w').write(read('design_head.md') + read('design_props.md') + '\n' + '\n'.join(rows) + read('design_tail.md'))
    assert all(len(p['title']) <= 80 for p in P)
