"""Single source of properties.jsonl and MANIFEST.json.   python tools/meta.py"""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

P = []
def prop(id, title, statement, over, text, why, files, mech, technique=None, note=None, level='model_checking', state=None, observe=None):
    assert len(title) <= 80, title
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if state: a['state'] = [dict(name=n, meaning=m) for n, m in state]
    if observe: a['observe_at'] = observe
    P.append((dict(id=id, title=title, statement=' '.join(statement.split()),
                   quantifier=dict(over=over, text=' '.join(text.split())),
                   why_tests_cant=' '.join(why.split()), anchors=a),
              technique, ' '.join((note or '').split()), level))

exec(open(os.path.join(ROOT, 'tools', 'props.py')).read())

HASH = 'python-hash-seed and module state fixed per run'
def main():
    with open(f'{ROOT}/properties.jsonl', 'w') as f:
        for d, *_ in P: f.write(json.dumps(d) + '\n')
    checks, na = [], []
    for d, tech, note, level in P:
        i = d['id']
        if os.path.exists(f'{ROOT}/mc/props/{i.lower()}.py'):
            checks.append(dict(property=i, quick_cmd=f'./check {i} --quick', thorough_cmd=f'./check {i} --thorough',
                               evidence_file=f'evidence/{i}.json', technique=tech, level=level, level_note=note))
        else:
            na.append(dict(property=i, reason='no check has been built for it (model checking could apply)'))
    m = dict(version=1, setup_cmd="/opt/venv/bin/python -c 'import sys; sys.path.insert(0, \"/repo\"); import dyna'", checks=checks, not_applicable=na,
             notes='Every check explores a bounded space exhaustively on the real code imported from /repo (no hooks, no build step needed: pure Python); DESIGN.md gives bounds and oracles.')
    json.dump(m, open(f'{ROOT}/MANIFEST.json', 'w'), indent=1)
    print(len(checks), 'checks', len(na), 'unclaimed')
main()
