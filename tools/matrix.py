"""Run checks against the kept seeded bugs.  python tools/matrix.py [--all] [--checks C01,C02] [ids...]
Without --all only the bug's own property's check is run."""
import sys, os, subprocess, json, shutil
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = [a for a in sys.argv[1:] if not a.startswith('--')]
checks = next((a.split('=')[1].split(',') for a in sys.argv if a.startswith('--checks=')), None)
allc = [c['property'] if 'property' in c else c['id'] for c in json.load(open(f'{ROOT}/MANIFEST.json'))['checks']]
for id in sorted(args or os.listdir(f'{ROOT}/seeded')):
    d = f'/tmp/mat_{id}'; shutil.rmtree(d, ignore_errors=True)
    subprocess.run(['cp', '-a', '/repo', d], check=True)
    try:
        if subprocess.run(['git', 'apply', f'{ROOT}/seeded/{id}/patch.diff'], cwd=d).returncode: print(id, 'DOES NOT APPLY'); continue
        own = json.load(open(f'{ROOT}/seeded/{id}/meta.json'))['property']
        row = []
        for c in (checks or (allc if '--all' in sys.argv else [own])):
            if not os.path.exists(f'{ROOT}/mc/props/{c.lower()}.py'): row.append(f'{c}:none'); continue
            try: r = subprocess.run([f'{ROOT}/check', c, '--quick'], cwd=ROOT, capture_output=True, text=True, timeout=900, env=dict(os.environ, MC_REPO=d, MC_MAXVIOL='1', MC_EVID=f'/tmp/mat_ev'))
            except subprocess.TimeoutExpired: row.append(f'{c}:timeout'); continue
            row.append(f'{c}:{"CAUGHT" if r.returncode == 1 and f"VIOLATION property={c}" in r.stdout else "-" if r.returncode == 0 else f"rc{r.returncode}"}')
        print(id, f'[{own}]', ' '.join(x for x in row if not x.endswith(':-') or '--all' not in sys.argv), flush=True)
    finally: shutil.rmtree(d, ignore_errors=True)
