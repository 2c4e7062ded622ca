"""Development tool: turn bug specifications into /verif/seeded/<id>/ after confirming them in a scratch copy.

  python tools/seed.py SPEC.py [ids...]     SPEC.py calls seed(id, property, file, old, new, needs, breaks, demo)
"""
import sys, os, subprocess, json, shutil, textwrap
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDS = {}
def seed(id, prop, edits, needs, breaks, demo): SEEDS[id] = (prop, edits, needs, breaks, textwrap.dedent(demo).strip() + '\n')

def sh(cmd, cwd, env=None, timeout=900):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', CI='true', MPLBACKEND='Agg', LANG='C.UTF-8', **(env or {}))
    try: r = subprocess.run(cmd, cwd=cwd, env=e, shell=True, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired: return 124, 'timeout'
    return r.returncode, r.stdout + r.stderr

STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])

def one(id):
    prop, edits, needs, breaks, demo = SEEDS[id]
    d = f'/tmp/seed_{id}'; shutil.rmtree(d, ignore_errors=True)
    subprocess.run(['cp', '-a', '/repo', d], check=True)
    out = [f'== {id} [{prop}]']
    try:
        # the demonstration on the unchanged tree
        s = f'/tmp/seedx_{id}'; shutil.rmtree(s, ignore_errors=True); os.makedirs(s)
        open(s + '/demo.py', 'w').write(demo)
        open(s + '/demo.sh', 'w').write('#!/bin/bash\n# run with cwd = the repository\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg PYTHONWARNINGS=ignore PYTHONPATH="$PWD"\nexec timeout 250 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(s + '/demo.sh', 0o755)
        rc0, o0 = sh(f'bash {s}/demo.sh', d)
        for f, old, new in edits:
            p = f'{d}/{f}'; t = open(p).read()
            if t.count(old) != 1: return '\n'.join(out + [f'   EDIT does not apply: {f} ({t.count(old)} matches)'])
            open(p, 'w').write(t.replace(old, new))
        rc, diff = sh('git diff', d)
        rc1, o1 = sh(f'bash {s}/demo.sh', d)
        out.append(f'   demo clean {rc0} patched {rc1}: {o1.strip().splitlines()[-1:]}')
        ok = rc0 == 0 and rc1 != 0
        if rc0: out.append(o0[-600:])
        if ok and '--notest' not in sys.argv:
            rc, o = sh(f'/opt/venv/bin/python -m compileall -q -f --invalidation-mode checked-hash dyna && /opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=120 --continue-on-collection-errors --tb=no -o junit_family=xunit2 --junitxml=/tmp/seed_{id}.xml; python3 /opt/vp/results.py /tmp/seed_{id}.json "junit:/tmp/seed_{id}.xml"', d, {'PYTHONPATH': d})
            bad = STABLE - set(json.load(open(f'/tmp/seed_{id}.json'))['passed'])
            out.append(f'   tests: {"all stable pass" if not bad else "BROKEN " + str(sorted(bad)[:4])}')
            ok = ok and not bad
        if ok and '--notest' in sys.argv: pass
        elif ok:
            t = f'{ROOT}/seeded/{id}'; os.makedirs(t, exist_ok=True)
            open(t + '/patch.diff', 'w').write(diff)
            for f in ('demo.sh', 'demo.py'): shutil.copy(f'{s}/{f}', f'{t}/{f}')
            json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(t + '/meta.json', 'w'), indent=1)
            props = [prop] + [a[2:] for a in sys.argv if a.startswith('+C')]
            for q in props:
                rc, o = sh(f'{ROOT}/check {q} --quick', ROOT, {'MC_REPO': d, 'MC_PROCS': '8', 'MC_MAXVIOL': '1', 'MC_EVID': f'/tmp/seed_{id}_ev'})
                lines = o.strip().splitlines()
                out.append(f'   {q}: {"CAUGHT" if rc == 1 and "VIOLATION" in o else "MISSED rc=%d" % rc}  {[l.strip()[:260] for l in lines if not l.startswith("VIOLATION")][1:4]}')
        else: out.append('   NOT KEPT')
    finally:
        shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree(f'/tmp/seedx_{id}', ignore_errors=True)
    return '\n'.join(out)

if __name__ == '__main__':
    exec(open(sys.argv[1]).read())
    ids = [a for a in sys.argv[2:] if a in SEEDS] or list(SEEDS)
    with ThreadPoolExecutor(2) as ex:
        for r in ex.map(one, ids): print(r, flush=True)
