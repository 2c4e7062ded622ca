"""collect the sizes of the explored spaces from the outputs of the checks:  python tools/costs.py FILES...  -> doc/costs.json"""
import re, sys, json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
f = f'{ROOT}/doc/costs.json'
D = json.load(open(f)) if os.path.exists(f) else {}
for x in sys.argv[1:]:
    for m in re.finditer(r'^(C\d\d) \[quick\]: cases=(\d+) states=(\d+) transitions=(\d+) traces=(\d+) .*wall=([\d.]+)s', re.sub(r'\x1b\[[0-9;]*m', '', open(x, errors='replace').read()), re.M):
        D[m[1]] = [int(m[i]) for i in (2, 3, 4, 5)] + [float(m[6])]
json.dump(dict(sorted(D.items())), open(f, 'w'), indent=0)
