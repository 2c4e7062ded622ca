"""Shared machinery of the transformation checks: the meaning of a program before
and after, computed by the reference evaluator, must agree on the original items."""
from mc.core import Violation, Unsupported, require
from mc.terms import *
from mc.ref import *
from mc.sr import *
from mc.dynaio import *
from mc.corpus import *

SIGS = {('b', 1), ('c', 2), ('d', 1), ('g', 0), ('h', 2), ('n', 1), ('e', 2), ('p', 1), ('q', 2), ('r', 0), ('s', 1)}
INPUTS = 'n(X). e(X,Y).'
UNI = [1, 2, ('f', 1), ('z9',), ('z8',)]

def prov_pairs(name): return [(t, Prov.label(show(t))) for t in DATASETS[name]]

def ints(rules): return [(h, tuple(2 if isinstance(b, float) else b for b in body)) for h, body in rules]

def program(rules, inputs=INPUTS, outputs=None, semiring=Prov, facts=()):
    from dyna import Program, Rule
    p = Program(text(rules), inputs=inputs, outputs=outputs)
    if semiring is not None: p = p.lift_semiring(semiring)
    if facts: p = p + [Rule(to_dyna(t, {}), w) for t, w in facts]
    return p.reset_transform_history()

class Meaning:
    "charts of one rule set on each of several data sets (None: outside the domain there)"
    def __init__(self, rules, datas, ops=PROV, max_items=150, sigs=SIGS, need=True):
        self.ops = ops; self.charts = []; self.sigs = sigs
        for pairs in datas:
            try: c = restrict(Evaluator(list(rules) + [(t, (w,)) for t, w in pairs], ops, max_iter=250, max_items=max_items).solve(), sigs)
            except Unsupported: c = None
            self.charts.append(c)
        if need and all(c is None for c in self.charts): raise Unsupported('no finite meaning')

    def same(self, rules, datas, st, what, universe=UNI, sigs=None, max_items=600, must=False, aux=False, only=None):
        """compare with another rule set; returns number of comparisons"""
        sigs = sigs or self.sigs; n = 0
        for A, pairs in zip(self.charts, datas):
            if A is None: continue
            try:
                if aux: rules = inline(rules, sigs)
                B = restrict(Evaluator(list(rules) + [(t, (w,)) for t, w in pairs], self.ops, max_iter=250, max_items=max_items).solve(), sigs)
            except Unsupported as e:
                if must: raise Violation(f'{what()}: the transformed program has no finite meaning ({e})')
                st.count('after_unsupported'); continue
            e = diff(restrict(A, sigs) if sigs is not self.sigs else A, B, self.ops, universe, only)
            if e is not None: raise Violation(f'{what()}: {e}')
            n += 1; st.step()
        st.trace()
        return n

def inline(rules, sigs):
    "replace each auxiliary item defined by one nonrecursive rule with builtins by its definition (so that the builtins run once their arguments are known)"
    rules = list(rules)
    for rnd in range(6):
        defs = {}
        for h, b in rules: defs.setdefault((h[0], len(h) - 1), []).append((h, b))
        todo = {s for s, ds in defs.items() if s not in sigs and len(ds) == 1 and set(tvars(ds[0][0])) <= set(tvars(('r', *ds[0][1])))
                and any(isterm(x) and x[0] in BUILTIN for x in ds[0][1]) and not any(isterm(x) and (x[0], len(x) - 1) == s for x in ds[0][1])}
        if not todo: break
        s = min(todo)
        [(dh, db)] = defs[s]
        new = []
        for n, (h, b) in enumerate(rules):
            if (h[0], len(h) - 1) == s: continue
            k = 0; dead = False
            while True:
                j = next((j for j, x in enumerate(b) if isterm(x) and (x[0], len(x) - 1) == s), None)
                if j is None: break
                d = apart(('r', dh, *db), f'@i{rnd}_{n}_{k}'); k += 1
                m = mgu(d[1], b[j], {})
                if m is None: dead = True; break
                h, b = subst(h, m), tuple(subst(x, m) for x in (*b[:j], *d[2:], *b[j+1:]))
            if not dead: new.append((h, b))
        rules = new
    return rules

def src(rules): return ' '.join(text_rule(r) for r in rules)
