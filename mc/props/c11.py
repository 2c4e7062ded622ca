"""C11: unfolding preserves the weighted meaning."""
from mc.xform import *
from mc.syn import T

LEVEL = 'model_checking'
RULE = ('every subset of up to 3 rules of the ground and nonground alphabets, and of a further rule with other local variables and up to 2 nonground rules (inputs declared, or data inlined as facts) x every subgoal of every rule '
        '(and, for up to 2 rules, every second unfold after it) x data sets; meaning before and after compared by the reference evaluator; state = program reached')
ASSUMPTIONS = ['provenance polynomials truncated at degree 6, coefficients saturating at 7']
CASE_LIMIT = 120

DATA = ['acyclic', 'loop', 'cycle']
# ---- rules with further variables beside the unfolded subgoal: those that the unfolding of b(X), c(X,Y), d(X) may lose, next to those that stay
OTHER = RS('''
g += b(X) * n(Z) * n(W)
d(Z) += b(X) * n(Z)
d(Z) += c(X,Z) * b(Y)
g += c(X,Y) * c(Z,W)
g += d(X) * n(Z) * n(W)
h(Z,Z) += d(X) * e(Z,W)
h(Z,W) += b(f(X)) * e(Z,W)
g += b(X) * n(X) * n(Z)
'''.replace('\n', '.\n'))
BASE = dict(ground=GROUND, nonground=NONGROUND)
ALPHA = dict(BASE, other=[*NONGROUND, *OTHER])

def others(k):
    "one of the further rules with up to k of the nonground ones"
    n = len(NONGROUND)
    return [(*c, n + i) for i in range(len(OTHER)) for c in subsets(n, k)]

def groups(tier):
    k = 2 if tier == 'quick' else 3
    for a, A in BASE.items():
        yield 'once', [(a, c, 0) for c in subsets(len(A), 3)]
        yield 'twice', [(a, c, 0) for c in subsets(len(A), k)]
        yield 'facts', [(a, c, d) for c in subsets(len(A), 2) for d in ('loop', 'cycle')]
        yield 'defs', [(a, c, 0) for c in subsets(len(A), 2)]
    yield 'once', [('other', c, 0) for c in others(2)]
    if tier != 'quick': yield 'twice', [('other', c, 0) for c in others(2)]
    yield 'semirings', [(a, c, s) for a, A in BASE.items() for s in ('float', 'minplus') for c in subsets(len(A), 2)]
    yield 'x', [(a, c, 0) for a, A in BASE.items() for c in subsets(len(A), 2 if tier == 'quick' else 3)]

def check(group, case, st):
    a, c, d = case
    rules = ints([ALPHA[a][i] for i in c])
    if group == 'facts':
        datas = [[]]
        p = program(rules, inputs='', facts=prov_pairs(d))
    else:
        datas = [prov_pairs(x) for x in (DATA if group == 'once' else DATA[:2])]
        p = program(rules)
    ops = PROV
    if group == 'semirings':
        ops = OPS[d]
        datas = [[(t, v(d, i)) for i, (t, _) in enumerate(prov_pairs('acyclic'))]]
        p = program(rules, semiring=None if d == 'float' else ops.cls)
    M = Meaning(rules_of(p), datas, ops)
    st.outcome([sorted((show(k), repr(v)) for k, v in (C or {}).items()) for C in M.charts])
    if group == 'x':
        for x in ('p(X)', 'q(1,Y)', 'q(X,X)', 'b(X)', 'c(X,X)', 'd(1)', 's(f(X))'):
            f = x[0]
            # unfolding until none is left ends only when the item is not recursive
            if any(h[0] == f for h, _ in rules) and not recursive(rules, f):
                outs = {(g, n) for g, n in SIGS if g not in (f, 'n', 'e')}
                p = program(rules, outputs=' '.join(text_term((g, *[V(f'X{i}') for i in range(n)])) + '.' for g, n in sorted(outs)))
                u = p.unfold_x(x)
                # useless rules are dropped on the way: only the outputs are promised
                M.same(rules_of(u), datas, st, lambda: f'unfold_x {x} of {src(rules)} gives {list(map(str, u.rules))}', sigs=outs)
                pat = T(x)
                left = [b for h, bs in rules_of(u) for b in bs if isterm(b) and mgu(apart(b, '@'), pat, {}) is not None]
                require(not left, f'unfold_x {x} of {src(rules)} leaves', [show(b) for b in left], list(map(str, u.rules)))
                st.state((group, key(u)))
        return
    for i, r in enumerate(p.rules):
        for j in range(len(r.body)):
            if not p.safe_inline(r.body[j]): continue
            if group == 'defs':
                # an alternative, equivalent set of definitions: a renamed copy of the program itself
                u = p.unfold(i, j, defs=p.fresh())
            else: u = p.unfold(i, j)
            M.same(rules_of(u), datas, st, lambda: f'unfold({i},{j}) of {src(rules)} gives {list(map(str, u.rules))}')
            st.state((group, d, key(u)))
            if group == 'twice':
                for i2, r2 in enumerate(u.rules):
                    for j2 in range(len(r2.body)):
                        if not u.safe_inline(r2.body[j2]): continue
                        w = u.unfold(i2, j2)
                        if len(w) > 12: st.count('too_long'); continue
                        M.same(rules_of(w), datas[:1], st, lambda: f'unfold({i},{j}) then ({i2},{j2}) of {src(rules)} gives {list(map(str, w.rules))}')
                        st.state((group, key(w)))

def v(sr, i): return 0.3 + 0.05 * i if sr == 'float' else MinPlus(1.0 + i)

def key(p): return sorted(repr(rename(('r', h, *b))) for h, b in rules_of(p))

def recursive(rules, f):
    dep = {}
    for h, b in rules: dep.setdefault(h[0], set()).update(x[0] for x in b if isterm(x))
    seen = set(); todo = list(dep.get(f, ()))
    while todo:
        x = todo.pop()
        if x in seen: continue
        seen.add(x); todo += dep.get(x, ())
    return f in seen
