"""C20: the coarse dependency graph and everything read off it never miss a dependency."""
from itertools import product
from mc.xform import *
from mc.core import limited
from mc.syn import T
from mc.props.c11 import key
from mc.props.c17 import STRUCT, INS, FACTS

LEVEL = 'model_checking'
RULE = ('every subset of up to 2 rules (quick; 3 thorough, and of the overlap alphabet also in quick) of the ground, nonground, structured and overlapping-pattern alphabets x input declarations x outputs; '
        'the reference evaluator unrolls all rule firings (bounded number of rounds) on the data set of all admissible facts, which contains the firings of every smaller data set, and every ground firing is '
        'looked up in the nodes, edges, hyperedges, component order and cyclicity/expansiveness verdicts; the component programs and the input-independent part are re-evaluated; state = coarse graph')
ASSUMPTIONS = ['dependencies of positive programs are monotone in the data, so the largest data set covers the others', 'nonground firings are instantiated over 1, 2, f(1), z8, z9',
               'firings are unrolled for at most 6 rounds / 400 items (what is found is exact, deeper firings are not seen)']
CASE_LIMIT = 120

OVERLAP = RS('''
t(3,Y).
t(X,4) += n(X).
t(X,Y) += t(Y,X).
u(X,Y) += t(X,Y) * n(X).
r += u(1,Y).
r += u(Y,2) * p(Y).
t(1,X) += u(X,X).
p(f(X)) += n(X).
p(1) += p(f(2)).
p(f(f(X))) += p(X).
p(2) += r.
n2(X) += e(1,X).
n2(2).
r += n2(X) * n2(X).
q(X,Y,X,Y) += n(X) * n(Y).
r += q(f(A),B,f(C),D).
p(X) += q(X,1,X,Y).
p(Z) += p(X) * (Z is X + 1) * (Z < 4).
r += p(X) * (X < 2) * r.
r += v * v.
v += r.
v += n(1).
w(X) += w(X) * e(X,X).
w(1) += 1.
w(X) += n2(X).
'''.strip().replace('.\n', '.\n'))

AL = dict(ground=GROUND, nonground=NONGROUND, struct=STRUCT, overlap=OVERLAP)
VALS = [1, 2, 3, 4, ('f', 1), ('f', 2), ('z9',), ('z8',)]
OUTS = [None, 'r.', 'p(1).', 'X.', 'u(1,X). v.', 's(X). g.']

def groups(tier):
    k = 2 if tier == 'quick' else 3
    for a in AL:
        ins = ['gen'] if a in ('ground', 'nonground') else ['gen', 'fun', 'many']
        yield 'graph', [(a, c, i) for c in subsets(len(AL[a]), k) for i in ins]
    if tier == 'quick': yield 'graph', [('overlap', c, 'many') for c in subsets(len(OVERLAP), 3) if len(c) == 3]
    yield 'data', [(i, j) for i in range(len(DATADECL)) for j in range(len(DATADECL))]

# input declarations that meet the patterns of the program in awkward ways
DATADECL = ['n(3). e(1,X)', 'n(X)', 'n(f(X)). n(g(X))', 'e(X,X). n(1)', 'n(1). n(2). e(1,2)', 'e(X,f(X))', 'n(X). e(X,Y). v(X)']

def unroll(rules, pairs, rounds=6, cap=400):
    "all firings (head, subgoals, rule index) of the first rounds"
    ev = Evaluator([(h, tuple(b for b in body)) for h, body in rules], BOOL)
    chart = {rename(t): BOOL.one for t, _ in pairs}; seen = {}
    for _ in range(rounds):
        ix = Evaluator.index(chart); new = dict(chart)
        for i, (h, body) in enumerate(rules):
            r = ev.rules[i]
            try:
                for head, w, s in ev.fire(r, ix):
                    if size(head) > 12: continue
                    f = rename(('r', head, *[subst(g, s) for g in r[2]]))
                    seen[(i, f)] = None
                    new[rename(head)] = BOOL.one
            except Stuck: raise Unsupported('delayed builtin')
        if new.keys() == chart.keys() or len(new) > cap: break
        chart = new
    return chart, list(seen)

def instances(f):
    vs = tvars(f)
    if not vs: yield f; return
    if len(vs) > 3: vs_vals = [[1, 2, ('z9',)]] * len(vs)
    else: vs_vals = [VALS] * len(vs)
    for vals in product(*vs_vals): yield subst(f, dict(zip(vs, vals)))

BOOL = OPS['bool']; PROV = OPS['prov']
CSIGS = SIGS | {('t', 1), ('t', 2), ('u', 2), ('n2', 1), ('q', 4), ('v', 1), ('v', 0), ('w', 1)}

def fire_all(rules, data):
    chart, fs = unroll(rules, data)
    out = {}
    for i, f in fs:
        for g in instances(f): out[(i, g)] = None
        if len(out) > 20000: raise Unsupported('too many firings')
    return list(out)

def reach(edges):
    adj = {}
    for x, y in edges: adj.setdefault(x, set()).add(y)
    R = {}
    for x in adj:
        seen = set(); todo = list(adj[x])
        while todo:
            y = todo.pop()
            if y in seen: continue
            seen.add(y); todo.extend(adj.get(y, ()))
        R[x] = seen
    return R

def check(group, case, st):
    if group == 'data':
        i, j = case
        rules = ints(OVERLAP[:6] + STRUCT[:3]); ins = DATADECL[i] + ('. ' + DATADECL[j] if i != j else '') + '.'
        outs = [None, 'r.']
    else:
        a, c, i = case
        rules = ints([AL[a][j] for j in c]); ins = INS[i]; outs = OUTS
    hs = {h[0] for h, _ in rules}
    decl = [T(x.strip()) for x in ins.split('.') if x.strip()]
    facts = FACTS + [('n', ('g', 1)), ('v', 1), ('e', 1, ('f', 1)), ('n', 3), ('n', 4), ('e', 1, 4), ('e', 4, 1)]
    data = [(t, True) for t in facts if any(match(d, t) is not None for d in decl)]
    fs = fire_all(rules, data)
    datas = [prov_pairs('dense'), prov_pairs('acyclic')] if group == 'graph' and ins == INS['gen'] else [[(t, Prov.label(show(t))) for t, _ in data]]
    M = Meaning(rules, datas, need=False, sigs=CSIGS); M.datas = datas
    for o in outs:
        if o not in (None, 'X.') and not any(T(x.strip())[0] in hs for x in o.split('.') if x.strip()): continue
        p = program(rules, inputs=ins, outputs=o or 'X.', semiring=None)
        graph(p, rules, data, fs, ins, o or 'X.', M, st)

def graph(p, rules, data, fs, ins, outs_text, M, st):
    what = lambda: f'{src(rules)} inputs {ins} outputs {p.outputs}'
    cg = p._coarse_graph()
    nodes = [from_dyna(x) for x in cg.nodes]
    st.state((sorted(map(show, map(rename, nodes))), key(p)))
    for i, x in enumerate(nodes):
        for y in nodes[:i]: require(mgu(apart(x, '@a'), apart(y, '@b'), {}) is None, lambda: f'{what()}: nodes {show(x)} and {show(y)} overlap')
    raw = {show(rename(n)): x for n, x in zip(nodes, cg.nodes)}
    def root(g):
        ns = [n for n in nodes if match(n, g) is not None]
        require(len(ns) == 1, lambda: f'{what()}: item {show(g)} belongs to {len(ns)} nodes')
        r = cg.nodes.root(to_dyna(g, {}))
        require(variant(from_dyna(r), ns[0]), lambda: f'{what()}: root({show(g)}) is {r}')
        return show(rename(ns[0]))
    memo = {}
    def R(g):
        if g not in memo: memo[g] = root(g)
        return memo[g]
    name = lambda x: show(rename(from_dyna(x)))
    G = {(name(x), name(y)) for x, y in cg.g.edges}
    H = {(name(e.head), e.weight, tuple(map(name, e.body))) for e in cg.h.edges()}
    require({name(x) for x in p.coarse_nodes()} == set(raw), lambda: f'{what()}: coarse_nodes')
    for t, _ in data:
        require((R(t), None, ()) in H, lambda: f'{what()}: the input {show(t)} is not a source of the hypergraph')
    ground = set()
    for i, f in fs:
        h, *ys = f[1:]
        st.step()
        for y in ys:
            ground.add((h, y))
            require((R(h), R(y)) in G, lambda: f'{what()}: {show(h)} is derived from {show(y)} but the graph has no edge {R(h)} -> {R(y)}')
        require((R(h), i, tuple(R(y) for y in ys)) in H, lambda: f'{what()}: firing {show(h)} <- {[show(y) for y in ys]} of rule {i} has no hyperedge')
    # transitive claims
    D = reach(ground)
    if not cg.possibly_cyclic():
        bad = [x for x in D if x in D[x]]
        require(not bad, lambda: f'{what()}: not possibly cyclic, but {show(bad[0])} depends on itself')
    else: st.count('cyclic')
    if not cg.possibly_expansive():
        for i, f in fs:
            h, *ys = f[1:]
            n = sum(h == y or h in D.get(y, ()) for y in ys)
            require(n <= 1, lambda: f'{what()}: not possibly expansive, but {show(h)} expands into {n} copies of itself by rule {i}')
    else: st.count('expansive')
    # component order
    roots = [x for x in cg.g.nodes if p.is_output(x)]
    C = cg.g.condensation(roots=roots)
    pos = {name(x): k for k, xs in enumerate(C.topo) for x in xs}
    require(len(pos) == sum(len(xs) for xs in C.topo), 'a node in two components')
    for x, y in ground:
        if R(x) in pos:
            require(R(y) in pos and pos[R(y)] <= pos[R(x)], lambda: f'{what()}: {show(x)} (component {pos.get(R(x))}) depends on {show(y)} (component {pos.get(R(y))})')
            if x in D.get(y, ()): require(pos[R(x)] == pos[R(y)], lambda: f'{what()}: {show(x)} and {show(y)} depend on each other in different components')
    outs = [from_dyna(r.head) for r in p.outputs]
    for x in {f[1] for _, f in fs}:
        if any(isv(o) or match(o, x) is not None for o in outs): require(R(x) in pos, lambda: f'{what()}: output item {show(x)} has no component')
    if M is not None and any(C is not None for C in M.charts):
        components(program(rules, inputs=ins, outputs=outs_text), program(rules, inputs=ins, outputs=outs_text)._coarse_graph(), rules, M, what, st)
    st.trace()

def components(p, cg, rules, M, what, st):
    "the component programs, evaluated one after another, and the input-independent part reproduce the meaning of the program"
    comps = list(cg.scc_decomposition())
    outs = [from_dyna(r.head) for r in p.outputs]
    every = [from_dyna(x) for xs, _ in comps for x in xs]
    for C in M.charts:
        for x in (C or ()):
            if any(isv(o) or match(o, x) is not None for o in outs) and any(match(h, x) is not None for h, _ in rules):
                require(any(mgu(apart(e, '@d'), x, {}) is not None for e in every), lambda: f'{what()}: output item {show(x)} is in none of the component programs {list(map(show, every))}')
    for C, pairs in zip(M.charts, M.datas):
        if C is None: continue
        full = dict(C)
        for xs, q in comps:
            mine = [from_dyna(x) for x in xs]; dep = [from_dyna(r.head) for r in q.inputs]
            given = [(t, w) for t, w in full.items() if any(mgu(apart(d, '@d'), t, {}) is not None for d in dep)]
            own = [(t, w) for t, w in pairs if any(match(d, t) is not None for d in mine)]
            try: D = Evaluator(rules_of(q) + [(t, (w,)) for t, w in given + own], PROV, max_iter=250, max_items=300).solve()
            except Unsupported as e: raise Violation(f'{what()}: component {list(map(show, mine))} has no finite meaning ({e})')
            e = diff({k: v for k, v in full.items()}, D, PROV, UNI, only=mine)
            require(e is None, lambda: f'{what()}: component {list(map(show, mine))} = {list(map(str, q))} inputs {q.inputs}: {e}')
            st.step()
    I, D = cg.split_input_dependent()
    M.same(rules_of(I) + rules_of(D), M.datas, st, lambda: f'{what()}: split_input_dependent {list(map(str, I))} | {list(map(str, D))}')
    if not len(I): return
    alone = Meaning(rules_of(I), [[]], need=False, sigs=M.sigs)
    if alone.charts[0] is None: st.count('independent_part_unsupported'); return
    for pairs in M.datas:
        # nothing it derives depends on the data
        alone.same(rules_of(I), [pairs], st, lambda: f'{what()}: the input-independent part {list(map(str, I))} depends on the data', sigs={(h[0], len(h) - 1) for h, _ in rules_of(I)}, must=True)
    if all(not tvars(r[0]) for r in rules_of(I)):
        S = cg.solve_input_independent()
        M.same(rules_of(S), M.datas, st, lambda: f'{what()}: solve_input_independent {list(map(str, S))}')
