"""C27: graph algorithms are exact on all small graphs."""
from itertools import product, permutations, combinations, combinations_with_replacement as cwr
from mc.core import require
from mc.terms import *

LEVEL = 'model_checking'
RULE = ('all directed graphs on up to 4 nodes (self-loops included; every set of roots up to 3 nodes): components, order, condensation, closure; '
        'path sums of all weighted graphs up to 3 nodes in four semirings; all hypergraphs with up to 3 hyperedges over 4 nodes; state = graph')
ASSUMPTIONS = []
CASE_LIMIT = 200
BLOCK = 64

def groups(tier):
    for n in (1, 2, 3): yield 'roots', [(n, b) for b in range(0, 1 << (n * n), BLOCK)]
    yield 'graphs', [(4, b) for b in range(0, 1 << 16, BLOCK)]
    yield 'paths', [(n, g, s) for n in (1, 2, 3) for g in range(1 << (n * n)) for s in ('prov', 'bool', 'minplus', 'float')]
    yield 'hyper', [(i,) for i in range(len(hedges()))]
    yield 'bags', [(i,) for i in range(5)]
    if tier != 'quick': yield 'wide', [(5, b) for b in range(0, 1 << 20, 1024)]

def adj(n, g): return {i: [j for j in range(n) if g >> (i * n + j) & 1] for i in range(n)}

def reach(a, n):
    "R[i] = nodes reachable by one or more edges"
    R = {i: set(a[i]) for i in range(n)}
    for k in range(n):
        for i in range(n):
            if k in R[i]: R[i] |= R[k]
    return R

def check(group, case, st):
    if group in ('roots', 'graphs', 'wide'):
        n, b = case
        size = BLOCK if group != 'wide' else 1024
        for g in range(b, min(b + size, 1 << (n * n))): graph(n, g, st, group)
    elif group == 'paths': paths(*case, st)
    elif group == 'hyper': hyper(case[0], st)
    else: bags(case[0], st)

def sccs_ok(comps, nodes, R, what):
    flat = [x for c in comps for x in c]
    require(sorted(flat) == sorted(nodes), what, 'components do not partition the reachable nodes', comps)
    where = {x: i for i, c in enumerate(comps) for x in c}
    for x in nodes:
        for y in nodes:
            same = x == y or (y in R[x] and x in R[y])
            require((where[x] == where[y]) == same, what, 'nodes', x, y, 'in one component?', comps)
            if y in R[x]: require(where[y] <= where[x], what, 'a component precedes one it depends on', comps)

def graph(n, g, st, group):
    from dyna.util.graphs import Graph, tarjan
    a = adj(n, g); R = reach(a, n)
    tag = f'graph {a}'
    rootsets = [tuple(range(n))]
    if group == 'roots': rootsets = [p for k in range(1, n + 1) for p in permutations(range(n), k)]
    for roots in rootsets:
        nodes = set(roots).union(*(R[r] for r in roots))
        comps = list(tarjan(a.__getitem__, roots))
        sccs_ok(comps, nodes, R, (tag, roots))
        require(all(isinstance(c, frozenset) for c in comps), 'harness')
        st.step()
    G = Graph((i, j) for i in a for j in a[i])
    for i in range(n): G.add(i)
    require(set(G) == set(range(n)) and sorted(G.edges) == [(i, j) for i in a for j in a[i]] and len(G) == n, tag, 'edges')
    for roots in ([None] if group != 'roots' else [None] + rootsets):
        nodes = set(range(n)) if roots is None else set(roots).union(*(R[r] for r in roots))
        c = G.condensation(roots=roots)
        sccs_ok(c.topo, nodes, R, (tag, 'condensation', roots))
        require(set(c.nodes) == set(c.topo), tag, 'nodes of the condensation', c.nodes)
        where = {x: X for X in c.topo for x in X}
        want = {(where[i], where[j]) for i in nodes for j in a[i] if where[i] != where[j]}
        require(set(c.edges) == want, tag, 'edges of the condensation', set(c.edges), want)
        require(all(x in c.topo[c.s[x]] for x in nodes), tag, 'component numbers')
    if n <= 3 or g % 4 == 3 or group == 'wide' and g % 64 == 1:
        for refl in (False, True):
            T = G.transitive_closure(reflexive=refl)
            want = {(i, j) for i in range(n) for j in range(n) if j in R[i] or (refl and i == j)}
            require(set(T.edges) == want and set(T) == set(range(n)), tag, 'closure', refl, set(T.edges) ^ want)
            st.step()
    require(sorted(G.edges) == [(i, j) for i in a for j in a[i]], tag, 'the graph itself changed')
    st.state((n, g)); st.trace(); st.outcome(sorted(sorted(c) for c in comps))

def paths(n, g, s, st):
    from mc.sr import OPS, Prov, MinPlus, Boolean
    from dyna.execute.linear import kleene
    import numpy as np
    ops = OPS[s]; a = adj(n, g)
    lab = dict(prov=lambda i, j: Prov.label(f'{i}{j}'), bool=lambda i, j: Boolean.one, minplus=lambda i, j: MinPlus(float(1 + (3 * i + 5 * j) % 7)),
               float=lambda i, j: 0.07 + 0.03 * ((3 * i + 5 * j) % 7))[s]
    A = [[lab(i, j) if j in a[i] else ops.zero for j in range(n)] for i in range(n)]
    one = [[ops.one if i == j else ops.zero for j in range(n)] for i in range(n)]
    B = one
    for _ in range(400):
        N = [[None] * n for _ in range(n)]
        for i in range(n):
            for j in range(n):
                v = one[i][j]
                for k in range(n): v = ops.plus(v, ops.times(A[i][k], B[k][j]))
                N[i][j] = v
        done = all(ops.close(N[i][j], B[i][j], 1e-13) for i in range(n) for j in range(n))
        B = N
        if done: break
    else: require(False, 'harness: no convergence')
    M = np.full((n, n), ops.zero, dtype=object)
    for i in range(n):
        for j in range(n): M[i, j] = A[i][j]
    cls = ops.cls
    for refl in (True, False):
        K = kleene(M, cls, reflexive=refl)
        for i in range(n):
            for j in range(n):
                w = B[i][j]
                if not refl:
                    w = ops.zero
                    for k in range(n): w = ops.plus(w, ops.times(A[i][k], B[k][j]))
                require(ops.close(K[i, j], w), s, a, 'paths', i, j, 'reflexive' if refl else '', K[i, j], 'want', w)
        st.step()
    require(all(M[i, j] == A[i][j] for i in range(n) for j in range(n)), 'the matrix was modified')
    st.state((n, g, s)); st.trace(); st.outcome((s, [[repr(x) for x in r] for r in B]))

_h = []
def hedges():
    if not _h:
        for h in range(4):
            for k in range(3): _h.extend((h, b) for b in cwr(range(4), k) if k < 2 or b[0] != b[1] or h == 0)
    return _h

def hyper(i, st):
    from dyna.util.graphs import Hypergraph
    E = hedges()
    for rest in [()] + [(j,) for j in range(i, len(E))] + [(j, k) for j in range(i, len(E)) for k in range(j + 1, len(E))]:
        es = [E[i]] + [E[j] for j in rest]
        H = Hypergraph()
        for n, (h, b) in enumerate(es): H.add_edge(h, n, *b)
        require(H.nodes == {x for h, b in es for x in (h, *b)}, 'nodes', es)
        require(sorted((e.head, e.body, e.weight) for e in H.edges()) == sorted((h, tuple(b), n) for n, (h, b) in enumerate(es)), 'edges', es)
        for inputs in ((), (1,), (1, 2)):
            C = set(inputs)
            while True:
                new = {h for h, b in es if set(b) <= C} - C
                if not new: break
                C |= new
            for outputs in ((0,), (0, 3)):
                T = H.reachability(set(inputs), set(outputs))
                U = set(outputs); W = set(outputs)
                while True:
                    new = {x for h, b in es if h in U and set(b) <= C for x in b} - U
                    if not new: break
                    U |= new
                while True:
                    new = {x for h, b in es if h in W for x in b if x in C} - W
                    if not new: break
                    W |= new
                require(U <= T, es, inputs, outputs, 'useful nodes missing', U - T)
                require(T <= W, es, inputs, outputs, 'useless nodes reported', T - W)
                st.step()
        st.state(es); st.trace(); st.outcome(sorted(U))

def bags(i, st):
    from dyna.util import FrozenBag
    xs = [p for k in range(i + 1) for p in product('abc', repeat=k)]
    for p in xs:
        for q in xs:
            require((FrozenBag(p) == FrozenBag(q)) == (sorted(p) == sorted(q)), 'bag', p, q)
            if sorted(p) == sorted(q): require(hash(FrozenBag(p)) == hash(FrozenBag(q)), 'bag hash', p, q)
            st.step()
        st.state(sorted(p))
    st.trace(); st.outcome(i)
