"""C02: subsumption, variance, canonical forms, renaming apart and generalisation agree with the instance sets."""
from itertools import product, permutations
from mc.core import require
from mc.terms import *

LEVEL = 'model_checking'
RULE = ('all ordered pairs (variables shared and renamed apart, plain and behind bound variables) of terms up to depth 2 over '
        '{X,Y,a,1; g/1,f/2}, all pairs of conjunctions of up to 3 literals; compared with reference matching; a case is non-trivial '
        'by its (covers, covered, variant) outcome and canonical form')
ASSUMPTIONS = ['the one-sided instance order is checked on renamed-apart terms except where variables are deliberately shared']

X, Y, Z = V('X'), V('Y'), V('Z')
FNS = [('g', 1), ('f', 2)]

def uni(tier='quick'):
    return enum_terms([X, Y, ('a',), 1], FNS, 2)

def firsts(ts, order=('X', 'Y', 'Z')):
    return [t for t in ts if tuple(tvars(t)) == order[:len(tvars(t))]]

def lits():
    return [('p', X), ('p', Y), ('p', ('a',)), ('q', X, Y), ('q', Y, X), ('q', X, X), ('q', Y, Z), ('p', ('g', X)), ('q', X, ('a',))]

def multis(n):
    from itertools import combinations_with_replacement as cwr
    L = lits()
    return [c for k in range(n + 1) for c in cwr(range(len(L)), k)]

def groups(tier):
    yield 'pairs', [(t,) for t in firsts(uni())]
    yield 'single', [(t,) for t in enum_terms([X, Y, Z, ('a',), 1, 's', ('b',)], FNS, 1) + uni()]
    yield 'conj', [(c,) for c in multis(3)]
    yield 'rules', [(c,) for c in multis(2)]
    yield 'gen2', [(t,) for t in [u for u in enum_terms([X, ('a',), ('b',), 1], FNS, 1) if isinstance(u, tuple)]]
    yield 'gen3', [(t,) for t in enum_terms([X, Y, ('a',), 1], FNS, 1)]
    yield 'order', [(i,) for i in range(len(order_alpha()))]


def bound_copy(t):
    "the same term, every proper subterm hidden behind a chain of bound variables"
    from dyna import Term, Var
    env = {}
    def go(t):
        if isv(t): return to_dyna(t, env)
        d = Term(t[0], *map(go, t[1:])) if isterm(t) else t
        v = Var('B'); v.value = d
        w = Var('C'); w.value = v
        return w
    return go(t), env

_u = {}
def universe():
    if 'u' not in _u: _u['u'] = [(t, rename(t)) for t in uni()]
    return _u['u']

def pair(s, t, st, cs=None, ct=None):
    st.state((s, t))
    from dyna import covers as dcovers, same, canonicalize, generalizer, fresh, unifies
    from dyna import Subst
    # renamed apart
    e1, e2 = {}, {}
    a = to_dyna(s, e1); b = to_dyna(t, e2)
    c1 = covers(s, t); c2 = covers(t, s); va = (cs or rename(s)) == (ct or rename(t))
    require(dcovers(a, b) == c1, 'covers', show(s), '>=', show(t), 'want', c1)
    require(dcovers(b, a) == c2, 'covers', show(t), '>=', show(s), 'want', c2)
    require(same(a, b) == va, 'same', show(s), show(t), 'want', va)
    ka, kb = canonicalize(a), canonicalize(b)
    require((ka == kb) == va, 'canonical forms equal iff variants', show(s), show(t))
    if va: require(hash(ka) == hash(kb), 'canonical hash', show(s), show(t))
    if c1:
        S = Subst().cover(a, b)
        require(from_dyna(S(a), {id(v): n for n, v in e2.items()}) == t, 'matcher does not reproduce the instance', show(s), show(t))
    # anti-unification of renamed-apart terms covers both, and keeps the common skeleton
    g = generalizer(a, b)
    G = from_dyna(g)
    require(covers(G, s) and covers(G, t), 'generalisation does not cover its inputs', show(s), show(t), 'gives', show(G))
    if va: require(variant(G, s), 'generalisation of variants is not the variant', show(s), show(t), show(G))
    st.outcome((c1, c2, va, show(rename(G)))); st.step(7); st.trace()


def single(t, st):
    st.state(t)
    from dyna import canonicalize, fresh, same, is_ground, term_vars, deref, snap, covers as dcovers
    e = {}
    a = to_dyna(t, e)
    vs = tvars(t)
    # canonicalisation: idempotent, a variant, order of first occurrence
    k = canonicalize(a)
    require(variant(from_dyna(k), t), 'canonical form is not a variant', show(t))
    require(canonicalize(k) == k, 'canonicalisation not idempotent', show(t))
    # renaming apart
    f = fresh(a)
    require(variant(from_dyna(f), t), 'renamed copy is not a variant', show(t))
    require(not any(x is y for x in term_vars(f) for y in e.values()), 'renamed copy shares variables', show(t))
    # variables / groundness
    require([id(x) for x in term_vars(a)] == [id(e[n]) for n in vs], 'variables', show(t))
    require(is_ground(a) == (not vs), 'groundness', show(t))
    # bound variables are transparent everywhere
    b, e2 = bound_copy(t)
    inv = {id(v): n for n, v in e2.items()}
    require(from_dyna(b, dict(inv)) == t, 'harness')
    require(from_dyna(deref(b), dict(inv)) == t, 'deref', show(t))
    require(canonicalize(b) == k, 'canonical form differs behind bound variables', show(t))
    require(is_ground(b) == (not vs), 'groundness behind bound variables', show(t))
    require([id(x) for x in term_vars(b)] == [id(e2[n]) for n in vs], 'variables behind bound variables', show(t))
    require(same(a, b) and dcovers(a, b) and dcovers(b, a), 'bound variables change subsumption', show(t))
    fb = fresh(b)
    require(variant(from_dyna(fb), t), 'renamed copy behind bound variables', show(t))
    require((deref(b) == b) and hash(deref(b)) == hash(b), 'equality/hash through bound variables', show(t))
    # joint renaming keeps sharing between parts
    p, q = fresh((a, e['X'] if 'X' in e else a))
    if 'X' in e:
        ids = {}
        tp = from_dyna(p, ids); tq = from_dyna(q, ids)
        require(('t', tp, tq) == rename(('t', tp, tq)) or variant(('t', tp, tq), ('t', t, V('X'))), 'joint renaming loses sharing', show(t))
        require(variant(('t', tp, tq), ('t', t, V('X'))), 'joint renaming loses sharing', show(t))
    st.outcome(show(rename(t))); st.step(10); st.trace()


def conj_ref(xs, ys, partial):
    "all injective literal maps with a matcher; ys' variables constant"
    res = []
    n = len(xs)
    if not partial and n != len(ys): return res
    for js in permutations(range(len(ys)), n):
        s = {}
        for x, j in zip(xs, js):
            s = match(x, ys[j], s)
            if s is None: break
        if s is not None: res.append((js, tuple(sorted((k, repr(v)) for k, v in s.items()))))
    return sorted(set(res))


def conj(c, st):
    from dyna import Product
    L = lits()
    xs = [L[i] for i in c]
    for d in multis(3):
        ys = [apart(L[i], 'r') for i in d]
        e1, e2 = {}, {}
        A = Product([to_dyna(x, e1) for x in xs]); B = Product([to_dyna(y, e2) for y in ys])
        names = lambda: {id(v): n for n, v in e2.items()}
        got = []
        for (s, al, rest) in A.covers(B):
            js = {i: j for j, i in al.items()}
            require(len(al) == len(xs) and sorted(js) == list(range(len(xs))), 'alignment is not one-to-one')
            require(sorted(rest) == sorted(set(range(len(ys))) - set(al)), 'left-over literals wrong', c, d)
            nm = names()
            got.append((tuple(js[i] for i in range(len(xs))), tuple(sorted((n, repr(from_dyna(s[v], nm))) for n, v in e1.items() if v in s))))
        want = conj_ref(xs, ys, True)
        require(sorted(set(got)) == want and len(got) == len(set(got)), 'sub-conjunction matches', [show(x) for x in xs], [show(y) for y in ys], 'got', got, 'want', want)
        if len(xs) != len(ys): continue
        n = 0
        for s in A.match_comm(B): n += 1
        require((n > 0) == bool(conj_ref(xs, ys, False)), 'conjunction matching modulo order', [show(x) for x in xs], [show(y) for y in ys])
        st.outcome((len(want), n)); st.step(2); st.trace()


HEADS = [('h',), ('h', X), ('h', X, Y), ('h', Y, X), ('h', Z)]

def rules(c, st):
    """rule variance = renaming + body permutation, and the rule hash respects it"""
    from dyna import Rule
    L = lits()
    for h in HEADS:
        r = (h, *[L[i] for i in c])
        R = Rule(*[to_dyna(x, e) for e in [{}] for x in r])
        for d in multis(2):
            for h2 in HEADS:
                s = (h2, *[L[i] for i in d])
                S = Rule(*[to_dyna(x, e) for e in [{}] for x in s])
                want = len(d) == len(c) and any(variant(('r', *r), ('r', h2, *[s[1:][i] for i in pi])) for pi in permutations(range(len(d))))
                require(R.same(S) == want, 'rule variance', [show(x) for x in r], [show(x) for x in s], 'want', want)
                if want: require(hash(R.signature) == hash(S.signature) and R.signature == S.signature, 'rule signature', r, s)
                st.outcome((want, len(c))); st.step(); st.trace()


def gen2(t, st):
    "wider argument lists: every pair of h/3 atoms with repeated constants and variables"
    from dyna import generalizer
    L = [X, Y, ('a',), ('b',), 1, ('g', X)]
    if 'h3' not in _u: _u['h3'] = [('h', *a) for a in product(L, repeat=2)]
    for u in _u['h3']:
        for w in L:
            s1, s2 = ('h', t, *u[1:]), ('h', w, *u[:0:-1])
            G = from_dyna(generalizer(to_dyna(s1, {}), to_dyna(s2, {})))
            require(covers(G, s1) and covers(G, s2), 'generalisation', show(s1), show(s2), 'gives', show(G))
            st.step(); st.outcome(show(rename(G))); st.trace()


def gen3(t, st):
    "generalising a sequence of terms keeps covering every one of them (chains of pairwise generalisations)"
    from dyna import generalizer, fresh, unifies
    U = enum_terms([X, ('a',), 1], FNS, 1)
    for u in U:
        a, b = to_dyna(t, {}), to_dyna(u, {})
        g = generalizer(a, b)
        for w in U:
            c = to_dyna(w, {})
            h = fresh(generalizer(fresh(g), c))
            H = from_dyna(h)
            require(covers(H, t) and covers(H, u) and covers(H, w), 'generalisation of three terms', show(t), show(u), show(w), show(H))
            st.outcome(show(rename(H))); st.step(); st.trace()


def order_alpha():
    return [('a',), ('b',), ('f', 1), ('f', 2), ('f', 1, 1), ('f', 1, 2), ('f', ('a',)), ('f', ('b',)), ('g', 1), ('f', 'x'), ('f', X), ('f', Y), X, Y,
            1, 2, 1.5, 'x', 'y', ('f', X, Y), ('f', 1, Y), ('f', ('g', 1), X), ('x',), None, -1, ('f', 1.5), ('f', None), 'f', ('f',)]

def order(i, st):
    "the sorting order: irreflexive, asymmetric, transitive, total up to equality; sorting is independent of the input order"
    A = order_alpha()
    env = {}
    D = [to_dyna(t, env) for t in A]
    def less(x, y):
        from dyna import Term, Var
        from dyna.term import lt
        return lt(x, y)
    a = D[i]
    require(not less(a, a), 'irreflexive', show(A[i]))
    for j, b in enumerate(D):
        ab, ba = less(a, b), less(b, a)
        require(not (ab and ba), 'asymmetric', show(A[i]), show(A[j]))
        require(ab or ba or i == j, 'total', show(A[i]), show(A[j]))
        st.step()
        for k, c in enumerate(D):
            if ab and less(b, c): require(less(a, c), 'transitive', show(A[i]), show(A[j]), show(A[k]))
            st.step()
    T = [t for t in range(len(A)) if isinstance(A[t], tuple)]
    rank = {t: sum(less(D[u], D[t]) for u in T) for t in T}
    for j in T:
        for k in T:
            got = [id(x) for x in sorted([D[i], D[j], D[k]])] if i in T else None
            if got: require(got == [id(D[x]) for x in sorted([i, j, k], key=rank.get)], 'sorting', show(A[i]), show(A[j]), show(A[k]))
    st.trace(); st.outcome(sum(less(D[u], a) for u in range(len(D))))


def check(group, case, st):
    if group == 'pairs':
        cs = rename(case[0])
        for t, ct in universe(): pair(case[0], t, st, cs, ct)
    elif group == 'single': single(case[0], st)
    elif group == 'conj': conj(case[0], st)
    elif group == 'rules': rules(case[0], st)
    elif group == 'gen2': gen2(case[0], st)
    elif group == 'gen3': gen3(case[0], st)
    elif group == 'order': order(case[0], st)
