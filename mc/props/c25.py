"""C25: program comparison is invariant under renaming, order and names, and exact."""
from itertools import product, permutations, combinations_with_replacement as cwr
from collections import Counter
from mc.core import require
from mc.syn import RS
from mc.terms import *
from mc.dynaio import *

LEVEL = 'model_checking'
RULE = ('all pairs of rules with one of 5 heads and up to 2 (thorough 3) subgoals out of 11 literals (variables, constants, structure, weights, bare variables), every reordering and renaming of each with up to 3; all pairs of programs of up to 3 '
        'rules (with repetition) out of an alphabet of near-variants, in every order; equality, hash, alignment and distance against the definition by canonical forms over all permutations')
ASSUMPTIONS = []
CASE_LIMIT = 300

X, Y, Z = V('X'), V('Y'), V('Z')
LITS = [('p', X), ('p', Y), ('p', 1), ('q', X, Y), ('q', Y, X), ('q', X, X), ('q', Y, Z), ('p', ('f', X)), X, 2, ('p', ('q', X, Y))]
HEADS = [('h',), ('h', X), ('h', Y), ('h', X, Y), X]

def rules(n):
    return [(h, tuple(LITS[i] for i in c)) for h in HEADS for k in range(n + 1) for c in cwr(range(len(LITS)), k)]

def canon(r):
    h, b = r
    return min(repr(rename(('r', h, *ys))) for ys in set(permutations(b)))

PAL = RS('''
h(X) += p(X) * q(X,Y).
h(Y) += q(Y,X) * p(Y).
h(X) += p(X) * q(Y,X).
h(X) += p(X) * q(X,X).
h(X) += p(Y) * q(X,Y).
h(X) += p(X) * q(Y,Z).
h(1) += 2.
h(1) += 3.
h(1).
h(X) += 2.
h(Y) += 2.
h(X) += q(X,Y) * q(Y,X).
h(A) += q(B,A) * q(A,B).
h(A) += q(B,A) * q(B,A).
'''.strip())

def groups(tier):
    R = rules(2 if tier == 'quick' else 3)
    yield 'rules', [(i, len(R)) for i in range(len(R))]
    R3 = rules(3)
    yield 'variants', [(i,) for i in range(0, len(R3))]
    P = [c for k in range(4) for c in cwr(range(len(PAL)), k)]
    yield 'programs', [(c,) for c in P]
    yield 'metric', [(i,) for i in range(len(charts()))]

_D = {}
def cached(n):
    if n not in _D:
        from dyna import Rule
        R = {len(rules(2)): 2, len(rules(3)): 3}[n]
        L = rules(R)
        D = [mk(r) for r in L]
        _D[n] = (L, D, [canon(r) for r in L])
    return _D[n]

def mk(r):
    from dyna import Rule
    env = {}
    return Rule(to_dyna(r[0], env), *[to_dyna(b, env) for b in r[1]])

def ren(t, m):
    if isv(t): return m.get(t[1], t)
    return (t[0], *[ren(a, m) for a in t[1:]]) if isterm(t) else t

def rn(r, m): return (ren(r[0], m), tuple(ren(b, m) for b in r[1]))

def charts():
    keys = [('h', 1), ('h', 2), ('h', X)]
    out = []
    for ws in product([None, 0.5, 0.75, 2.0, float('inf')], repeat=3):
        out.append([(k, (w,)) for k, w in zip(keys, ws) if w is not None])
    return out

def check(group, case, st):
    from dyna import Program, Rule
    if group == 'rules':
        i, n = case
        L, D, C = cached(n)
        for j in range(n):
            got = D[i].same(D[j]); want = C[i] == C[j]
            require(got == want, f'{D[i]} same {D[j]}: {got}, should be {want}')
            if want: require(hash(D[i].signature) == hash(D[j].signature), f'{D[i]} and {D[j]} differ in signature')
            st.step()
        st.trace(); st.state(('rule', C[i])); st.outcome(C[i])
    elif group == 'variants':
        L, D, C = cached(len(rules(3)))
        r = L[case[0]]
        p = Program([mk(r)])
        for m in ({'X': Y, 'Y': X, 'Z': Z}, {'X': V('A'), 'Y': V('B'), 'Z': V('C')}, {'X': V('Z'), 'Y': V('X'), 'Z': V('Y')}):
            s = rn(r, m)
            for b in set(permutations(s[1])):
                q = Program([mk((s[0], b))])
                require(p == q and q == p and not (p != q), f'{p} and {q} compare unequal')
                require(hash(p) == hash(q), f'{p} and {q} are equal and have different hashes')
                require(p.signature == q.signature, 'signature')
                st.step()
        st.trace(); st.state(('var', C[case[0]]))
    elif group == 'programs':
        [c] = case
        RA = [mk(r) for r in PAL]; RB = [mk(r) for r in PAL]; CN = [canon(r) for r in PAL]
        p = Program([RA[i] for i in c])
        cp = Counter(CN[i] for i in c)
        P = [d for k in range(4) for d in cwr(range(len(PAL)), k)]
        for d in P:
            if abs(len(d) - len(c)) > 1: continue
            orders = [d] if abs(len(d) - len(c)) > 0 or not sum((cp & Counter(CN[i] for i in d)).values()) else sorted(set(permutations(d)))
            cd = Counter(CN[i] for i in d)
            for o in orders:
                q = Program([RB[i] for i in o])
                want = cp == cd
                what = lambda: f'{[text_rule(PAL[i]) for i in c]} and {[text_rule(PAL[i]) for i in o]}'
                require((p == q) == want and (q == p) == want and (p != q) != want, what(), f'equality should be {want}')
                if want: require(hash(p) == hash(q), what(), 'equal, but different hashes')
                a = p.align(q)
                left = [i for i, _ in a if i is not None]; right = [j for _, j in a if j is not None]
                require(sorted(left) == list(range(len(c))) and sorted(right) == list(range(len(o))), what(), 'the alignment is not a partition', a)
                require(all(CN[c[i]] == CN[o[j]] for i, j in a if i is not None and j is not None), what(), 'unequal rules aligned', a)
                require(sum(i is not None and j is not None for i, j in a) == sum((cp & cd).values()), what(), 'the alignment is not maximal', a)
                st.step()
        st.trace(); st.state(('prog', sorted(cp.items()))); st.outcome(sorted(cp.items()))
    else:
        A = charts()[case[0]]
        p = Program([mk(r) for r in A])
        for B in charts():
            for extra in (None, 'same', 'other'):
                x = [] if extra is None else [mk(PAL[0])]
                y = [] if extra is None else [mk(PAL[1] if extra == 'same' else PAL[2])]
                pp = Program([mk(r) for r in A] + x); q = Program(y + [mk(rn(r, {'X': Z})) for r in reversed(B)])
                a, b = dict(A), dict(B)
                if a.keys() != b.keys() or extra == 'other': want = float('inf')
                else: want = max([0 if a[k] == b[k] else abs(a[k][0] - b[k][0]) for k in a], default=0)
                got = pp.metric(q)
                require(got == want or abs(got - want) < 1e-12, f'distance of {pp} and {q}: {got}, should be {want}')
                try: pp.assert_equal(q); ok = True
                except AssertionError: ok = False
                require(ok == (want <= 1e-5), f'assert_equal of {pp} and {q}: {ok}')
                st.step()
        st.trace(); st.state(('metric', case[0]))
