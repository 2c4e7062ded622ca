"""C03: subsumption-reduced collections under every sequence of additions."""
from itertools import product
from mc.core import require
from mc.syn import T
from mc.terms import *

LEVEL = 'model_checking'
RULE = ('every sequence (with repetition) of up to 4 (thorough 5) additions from an alphabet of overlapping terms, for each kind of collection; '
        'after each addition the collection is compared with its specification, and queried with every term of a second alphabet, with variables of its own and with variables shared with the stored elements; state = contents (up to variance, in order)')
ASSUMPTIONS = []
CASE_LIMIT = 60

ALPHA = [T(s) for s in ['f(X,Y)', 'f(X,X)', 'f(X,2)', 'f(1,Y)', 'f(3,3)', 'f(g(X),Y)', 'f(X,g(X))', 'f(g(1),g(Y))', 'f(1,2)', 'h(X)', 'h(g(X))']]
SMALL = [0, 1, 2, 3, 4, 6, 7, 9]
PROBES = ALPHA + [T(s) for s in ['f(2,2)', 'f(3,2)', 'f(g(2),g(2))', 'k(1)', 'f(g(g(1)),1)', 'h(1)', 'f(X,3)']]
CON = [T(s) for s in ['c(p(X),q(X))', 'c(p(X),q(Y))', 'c(p(1),q(Y))', 'c(p(X),q(1))', 'c(p(1),q(1))', 'c(p(g(Y)),q(Y))', 'c(q(X),p(X))']]

def unif(a, b): return mgu(apart(a, '#1'), apart(b, '#2'), {}) is not None

def groups(tier):
    n = 4 if tier == 'quick' else 5
    for kind in ('general', 'nodups', 'disjoint'):
        yield kind, [(a, b) for a in range(len(ALPHA)) for b in range(len(ALPHA))]
    yield 'rules', [(a, b) for a in range(len(CON)) for b in range(len(CON))]

def depth():
    import os
    return 2 if os.environ.get('VERIF_TIER', 'quick') == 'quick' else 3

def fresh_term(t): return to_dyna(t, {})

def contents(c): return [from_dyna(x, {}) for x in c]

def check(group, case, st):
    alpha = CON if group == 'rules' else ALPHA
    tail = range(len(alpha))
    import os
    n = 2 if os.environ.get('MC_TIER') != 'thorough' else 3
    for k in range(0, n + 1):
        for rest in product(tail, repeat=k):
            if k and group != 'rules' and n == 3 and any(i not in SMALL for i in rest): continue
            seq = [alpha[i] for i in case + rest] if isinstance(case, tuple) else [alpha[i] for i in list(case) + list(rest)]
            if group == 'rules': rules(seq, st, k)
            else: go(group, seq, st, k)

def go(kind, seq, st, k):
    from dyna import covers as dcovers, same as dsame, unifies
    from dyna.term import MostGeneralSet, NoDupsSet, DisjointEstimate
    C = dict(general=lambda: MostGeneralSet([], dcovers), nodups=lambda: NoDupsSet([], dsame), disjoint=lambda: DisjointEstimate())[kind]
    make = C; c = C()
    added = []
    for i, t in enumerate(seq):
        ret = c.add(to_dyna(t, {}))
        before = added; added = added + [t]
        if i < len(seq) - 1: continue      # the prefixes are cases of their own
        xs = contents(c)
        S = [show(x) for x in xs]
        if kind == 'general':
            require(all(any(covers(x, a) for x in xs) for a in added), 'lost', show(t), 'of', [show(a) for a in added], 'kept', S)
            require(all(any(variant(x, a) for a in added) for x in xs), 'invented an element', S)
            require(not any(covers(x, y) for p, x in enumerate(xs) for q, y in enumerate(xs) if p != q), 'an element covers another', S)
            require(ret == any(covers(b, t) for b in before), 'reports', ret, 'for', show(t), 'after', [show(b) for b in before])
            for p in PROBES: membership(c, p, [x for x in xs if covers(x, p)], st)
            if k < 2: shared(c, lambda x, p: covers(x, p), st)
        elif kind == 'nodups':
            require(len(xs) == len({rename(a) for a in added}), 'duplicates or losses', S)
            require({rename(x) for x in xs} == {rename(a) for a in added}, 'wrong representatives', S)
            require(ret == any(variant(b, t) for b in before), 'reports', ret, 'for', show(t))
            for p in PROBES: membership(c, p, [x for x in xs if variant(x, p)], st)
            if k < 2: shared(c, lambda x, p: variant(x, p), st)
        else:
            require(all(any(covers(x, a) for x in xs) for a in added), 'does not cover', [show(a) for a in added], 'cells', S)
            require(not any(unif(x, y) for p, x in enumerate(xs) for q, y in enumerate(xs) if p != q), 'cells overlap', S, 'after', [show(a) for a in added])
            for p in PROBES:
                want = [x for x in xs if unif(x, p)]
                got = [from_dyna(x, {}) for x in c.roots(to_dyna(p, {}))]
                require(sorted(map(repr, map(rename, got))) == sorted(map(repr, map(rename, want))), 'cells of', show(p), [show(x) for x in got])
                if len(want) <= 1: membership(c, p, want, st)
            if k < 2: shared(c, unif, st, True)
            p = c.to_program()
            require(sorted(repr(rename(from_dyna(r.head))) for r in p) == sorted(map(repr, map(rename, xs))), 'listed as a program', p)
        require(len(c) == len(xs), 'length')
        if k < 2:
            # the same additions with variables shared between them, and as canonical forms (which share theirs)
            from dyna.term import canonicalize
            for canon in (False, True):
                e = {}; d = make()
                ret2 = None
                for a in added: x = to_dyna(a, e); ret2 = d.add(canonicalize(x) if canon else x)
                require([rename(x) for x in contents(d)] == [rename(x) for x in xs], 'shared variable names change the collection', [show(a) for a in added], [show(x) for x in contents(d)], 'without', S)
                require(ret2 == ret, 'shared variable names change the answer of add', [show(a) for a in added], ret2, ret)
        st.state((kind, [rename(x) for x in xs])); st.outcome((kind, [rename(x) for x in xs])); st.trace()
    st.step()

def membership(c, p, want, st):
    try: got = from_dyna(c.root(to_dyna(p, {})), {})
    except KeyError:
        require(not want, 'does not find', show(p)); return
    require(any(variant(got, w) for w in want), 'finds', show(got), 'for', show(p), 'want one of', [show(w) for w in want])
    require(variant(from_dyna(list(c)[c.find(to_dyna(p, {}))], {}), got), 'find and root disagree', show(p))

def entangled(c):
    "queries made of the variables of the stored elements themselves: a set has no variables of its own, so they are ordinary queries"
    from dyna.term import canonicalize, term_vars, Term
    xs = list(c)
    for p in PROBES: yield canonicalize(to_dyna(p, {}))
    for x in xs:
        yield x
        vs = list(term_vars(x))[:2]
        for f, n in (('f', 2), ('h', 1)):
            for args in product([*vs, *[Term('g', v) for v in vs], 1][:5], repeat=n):
                yield Term(f, *args)

def shared(c, rel, st, disjoint=False):
    xs = list(c)
    for q in entangled(c):
        p = from_dyna(q, {})
        want = [i for i, x in enumerate(xs) if rel(from_dyna(x, {}), p)]
        if disjoint:
            require(c.find_all(q) == want, 'cells of', show(p), '(sharing variables with the set):', c.find_all(q), 'want', want, [show(y) for y in contents(c)])
            require([id(y) for y in c.roots(q)] == [id(xs[i]) for i in want], 'roots of', show(p))
            if len(want) > 1: continue
        try: i = c.find(q)
        except KeyError: i = None
        require(i in want if want else i is None, 'finds', i, 'for', show(p), '(sharing variables with the set), want one of', want, 'in', [show(y) for y in contents(c)])
        if i is not None: require(c.root(q) is xs[i], 'root of', show(p), 'is not the element found')
        st.step()

def rules(seq, st, k):
    "the same for conjunctions"
    from dyna.term import MostGeneralSet
    from dyna import covers as dcovers, DisjointEstimate
    c = MostGeneralSet([to_dyna(t, {}) for t in seq], dcovers)
    xs = contents(c)
    want = [t for i, t in enumerate(seq) if not any(covers(s, t) and (not covers(t, s) or j < i) for j, s in enumerate(seq) if j != i)]
    require(sorted(repr(rename(x)) for x in xs) == sorted(repr(rename(x)) for x in want), 'maximal elements', [show(x) for x in xs])
    # shared variables between the additions are of no consequence
    env = {}
    d = MostGeneralSet([to_dyna(t, env) for t in seq], dcovers)
    require(sorted(repr(rename(x)) for x in contents(d)) == sorted(repr(rename(x)) for x in want), 'shared variable names change the collection', [show(x) for x in contents(d)])
    e = DisjointEstimate([to_dyna(t, {}) for t in seq])
    ys = contents(e)
    require(all(any(covers(y, t) for y in ys) for t in seq) and not any(unif(a, b) for i, a in enumerate(ys) for b in ys[:i]), 'partition', [show(y) for y in ys])
    st.state(('rules', [rename(x) for x in xs])); st.outcome(('rules', [rename(x) for x in xs])); st.step(3); st.trace()
