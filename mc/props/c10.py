"""C10: queries return exactly the matching weighted answers and change nothing."""
import os
from itertools import product, combinations
from mc.xform import *
from mc.syn import T
from mc.terms import *

LEVEL = 'model_checking'
RULE = ('every chart made of up to 3 (thorough 4) entries of an 11-entry ground and a 14-entry nonground alphabet x every query pattern (bound, free, repeated, structured, partly bound beforehand); '
        'single queries, two- and three-subgoal conjunctions, projections, and every interleaving/abandonment of two suspended queries, on both solvers and on the solved program; '
        'oracle: independent unification against the list of entries; state = (chart, query)')
ASSUMPTIONS = ['entries of the chart carry distinct provenance indeterminates', 'two suspended queries share no variables unless one is nested in the other']
CASE_LIMIT = 120

GENT = [T(s) for s in ['c(1,1)', 'c(1,2)', 'c(2,1)', 'c(2,2)', 'c(f(1),2)', 'c(2,f(1))', 'c(f(1),f(2))', 'b(1)', 'b(2)', 'b(f(1))', 'g']]
NENT = [T(s) for s in ['c(X,X)', 'c(1,X)', 'c(X,2)', 'c(f(X),X)', 'c(X,Y)', 'c(X,f(Y))', 'c(f(X),f(X))', 'c(1,2)', 'c(f(1),1)', 'b(X)', 'b(f(X))', 'b(1)', 'b(f(1))', 'g']]
ENT = dict(ground=GENT, nonground=NENT)

def patterns():
    X, Y, Z = V('X'), V('Y'), V('Z')
    args = [X, Y, 1, 2, ('f', X), ('f', Y), ('f', 1), ('f', ('f', X))]
    seen = set(); out = [('g',)]
    for a in args:
        for t in [('b', a)] + [('c', a, b) for b in args]:
            k = rename(t, prefix='X')
            if k not in seen: seen.add(k); out.append(k)
    return out
PAT = patterns()
CONJ = [T(s) for s in ['c(X,Y)', 'c(X,X)', 'c(Y,Z)', 'c(Y,X)', 'c(1,Y)', 'c(X,2)', 'c(f(X),Y)', 'b(X)', 'b(Y)', 'b(f(X))', 'b(1)', 'g']]
TAILS = [T(s) for s in ['X = Y', 'f(X) = Y', 'X = 1', 'Y = 3']]

def groups(tier):
    k = 3 if tier == 'quick' else 4
    for a in ENT:
        yield a, list(subsets(len(ENT[a]), k))
    for a in ENT:
        yield 'conj', [(a, c) for c in combinations(range(len(ENT[a])), 3)] + ([(a, c) for c in combinations(range(len(ENT[a])), 4)] if tier != 'quick' else [])
    for a in ENT:
        yield 'interleave', [(a, c, q) for c in combinations(range(len(ENT[a])), 3) for q in range(len(IQ))]

IQ = [(T(s), T(t)) for s, t in [('c(X,Y)', 'c(U,W)'), ('c(X,Y)', 'c(U,U)'), ('c(1,X)', 'c(X1,2)'), ('c(X,2)', 'b(U)'), ('b(f(X))', 'b(U)'), ('c(X,X)', 'c(U,f(W))'), ('c(f(X),Y)', 'c(1,W)')]]

def label(t): return Prov.label('<' + show(t) + '>')

def answers(entries, q):
    "canonical instance -> summed weight"
    out = {}
    for t in entries:
        s = mgu(q, apart(t, '@e'), {})
        if s is None: continue
        k = rename(subst(q, s))
        out[k] = out.get(k, Prov.zero) + label(t)
    return out

def jointly(entries, qs, free):
    "list of (instance of the tuple `free`, weight) of a conjunction"
    out = []
    def go(i, s, w):
        if i == len(qs): out.append((rename(subst(free, s)), w)); return
        q = qs[i]
        if q[0] == '=':
            m = mgu(q[1], q[2], s)
            if m is not None: go(i + 1, m, w)
            return
        for t in entries:
            m = mgu(q, apart(t, f'@{i}'), s)
            if m is not None: go(i + 1, m, w * label(t))
    go(0, {}, Prov.one)
    return sorted((repr(a), repr(b)) for a, b in out)

def solved(entries, which):
    from dyna import Program
    p = facts([(t, label(t)) for t in entries], PROV, Prov)
    s = p.solver() if which == 1 else p.solver2()
    return s(facts([], PROV, Prov))

def snapshot(s): return sorted((repr(rename(from_dyna(k))), repr(v)) for k, v in s.chart.items())

def collapse(p):
    out = {}
    for r in p:
        h, body = rule_of(r)
        w = Prov.one
        for x in body: w = w * x
        k = rename(h); out[k] = out.get(k, Prov.zero) + w
    return out

def weight(v):
    "value of an answer: a semiring element, or the body of a matched fact"
    from dyna import Product
    if isinstance(v, Product):
        w = Prov.one
        for x in v: w = w * x
        return w
    return v

def check(group, case, st):
    from dyna import Program, Term, term, unify
    a, c = (group, case) if group in ENT else case[:2]
    entries = [ENT[a][i] for i in c]
    ss = [solved(entries, 2)] + ([solved(entries, 1)] if a == 'ground' else [])
    snaps = [snapshot(s) for s in ss]
    def unchanged(what):
        for s, b in zip(ss, snaps): require(snapshot(s) == b, what, 'changes the chart', b, snapshot(s))
    if group in ENT:
        chart = ss[0].sol()
        for qi, q in enumerate(PAT):
            want = answers(entries, q)
            env = {}; d = to_dyna(q, env); inv = {id(v): n for n, v in env.items()}
            rd = lambda: from_dyna(d, dict(inv))
            for s in ss:
                what = f'query {show(q)} on {[show(t) for t in entries]} ({type(s).__module__})'
                # streamed answers, with the bindings seen while suspended
                got = {}
                for v in s.lookup_vals(d):
                    k = rename(rd()); got[k] = got.get(k, Prov.zero) + v
                require(got == want, what, 'streams', got, 'want', want)
                require(rd() == q, what, 'leaves variables bound')
                # abandoned after the first answer
                g = s.lookup_vals(d)
                for v in g: break
                del g     # (close() would rely on the interpreter clearing the frames of a `for` loop)
                require(rd() == q, what, 'abandoned, leaves variables bound')
                got = collapse(s.user_query(d))
                require(got == want, what, 'answers', got, 'want', want)
                require(len(list(s.user_query(text_term(q)))) == len(want), what, 'does not consolidate its answers')
                require(rd() == q, what, 'user_query leaves variables bound')
                st.step(3)
            for name in ('user_lookup', 'user_query'):
                got = collapse(getattr(chart, name)(d))
                require(got == want, name, show(q), 'on', [show(t) for t in entries], 'gives', got, 'want', want)
                require(rd() == q, name, 'leaves variables bound')
            # totals over projections of the query's variables (including none)
            vs = tvars(q)
            for keep in [()] + [(v,) for v in vs] + ([tuple(vs)] if len(vs) > 1 else []):
                head = ('ans', *map(V, keep))
                acc = Program([], semiring=Prov)
                acc[to_dyna(head, env)] = chart[d]
                got = collapse(acc)
                wt = {}
                for t in entries:
                    m = mgu(q, apart(t, '@e'), {})
                    if m is None: continue
                    inst, h = subst(q, m), subst(head, m)
                    w = label(t) if not set(tvars(inst)) - set(tvars(h)) else Prov.multiplicity(label(t), INF)
                    h = rename(h)
                    wt[h] = wt.get(h, Prov.zero) + w
                require(got == wt, 'total of', show(head), 'over', show(q), 'on', [show(t) for t in entries], 'is', got, 'want', wt)
                require(rd() == q, 'projection leaves variables bound')
            # the same query with its variables bound by the caller
            for v in vs:
                for b in (1, ('f', V('B'))):
                    q1 = subst(q, {v: b})
                    w1 = answers(entries, q1)
                    for s in ss:
                        e2 = dict(env)
                        for _ in unify(env[v], to_dyna(b, e2)):
                            got = {}
                            for x in s.lookup_vals(d):
                                k = rename(from_dyna(d)); got[k] = got.get(k, Prov.zero) + x
                            require(got == w1, 'query', show(q), 'with', v, '=', show(b), 'on', [show(t) for t in entries], 'gives', got, 'want', w1)
                        require(rd() == q, 'bound query leaves variables bound')
            st.trace(); st.state((c, a, qi)); st.outcome(sorted((show(k), repr(v)) for k, v in want.items()))
        unchanged('a sequence of queries')
    elif group == 'conj':
        chart = ss[0].sol()
        for qs in product(CONJ, repeat=2):
            for tail in ([()] + [(t,) for t in TAILS] if repr(qs[0]) < repr(qs[1]) else [()]):
                Q = [*qs, *tail]
                free = ('$', *map(V, tvars(('$', *Q))))
                want = jointly(entries, Q, free)
                env = {}; d = to_dyna(('$', *Q), env); f = to_dyna(free, env); inv = {id(v): n for n, v in env.items()}
                for s in ss:
                    got = sorted((repr(rename(from_dyna(f))), repr(v)) for v in s.join(tuple(d.args), Prov.one))
                    require(got == want, 'conjunction', list(map(show, Q)), 'on', [show(t) for t in entries], 'gives', got, 'want', want)
                    st.step()
                got = sorted((repr(rename(from_dyna(f))), repr(weight(v))) for v in chart[tuple(d.args)])
                require(got == want, 'conjunctive lookup', list(map(show, Q)), 'on', [show(t) for t in entries], 'gives', got, 'want', want)
                got = sorted((repr(rename(from_dyna(f))), repr(prod(map(weight, v)))) for v in chart.join(*d.args))
                require(got == want, 'join', list(map(show, Q)), 'on', [show(t) for t in entries], 'gives', got, 'want', want)
                require(from_dyna(d, dict(inv)) == ('$', *Q), 'conjunction leaves variables bound')
                st.trace(); st.state((a, c, Q)); st.outcome(want)
        unchanged('conjunctive queries')
    elif group == 'interleave':
        q1, q2 = IQ[case[2]]
        for s in ss:
            w = [stream(entries, q) for q in (q1, q2)]
            # schedules: at each step advance stream 0, advance stream 1, or close a stream
            n = [0]
            def explore(path):
                e1, e2 = {}, {}
                d = [to_dyna(q1, e1), to_dyna(q2, e2)]
                gens = [s.lookup_vals(x) for x in d]
                seen = [[], []]; alive = [True, True]
                for op, i in path:
                    if op == 'n':
                        try:
                            v = next(gens[i]); seen[i].append((repr(rename(from_dyna(d[i]))), repr(v)))
                        except StopIteration: alive[i] = False
                    else: gens[i] = None; alive[i] = False
                    for j in (0, 1):
                        cur = rename(from_dyna(d[j]))
                        if alive[j] and seen[j]: require(repr(cur) == seen[j][-1][0], 'advancing one query changes the bindings of another', path, show(q1), show(q2), [show(t) for t in entries])
                        else: require(cur == rename((q1, q2)[j]), 'a finished query leaves variables bound', path, show(q1), show(q2), [show(t) for t in entries])
                for j in (0, 1):
                    require(sorted(seen[j]) == w[j] if not alive[j] and ('c', j) not in path else all(x in w[j] for x in seen[j]) and len(seen[j]) == len(set(seen[j])),
                            'interleaved query', path, 'gives', seen[j], 'want', w[j])
                n[0] += 1; st.step(len(path))
                gens = None
                if len(path) >= 8: return
                for j in (0, 1):
                    if alive[j]:
                        explore(path + [('n', j)])
                        if seen[j]: explore(path + [('c', j)])
            explore([])
            st.trace(n[0]); st.state((case, type(s).__module__)); st.outcome(w)
        unchanged('interleaved queries')

def stream(entries, q):
    out = []
    for t in entries:
        s = mgu(q, apart(t, '@e'), {})
        if s is not None: out.append((repr(rename(subst(q, s))), repr(label(t))))
    return sorted(out)

def prod(xs):
    w = Prov.one
    for x in xs: w = w * x
    return w
