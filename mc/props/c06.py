"""C06: forward chaining on range-restricted programs computes the weighted fixpoint, for every program, data set and agenda schedule."""
from mc.core import Violation, require, Unsupported
from mc.terms import *
from mc.ref import *
from mc.sr import *
from mc.dynaio import *
from mc.corpus import *
from mc.sched import *

LEVEL = 'model_checking'
RULE = ('every subset of up to 3 rules of a 19-rule alphabet (recursion, repeated subgoals, repeated variables, structure, builtins) x data sets x semirings; '
        'the real solver runs under a controlled agenda: every schedule with <=1 (thorough: <=3) departures from FIFO, plus LIFO and the default heap; every multiset of up to 2 rules (and rules repeated three times) with data that arrive in several loads, facts and derived items loaded again with weight one; '
        'final chart compared with an independent naive fixpoint in truncated provenance polynomials; state = chart after each run')
ASSUMPTIONS = ['provenance polynomials truncated at degree 6, coefficients saturating at 7', 'data over the constants 1,2,3']
CASE_LIMIT = 60

# rules that fire when the solver starts
CONSTS = RS('''
r += (1 < 2)
p(X) += (X is 1 + 1)
r += (2 < 1)
p(1) += (1 < 2) * (1 != 2)
p(1)
'''.replace('\n', '.\n'))

def label(t): return show(t)

def loads(c, rules, sr, batches, make, st, sigs=None, uni=None, limit={}):
    "the data arrive in several loads (the same facts again, with weights that may be one); after each the chart is that of all the data so far"
    from dyna import Program
    ops = OPS[sr]
    def weigh(k, i, t):
        if sr == 'prov': return Prov.label(f'{show(t)}@{k}')
        return {'float': 1.0, 'bool': Boolean.one, 'minplus': MinPlus(0.0)}[sr]
    p = Program(text([rules[i] for i in c]))
    if sr != 'float': p = p.lift_semiring(ops.cls)
    s = make(p); got = []
    for k, b in enumerate(batches):
        pairs = [(t, weigh(k, i, t)) for i, t in enumerate(b)]
        got += [(t, (w,)) for t, w in pairs]
        try: want = Evaluator([rules[i] for i in c] + got, ops, **limit).solve()
        except Unsupported:
            if k == 0: raise
            st.count('load_unsupported'); return
        if sr == 'float' and (any(v > 50 for v in want.values())):
            if k == 0: raise Unsupported('near-divergent')
            st.count('load_unsupported'); return
        if k: s.user_query('p(1)' if uni is None else 'b(1)')
        s(facts(pairs, ops, None if sr == 'float' else ops.cls))
        a, b = want, chart_of(s.sol(), ops)
        if sigs: a, b = restrict(a, sigs), restrict(b, sigs)
        e = diff(a, b, ops, uni) if uni is not None else diff(a, b, ops)
        require(e is None, lambda: f'load {k + 1} of {[list(map(show, x)) for x in batches]} gives {e}')
        st.step()
    st.trace(); st.state((c, sr, tuple(map(tuple, batches))))

def data_pairs(name, sr):
    ds = DATASETS[name]
    if sr == 'prov': return [(t, Prov.label(show(t))) for t in ds]
    if sr == 'float': return [(t, 0.3 + 0.05 * i) for i, t in enumerate(ds)]
    if sr == 'bool': return [(t, Boolean.one) for t in ds]
    if sr == 'minplus': return [(t, MinPlus(1.0 + i)) for i, t in enumerate(ds)]
    raise KeyError(sr)

def groups(tier):
    k = 3
    progs = list(subsets(len(GROUND), k))
    sets = ['acyclic', 'cycle', 'loop', 'dense']
    yield 'schedules', [(c, d) for d in sets for c in progs]
    yield 'data', [(c, d, s) for c in subsets(len(GROUND), 2 if tier == 'quick' else 3) for d in DATASETS for s in ('prov', 'float', 'bool', 'minplus')]
    n = len(GROUND + CONSTS)
    multis = [(i, j) for i in range(n) for j in range(i, n)] + [(i,) for i in range(n)] + [(i, i, i) for i in range(n)]
    yield 'loads', [(c, sr) for c in multis for sr in ('prov', 'float', 'bool', 'minplus')]
    yield 'incremental', [(c, d) for c in subsets(len(GROUND), 2 if tier == 'quick' else 3) for d in ('loop', 'acyclic')]

def program(c, sr):
    from dyna import Program
    p = Program(text([GROUND[i] for i in c]))
    return p if sr == 'float' else p.lift_semiring(OPS[sr].cls)

def reference(c, pairs, ops):
    rules = [(h, b) for h, b in [GROUND[i] for i in c]] + [(t, (w,)) for t, w in pairs]
    return Evaluator(rules, ops).solve()

class PrioAgenda(ControlledAgenda): pass

def run_solver(p, data, ctl=None, **kw):
    s = p.solver(**kw)
    s(data)
    return s

def check(group, case, st):
    if group == 'schedules':
        c, d = case
        ops = PROV
        pairs = data_pairs(d, 'prov')
        want = reference(c, pairs, ops)
        data = facts(pairs, ops, Prov)
        def run():
            p = program(c, 'prov')
            return run_solver(p, data, AgendaType=ControlledAgenda)
        import os
        bound = 2 if os.environ.get('VERIF_TIER') == 'thorough' else 1
        outcomes = set()
        for choices, s in explore(run, bound, cap=4000):
            got = chart_of(s.sol(), ops)
            e = diff(want, got, ops)
            require(e is None, 'schedule', choices, 'gives', e)
            st.step(len(choices)); st.trace(); st.state((c, d, tuple(choices)))
        CTL.start([], default='lifo'); s = run()
        e = diff(want, chart_of(s.sol(), ops), ops)
        require(e is None, 'last-in-first-out schedule gives', e)
        s = run_solver(program(c, 'prov'), data)
        e = diff(want, chart_of(s.sol(), ops), ops)
        require(e is None, 'default agenda gives', e)
        st.trace(2); st.outcome(sorted((show(k), repr(v)) for k, v in want.items()))
    elif group == 'data':
        c, d, sr = case
        ops = OPS[sr]
        pairs = data_pairs(d, sr)
        if sr == 'float':
            # a divergent or ill-conditioned system has no numerical answer to compare with
            want = reference(c, pairs, ops)
            if any(v > 50 for v in want.values()): raise Unsupported('near-divergent')
        else: want = reference(c, pairs, ops)
        data = facts(pairs, ops, None if sr == 'float' else ops.cls)
        s = run_solver(program(c, sr), data)
        tol = diff(want, chart_of(s.sol(), ops), ops)
        require(tol is None, 'solver gives', tol)
        # facts as part of the program, and in two instalments of the same item
        half = [(t, w) for t, w in pairs] 
        from dyna import Rule
        p = program(c, sr)
        p2 = p + [Rule(to_dyna(t, {}), w) for t, w in pairs]
        e = diff(want, chart_of(run_solver(p2, '' if sr == 'float' else facts([], ops, ops.cls)).sol(), ops), ops)
        require(e is None, 'with the data inside the program', e)
        st.step(2); st.trace(2); st.state(case); st.outcome(sorted((show(k), repr(v)) for k, v in want.items()))
    elif group == 'loads':
        c, sr = case
        A, L = DATASETS['acyclic'], DATASETS['loop']
        bad = None; ok = 0
        for batches in ([A], [A, A], [[], A, [('p', 1)]], [[('n', 1)], [('n', 1)], [('e', 1, 2), ('n', 2)]], [A, [('p', 2), ('r',)], [('n', 1)]], [[('q', 1, 2)], A], [L[:2], L[2:], L[:1]]):
            try: loads(c, GROUND + CONSTS, sr, batches, lambda p: p.solver(), st); ok += 1
            except Unsupported as e: bad = e
        if not ok: raise bad
    elif group == 'incremental':
        # histories: the data arrives in two loads (every split point), with a query in between
        c, d = case
        ops = PROV
        pairs = data_pairs(d, 'prov')
        want = reference(c, pairs, ops)
        # a rule without subgoals fires when the solver first runs
        for cut in range(1, len(pairs)):
            a, b = facts(pairs[:cut], ops, Prov), facts(pairs[cut:], ops, Prov)
            p = program(c, 'prov')
            s = p.solver()
            s(a)
            w1 = reference(c, pairs[:cut], ops)
            e = diff(w1, chart_of(s.sol(), ops), ops)
            require(e is None, 'after the first load', e)
            s.user_query('q(X,Y)'); s.user_query('p(1)')
            s(b)
            e = diff(want, chart_of(s.sol(), ops), ops)
            require(e is None, 'after the second load', cut, e)
            s('' if False else facts([], ops, Prov))
            e = diff(want, chart_of(s.sol(), ops), ops)
            require(e is None, 'running again changes the answer', cut, e)
            st.step(3); st.trace(); st.state((c, d, cut)); st.outcome(e)
