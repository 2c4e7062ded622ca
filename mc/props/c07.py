"""C07: forward chaining with nonground facts and infinite multiplicities."""
from mc.core import Violation, require, Unsupported
from mc.terms import *
from mc.ref import *
from mc.sr import *
from mc.dynaio import *
from mc.corpus import *
from mc.sched import *
from mc.syn import RS

LEVEL = 'model_checking'
RULE = ('every subset of up to 3 rules of a 19-rule alphabet with nonground facts, free head variables, repeated variables and structure x data sets x semirings; '
        'the real nonground solver under a controlled agenda (FIFO, LIFO, every schedule with one departure); chart compared at every ground instance '
        '(program constants plus fresh ones) with an independent nonground fixpoint; every pair of rules (and rules repeated) with ground and nonground data that arrive in several loads, the same items loaded again; non-trivial by the distinct answer charts')
ASSUMPTIONS = ['infinite multiplicity is identified with the saturation point in the provenance semiring', 'programs whose reference fixpoint needs infinitely many items are outside the domain (counted)']
CASE_LIMIT = 60
SIGS = {('b', 1), ('c', 2), ('d', 1), ('g', 0), ('h', 2), ('n', 1), ('e', 2)}

# three queries of the same items, open at the same time
EXTRA = RS('''
g += d(1) * d(2) * d(3)
g += c(1,X) * c(2,X) * c(X,3)
d(2) += d(1) * d(3) * b(1)
h(1,X) += c(1,X) * c(X,2) * c(2,3)
g += c(X,1) * c(1,X) * d(X) * d(1)
'''.replace('\n', '.\n'))
ALL = NONGROUND + EXTRA

def groups(tier):
    k = 3
    P = list(subsets(len(NONGROUND), k))
    yield 'schedules', [(c, d) for d in ('loop', 'acyclic') for c in P]
    yield 'semirings', [(c, d, s) for s in ('bool', 'minplus', 'float') for d in ('loop',) for c in subsets(len(NONGROUND), 2 if tier == 'quick' else 3)]
    n = len(NONGROUND)
    yield 'schedules', [((*c, n + i), 'loop') for c in subsets(n, 2) for i in range(len(EXTRA))]
    yield 'loads', [(c, sr) for c in [(i, j) for i in range(n) for j in range(i, n)] + [(i,) for i in range(n)] for sr in ('prov', 'bool', 'minplus')]
    if tier == 'thorough': yield 'schedules4', [(c, 'loop') for c in subsets(len(NONGROUND), 4) if len(c) == 4]

def pairs_of(d, sr):
    from mc.props.c06 import data_pairs
    return data_pairs(d, sr)

UNI = [1, 2, ('f', 1), ('z9',), ('z8',)]

def simple_text(i): return text([ALL[i]])

def check(group, case, st):
    from dyna import Program
    if group == 'loads':
        from mc.props.c06 import loads
        bad = None; ok = 0
        L = DATASETS['loop']; X = ('?', 'X')
        for batches in ([L, L], [L[:2], L[2:], L[:1]], [[('b', X)], [('b', X)], [('n', 1)]], [[('b', 1)], [('b', X)]], [L, [('c', X, 1)], [('c', 1, X)], [('c', 1, 1)]], [[('d', X)], [('d', 1), ('d', 2)]]):
            try: loads(case[0], ALL, case[1], batches, lambda p: p.solver2(), st, SIGS, UNI, dict(max_iter=40, max_items=60)); ok += 1
            except Unsupported as e: bad = e
        if not ok: raise bad
        return
    c, d = case[:2]
    sr = case[2] if len(case) > 2 else 'prov'
    ops = OPS[sr]
    pairs = pairs_of(d, sr)
    rules = [ALL[i] for i in c] + [(t, (w,)) for t, w in pairs]
    if sr == 'float':
        # infinities in the real semiring only make sense for the code without recursion
        if any(i in (10, 11) for i in c): raise Unsupported('recursive program in the real semiring')
    want = restrict(Evaluator(rules, ops, max_iter=40, max_items=60).solve(), SIGS)
    if sr == 'float' and any(v == float('inf') for v in want.values()) and any(len(b) > 1 for _, b in rules): raise Unsupported('inf arithmetic')
    data = facts(pairs, ops, None if sr == 'float' else ops.cls)
    def mk():
        p = Program(text([ALL[i] for i in c]))
        return p if sr == 'float' else p.lift_semiring(ops.cls)
    def run(**kw):
        s = mk().solver2(**kw); s(data)
        return s
    def judge(s, how):
        e = diff(want, restrict(chart_of(s.sol(), ops), SIGS), ops, UNI)
        require(e is None, how, 'gives', e)
    outs = 0
    for choices, s in explore(lambda: run(AgendaType=ControlledAgenda), 1 if group == 'schedules' else 0, cap=40 if len(c) > 2 else 400):
        judge(s, f'schedule {choices}')
        st.step(len(choices)); st.trace(); st.state((c, d, sr, tuple(choices)))
    CTL.start([], default='lifo')
    judge(run(AgendaType=ControlledAgenda), 'last-in-first-out schedule')
    judge(run(), 'default agenda'); st.trace(2)
    st.outcome(sorted((show(k), repr(v)) for k, v in want.items()))
