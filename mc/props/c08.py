"""C08: all evaluation strategies compute the same weighted fixpoint."""
from mc.core import Violation, require, Unsupported
from mc.terms import *
from mc.ref import *
from mc.sr import *
from mc.dynaio import *
from mc.corpus import *

LEVEL = 'model_checking'
RULE = ('every subset of up to 2 (thorough 3) rules of the ground and of the nonground alphabet, with each data set inlined, under each of the strategies '
        'naive, semi-naive, agenda, Newton, linear solve, both forward-chaining solvers; every strategy compared with the independent reference')
ASSUMPTIONS = ['truncated provenance polynomials; reals only for contractive systems']
CASE_LIMIT = 60

STRATS = ['fc', 'seminaive', 'agenda', 'solver', 'solver2', 'call', 'newton', 'linear']
NSTRATS = ['fc', 'seminaive', 'agenda', 'solver2', 'call', 'newton', 'linear']
SIGS = {('b', 1), ('c', 2), ('d', 1), ('g', 0), ('h', 2), ('n', 1), ('e', 2), ('p', 1), ('q', 2), ('r', 0), ('s', 1)}

def groups(tier):
    k = 3 if tier == 'quick' else 4
    ds = ('loop', 'acyclic') if tier == 'quick' else ('loop', 'acyclic', 'cycle', 'dense')
    yield 'ground', [(c, d, s) for d in ds for s in ('prov', 'float') for c in subsets(len(GROUND), k)]
    yield 'nonground', [(c, d, s) for d in ds for s in ('prov', 'minplus', 'float') for c in subsets(len(NONGROUND), k)]
    if tier == 'quick':
        yield 'ground', [(c, 'cycle', 'prov') for c in subsets(len(GROUND), 3) if len(c) == 3]
        yield 'nonground', [(c, 'cycle', sr) for sr in ('prov', 'float') for c in subsets(len(NONGROUND), 3) if len(c) == 3]
    yield 'linear', [(c, d, s) for d in ds for s in ('prov', 'float', 'bool', 'minplus') for c in subsets(len(LINEAR), 3)]

from mc.syn import RS
LINEAR = RS('''
p(X) += n(X).
p(Y) += p(X) * w(X,Y).
p(1).
p(X) += 0.5 * p(X).
t(X) += p(X).
t(Y) += t(X) * (Y = X).
p(3) += t(2).
u += t(X).
p(f(X)) += u * (X = 1).
u += p(f(X)).
t(X) += p(Y) * (X = Y) * (X != 2).
'''.replace('w(X,Y)', '(Y is X + 1) * (Y < 4)').replace('n(X).', '(X = 2) * 2.'))

UNI = [1, 2, ('f', 1), ('z9',), ('z8',)]

def one(p, strat, ops):
    from dyna import Program
    if strat in ('fc', 'seminaive', 'agenda', 'newton'):
        return getattr(p, strat)(**({'precision': 10 if ops.isfloat else None} if strat == 'agenda' else {}))
    if strat == 'linear':
        return p.solve_linear()
    empty = '' if ops.isfloat else Program([], semiring=ops.cls)
    if strat == 'call': return p(empty).sol()
    s = getattr(p, strat)()
    s(empty)
    return s.sol()

ALPHA = dict(ground=GROUND, nonground=NONGROUND, linear=LINEAR)

def check(group, case, st):
    from dyna import Program, Rule
    c, d, sr = case
    ops = OPS[sr]
    A = ALPHA[group]
    from mc.props.c06 import data_pairs
    pairs = [] if group == 'linear' else data_pairs(d, sr)
    rules = [A[i] for i in c]
    if sr != 'float':   # numeric literals of the alphabet are naturals in the discrete semirings
        rules = [(h, tuple(2 if isinstance(b, float) else b for b in body)) for h, body in rules]
    ref = rules + [(t, (w,)) for t, w in pairs]
    want = restrict(Evaluator(ref, ops, max_iter=300, max_items=80, cap=20 if ops.isfloat else None).solve(), SIGS | {('t', 1), ('u', 0)})
    src = Program(text(rules))
    if sr != 'float': src = src.lift_semiring(ops.cls)
    rules2 = list(src) + [Rule(to_dyna(t, {}), w) for t, w in pairs]
    recursive_builtin = any(b[0] in BUILTIN for i in c for b in A[i][1] if isterm(b))
    for strat in (NSTRATS if group == 'nonground' else STRATS):
        if group == 'linear':
            if strat == 'solver' and any(set(tvars(h)) - set(tvars(('b', *b))) for h, b in rules): continue
        if strat in ('newton', 'linear'):
            # they solve linear systems over items: builtins in the bodies are not subgoals they accept
            if recursive_builtin: continue
        if strat == 'linear' and any(sum(isterm(b) for b in body) > 1 for _, body in rules): continue
        if strat == 'newton' and ops.isfloat and INF in want.values() and any(sum(isterm(b) for b in body) > 1 for _, body in rules):
            continue   # the derivative at an infinite value is infinite: Newton's method is not defined there
        p = Program(rules2, semiring=None if sr == 'float' else ops.cls)
        got = one(p, strat, ops)
        got = restrict(chart_of(got, ops), SIGS | {('t', 1), ('u', 0)})
        e = diff(want, got, ops, UNI if group != 'ground' else None)
        require(e is None, strat, 'gives', e)
        st.step(); st.trace(); st.state((group, c, d, sr, strat))
    st.outcome(sorted((show(k), repr(v)) for k, v in want.items()))
