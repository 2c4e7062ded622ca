"""C30: every program reached by program search is equivalent to the start; the best one has the least cost explored."""
import contextlib, io, os
from itertools import product as iproduct
from mc.xform import *
from mc.props.c14 import XSIGS

LEVEL = 'model_checking'
RULE = ('every subset of up to 2 rules (thorough 3) of a search alphabet (chains, joins, triangles, recursion in both directions, unit rules, builtins, constants) x declared outputs: the state graph of the real search is enumerated - '
        'agenda-based search under every sequence of greedy/first-in decisions of bounded length, with each family of moves switched on, and every state of the older search graphs up to a depth under every family of moves; '
        'each program reached is compared with the start on its outputs (provenance semiring, two data sets), as is each step of its history; costs, budgets and depth limits are checked against exhaustive search of the same graph; state = program reached')
ASSUMPTIONS = ['provenance polynomials truncated at degree 6, coefficients saturating at 7', 'data over the constants 1,2,3', 'declared outputs only']
CASE_LIMIT = 240
SEARCH = ints(RS('''
g += n(X) * t(X,Y) * n(Y).
t(X,Y) += e(X,Y).
t(X,Z) += t(X,Y) * e(Y,Z).
t(X,Z) += e(X,Y) * t(Y,Z).
t(X,Z) += e(X,Y) * e(Y,Z).
g += e(X,Y) * e(Y,Z) * n(Z).
g += e(X,Y) * e(Y,Z) * e(Z,X).
u(X) += e(X,Y) * n(Y).
u(X) += e(X,Y) * u(Y).
g += u(X) * u(X).
g += n(X) * u(X).
u(Y) += t(X,Y) * t(X,Z) * n(X).
g += e(X,Y) * n(Z) * n(Y).
u(X) += n(X).
g += u(1) * u(2).
t(X,Z) += t(X,Y) * t(Y,Z).
u(Y) += n(X) * (Y is X + 1).
g += 2 * t(X,Y) * u(Y).
g += e(X,Y) * e(Z,Y) * (X < Z).
u(f(X)) += n(X) * e(X,Y) * n(Y).
g += u(f(X)) * e(X,Y).
g += t(X,X).
'''.strip()))
FIXED = [  # larger programs on which the search has more to do
    RS('t(X,X). t(X,Z) += t(X,Y) * e(Y,Z). g += n(X) * t(X,Z) * n(Z).'),
    RS('g += e(X,Y) * e(Y,Z) * e(Z,W) * n(W).'),
    RS('t(X,Z) += t(X,Y) * e(Y,Z). t(X,Y) += e(X,Y). u(Z) += n(X) * t(X,Y) * e(Y,Z). g += u(X) * u(X).'),
    RS('g += e(X,Y) * e(X,Z) * n(Y) * n(Z).'),
    RS('u(X) += n(X). u(Y) += u(X) * e(X,Y). t(X,Y) += u(X) * e(X,Y). g += t(X,Y) * t(Y,Z).'),
    RS('t(X,Y) += e(X,Y) * n(X). t(X,Z) += t(X,Y) * t(Y,Z). g += t(1,X) * n(X).'),
]
MOVES = ['fold', 'fold+', 'fold*', 'elim', 'unfold', 'megafold', 'megafold-defs', 'noop', 'lct', 'spec']
OPTS = {'plain': {}, 'reversible': dict(ALLOW_REVERSIBLE=True), 'lct': dict(ALLOW_LCT=True), 'slash': dict(ALLOW_SLASH=True)}

def alph(c): return FIXED[c] if isinstance(c, int) else [SEARCH[i] for i in c]

def groups(tier):
    deep = tier != 'quick'
    k = 3 if deep else 2
    cs = [c for c in subsets(len(SEARCH), k)] + list(range(len(FIXED)))
    if deep: cs = [c for c in cs if isinstance(c, int) or len(c) < 3 or sum(c) % 3 == 0]
    yield 'agenda', [(c, o, out) for c in cs for o in OPTS for out in ('g', 'all') if deep or o == 'plain' or out == 'all' or isinstance(c, int)]
    yield 'graph', [(c, g, m, out) for c in cs for g in (1, 2) for m in MOVES + ['default'] for out in ('g', 'all')
                    if not (g == 2 and m in ('megafold', 'megafold-defs', 'noop', 'lct', 'spec'))]
    yield 'beam', [(c, g, m) for c in cs for g in (1, 2) for m in ('fold', 'default')]

class Coin:
    "replaces the random choice between greedy and first-in pops by a given sequence"
    def __init__(self, bits, rest): self.bits = list(bits); self.rest = rest; self.used = 0
    def __call__(self, *a, **k):
        b = self.bits[self.used] if self.used < len(self.bits) else self.rest
        self.used += 1
        return 0.0 if b else 1.0

@contextlib.contextmanager
def coin(bits, rest):
    import numpy.random
    old = numpy.random.uniform
    numpy.random.uniform = c = Coin(bits, rest)
    try: yield c
    finally: numpy.random.uniform = old

def outs(rules, which):
    if which == 'g': return [('g', 0)]
    return sorted({(h[0], len(h) - 1) for h, _ in rules})

class Start:
    def __init__(self, c, out, st):
        self.rules = rules = ints(alph(c)); self.st = st
        self.sigs = outs(rules, out)
        if not any((h[0], len(h) - 1) in self.sigs for h, _ in rules): raise Unsupported('no output is derived')
        self.datas = [prov_pairs('acyclic'), prov_pairs('loop')]
        self.out = ' '.join(text_term((f, *[V(f'X{i}') for i in range(n)])) + '.' for f, n in self.sigs)
        self.p = program(rules, outputs=self.out, semiring=None)
        self.M = Meaning(rules, self.datas, sigs=set(self.sigs))
        self.seen = set(); self.text = str(self.p)
        self.decl = (decl(self.p.inputs), decl(self.p.outputs))
    def same(self, q, how):
        rs = rules_of(q)
        key = repr(sorted(map(canon_rule, rs)))
        if key in self.seen: return
        self.seen.add(key)
        what = lambda: f'{how} of {src(self.rules)} with outputs {self.out} reaches {[strip(r) for r in q]}'
        require((decl(q.inputs), decl(q.outputs)) == self.decl, lambda: f'{what()}, which declares inputs {decl(q.inputs)} and outputs {decl(q.outputs)}')
        n = self.M.same([(h, tuple(int(x) if isinstance(x, float) and x == int(x) else x for x in b)) for h, b in rs], self.datas, self.st, what, max_items=900, aux=True)
        self.st.state((self.text, key))
    def unchanged(self, how):
        require(str(self.p) == self.text, lambda: f'{how}: the starting program changed to {self.p}')

def strip(r):
    import re
    return re.sub(r'\x1b\[[0-9;]*m', '', str(r))

def decl(p): return sorted((x.head.fn, len(x.head.args)) for x in p)

def canon_rule(r):
    h, b = r
    return repr(rename(('r', h, *[x if isterm(x) or isv(x) else ('$c', repr(x)) for x in b])))

def check(group, case, st):
    {'agenda': agenda, 'graph': graph, 'beam': beam}[group](case, st)

def quiet(): return contextlib.redirect_stdout(io.StringIO())

def agenda(case, st):
    from dyna.search import AgendaBasedSearch
    c, o, out = case
    S = Start(c, out, st); deep = os.environ['MC_TIER'] != 'quick'
    K, N = (4, 40) if deep else (2, 14) if isinstance(c, int) or len(c) < 2 else (1, 12)
    for bits in iproduct((1, 0), repeat=K):
        for rest in (1, 0):
            how = f'agenda search ({o}; greedy pops {bits}, then {rest})'
            with quiet(), coin(bits, rest):
                G = AgendaBasedSearch(S.p, **OPTS[o])
                popped = []
                for q in G.run_agenda(N): popped.append(q); st.step()
            require(len(popped) <= N, lambda: f'{how}: {len(popped)} programs after a budget of {N}')
            best = G.optimize_plans(); costs = [q.prune_fast().degrees() for q in [S.p, *popped]]
            for q in popped:
                S.same(q, how)
                if o in ('plain', 'reversible'):
                    line = list(q.lineage())
                    require(line[-1] is S.p or rules_of(line[-1]) == rules_of(S.p), lambda: f'{how}: the history of {list(map(strip, q))} does not start with the program given')
                    for x in line: S.same(x, how + ' (history)')
            S.same(best, how + ' (best)')
            b = best.prune_fast().degrees()
            require(not any(x < b for x in costs), lambda: f'{how} of {src(S.rules)}: best has cost {b}, explored {min(costs)}')
            require(any(best is q for q in [S.p, *popped]), lambda: f'{how}: the best program was not explored')
            coll = G.to_collection()
            S.unchanged(how); st.trace()

def mk(S, g, m, depth, **kw):
    return S.p.search_graph(max_depth=depth, graph=g, **({} if m == 'default' else dict(TRANSFORMS=[m])), **kw)

def graph(case, st):
    c, g, m, out = case
    if m in ('lct', 'spec') and (len(alph(c)) > 2 or sum(len(b) for _, b in alph(c)) > 4 or any(isterm(x) and x[0] == 'is' for _, b in alph(c) for x in b)): return   # (type analysis of growing arithmetic diverges)
    S = Start(c, out, st); deep = os.environ['MC_TIER'] != 'quick'
    D = 1 if m in ('lct', 'spec', 'fold+') and not (deep and m == 'fold+') else 2
    with quiet():
        G = mk(S, g, m, D)
        front = [G.initial_state]; seen = set()
        for d in range(D + 1):
            nxt = []
            for s in front:
                before = str(s.program)
                acts = G.actions(s); st.step()
                require(d < D or not acts, lambda: f'graph {g}: moves beyond the depth limit')
                for a in acts:
                    t = G.transition(s, a)
                    how = f'move {a} ({m}, graph {g}) from {[strip(r) for r in s.program]}'
                    S.same(t.program, how)
                    require(str(s.program) == before, lambda: f'{how}: the state it starts from changes')
                    if g == 2:
                        require(set(map(id, t.todo)) is not None and all(any(r == x for x in t.program) for r in t.todo), lambda: f'{how}: rules remain to be done that are not in the program')
                    require(t.depth > s.depth, lambda: f'{how}: depth {s.depth} -> {t.depth}')
                    k = (t.depth, repr(sorted(map(canon_rule, rules_of(t.program)))), repr(sorted(map(canon_rule, rules_of(t.todo)))) if g == 2 else '')
                    if k not in seen: seen.add(k); nxt.append(t)
            front = nxt
    S.unchanged('graph'); st.trace()

def explore(S, g, m, D):
    "costs of every node of the search tree, level by level (the order in which an unbounded beam evaluates them)"
    G = mk(S, g, m, D)
    costs = [G.cost(S.p), G.cost(S.p)]
    front = [(costs[0], G.initial_state)]
    while front:
        nxt = []
        for _, s in front:
            for a in G.actions(s):
                t = G.transition(s, a)
                k = G.cost(t.program); costs.append(k); nxt.append((k, t))
        front = sorted(nxt, key=lambda x: x[0])
    return costs

def beam(case, st):
    from dyna.search import BeamSearch
    c, g, m = case
    S = Start(c, 'g' if any(h[0] == 'g' for h, _ in alph(c)) else 'all', st); D = 2
    with quiet():
        costs = explore(S, g, m, D)
        n = len(costs)
        for reps in sorted({1, 2, 3, 5, n - 1, n, n + 1, 10 ** 6}):
            if reps < 1: continue
            for size in (1, 2, 10 ** 6):
                how = f'beam({reps}, {size}; {m}, graph {g})'
                B = S.p.beam(reps, size, graph=g, max_depth=D, verbosity=0, **({} if m == 'default' else dict(TRANSFORMS=[m])))
                log = [x['cost'] for x in B.log]; st.step()
                what = lambda w: f'{how} of {src(S.rules)}: {w}'
                require(len(log) <= reps and len(B.programs) == len(log), lambda: what(f'{len(log)} evaluations'))
                require(not any(x < B.best_cost for x in log) and any(x == B.best_cost for x in log), lambda: what(f'best cost {B.best_cost}, log {log}'))
                require(B.G.cost(B.best) == B.best_cost, lambda: what('the best program does not have the best cost'))
                for x, q in B.top(): require(B.G.cost(q) == x['cost'], lambda: what('log and program disagree'))
                tops = [x['cost'] for x, _ in B.top()]
                require(all(not (b < a) for a, b in zip(tops, tops[1:])), lambda: what(f'top not sorted: {tops}'))
                if size == 10 ** 6: require(log == costs[:reps], lambda: what(f'evaluates {log[:20]}, exhaustive search {costs[:reps][:20]}'))
                for q in B.programs.values(): S.same(q, how)
    S.unchanged('beam'); st.trace()
