"""C32: changing the semiring commutes with evaluation; booleanizing gives the support; witnesses are derivations."""
import math
from mc.xform import *
from mc.syn import T, RS
from semirings import MaxPlus, MinTimes
from mc.props.c20 import OVERLAP

LEVEL = 'model_checking'
RULE = ('every subset of up to 3 rules of the ground alphabet and up to 2 of the nonground one, each rule weighted by a constant at each of its body positions in turn, x data sets x semirings (reals, Boolean, min-plus, max-times, max-plus on acyclic data): '
        'the lifted program is evaluated by every solver, on data lifted beforehand, lifted by the solver and lifted as part of the program, and compared with the reference evaluator over the lifted weights; images under the homomorphisms '
        '(support, -log) are compared; lifting before and after transformations; the witness recorded with each min-plus or max-times answer is expanded and must be a derivation of exactly that weight; state = answer chart')
ASSUMPTIONS = ['data over the constants 1,2,3; weights in (0,1]', 'max-plus only where the program is not recursive on the data', 'weights are nonzero when supports are compared', 'transforming before lifting is compared for the lifts that are multiplicative (Boolean, max-times)']
CASE_LIMIT = 60
MAXP = Ops(MaxPlus)
SEM = dict(float=(None, FLOAT), bool=(Boolean, BOOL), minplus=(MinPlus, MINP), maxtimes=(MaxTimes, MAXT), maxplus=(MaxPlus, MAXP))
W = {'p': 0.5, 'q': 0.25, 'r': 0.75, 's': 0.125, 'b': 0.5, 'c': 0.25, 'd': 0.5, 'g': 0.75, 'h': 0.25}
D = lambda t, i: 0.25 + 0.0625 * i    # (dyadic: sums and products are exact)

def groups(tier):
    deep = tier != 'quick'
    yield 'lift', [(c, d, s, k) for c in subsets(len(GROUND), 3) for d in ('acyclic', 'cycle', 'loop') for s in SEM for k in (0, 1, 2, 3)
                   if (len(c) < 3 or deep or (sum(c) * 5 + len(d) + k) % 9 == 0) and not (s == 'maxplus' and d != 'acyclic')]
    yield 'support', [(a, c, d) for a in ('ground', 'nonground', 'overlap') for c in subsets(len({'ground': GROUND, 'nonground': NONGROUND, 'overlap': OVERLAP}[a]), 3 if deep else 2) for d in ('acyclic', 'loop')]
    yield 'image', [(c, d) for c in subsets(len(GROUND), 3 if deep else 2) for d in ('acyclic', 'cycle', 'loop')]
    yield 'commute', [(a, c, s) for a in ('ground', 'nonground') for c in subsets(len(GROUND if a == 'ground' else NONGROUND), 3 if deep else 2) for s in ('minplus', 'maxtimes', 'bool')]

def weighted(rules, k):
    "each rule carries the constant of its head, at body position k (from the end if the body is shorter); k=3: twice, first and last"
    out = []
    for h, b in rules:
        if k == 3: out.append((h, (W.get(h[0], 0.5), *b, W.get(h[0], 0.5)))); continue
        j = min(k, len(b))
        out.append((h, (*b[:j], W.get(h[0], 0.5), *b[j:])))
    return out

def data(d): return [(t, D(t, i)) for i, t in enumerate(DATASETS[d])]

def reference(rules, pairs, ops):
    lift = lambda x: float(x) if ops.isfloat else ops.cls.lift(x, None)
    rs = [(h, tuple(lift(x) if isinstance(x, (int, float)) else x for x in b)) for h, b in rules] + [(t, (lift(w),)) for t, w in pairs]
    C = Evaluator(rs, ops, max_iter=250, max_items=150).solve()
    if ops.isfloat and any(v > 20 for v in C.values()): raise Unsupported('near-divergent')
    return C

def prog(rules, cls, pairs=(), outputs=None):
    from dyna import Program
    p = Program(text(list(rules) + [(t, (w,)) for t, w in pairs]), inputs=INPUTS if not pairs else '', outputs=outputs)
    return p if cls is None else p.lift_semiring(cls)

def recursive_growth(C): return any(getattr(v, 'score', 0) not in (None,) and abs(float(getattr(v, 'score', 0) or 0)) > 30 for v in C.values())

def solvers(p, dat):
    "ways to evaluate"
    yield 'solver', lambda: p.solver()(dat()).sol()
    yield 'solver2', lambda: p.solver2()(dat()).sol()

def check(group, case, st):
    {'lift': lift, 'support': support, 'image': image, 'commute': commute}[group](case, st)

def lift(case, st):
    from dyna import Program
    c, d, s, k = case
    cls, ops = SEM[s]
    rules = weighted([GROUND[i] for i in c], k); pairs = data(d)
    what = lambda w: f'{w} of {src(rules)} on {text([(t, (x,)) for t, x in pairs])} in {s}'
    want = reference(rules, pairs, ops) if s != 'maxplus' else limited_ref(rules, pairs, ops)
    raw = text([(t, (x,)) for t, x in pairs])
    p = prog(rules, cls)
    before = str(prog(rules, None))
    base = prog(rules, None)
    def cmp(name, sol):
        e = diff(want, answers(sol, ops), ops); st.step()
        require(e is None, lambda: f'{what(name)}: {e}')
    cmp('solver (data lifted by the solver)', p.solver()(raw).sol())
    lifted = Program(raw) if cls is None else Program(raw).lift_semiring(cls)
    cmp('solver (data lifted beforehand)', p.solver()(lifted).sol())
    cmp('solver2', p.solver2()(lifted).sol())
    full = prog(rules, cls, pairs)
    cmp('call (data in the program)', full().sol())
    cmp('naive', full.fc())
    cmp('agenda', full.agenda())
    sum_ = p + lifted
    cmp('call (program + lifted data)', sum_().sol())
    if cls is not None:
        base.lift_semiring(cls)
        require(str(base) == before, lambda: f'{what("lifting")}: the original program changed to {base}')
        decl = lambda x: [None if y is None else sorted(str(z.head) for z in y) for y in (x.inputs, x.outputs)]
        require(p.Semiring is cls and decl(p) == decl(base), lambda: f'{what("lifting")} loses declarations')
    if s in ('minplus', 'maxtimes'):
        witness(full().sol(), rules, pairs, s, ops, what('witness'), st)
        witness(p.solver()(lifted).sol(), rules, pairs, s, ops, what('witness (data loaded)'), st)
    st.trace(); st.state((case, sorted((show(x), ops_key(v)) for x, v in want.items())))

def ops_key(v): return repr(getattr(v, 'cost', getattr(v, 'score', v)))

def limited_ref(rules, pairs, ops):
    rs = [(h, tuple(ops.cls.lift(x, None) if isinstance(x, (int, float)) else x for x in b)) for h, b in rules] + [(t, (ops.cls.lift(w, None),)) for t, w in pairs]
    return Evaluator(rs, ops, max_iter=25, max_items=150).solve()

def leaves(d):
    if d is None or d == () or d == []: return
    if isinstance(d, (tuple, list)) and not hasattr(d, 'fn'):
        for x in d: yield from leaves(x)
    else: yield d

def witness(sol, rules, pairs, s, ops, what, st):
    "the recorded derivation multiplies out to the weight of the answer"
    cost = {show(t): w for t, w in pairs}
    for r in sol:
        [v] = [b for b in r.body]
        acc = 0.0 if s == 'minplus' else 1.0
        for x in leaves(v.d):
            t = from_dyna(x, {})
            w = cost.get(show(t))
            if w is None:
                require(any(h[0] == t[0] for h, _ in rules), lambda: f'{what}: the witness of {r.head} mentions {show(t)}, which carries no weight')
                w = W.get(t[0], 0.5)
            acc = acc + w if s == 'minplus' else acc * w
        val = v.cost if s == 'minplus' else v.score
        require(abs(acc - val) <= 1e-9 * max(1, abs(val)), lambda: f'{what}: {r.head} has weight {val}, but its recorded derivation {v.d} weighs {acc}')
        st.step()

def support(case, st):
    from dyna import Program, InstFault
    a, c, d = case
    rules = ints([{'ground': GROUND, 'nonground': NONGROUND, 'overlap': OVERLAP}[a][i] for i in c])
    pairs = [(t, w) for t, w in data(d)]
    B = Evaluator([(h, tuple(BOOL.one if not isterm(x) and not isv(x) else x for x in b)) for h, b in rules] + [(t, (BOOL.one,)) for t, _ in pairs], BOOL, max_iter=60, max_items=150).solve()
    base = prog(weighted(rules, 1), None, pairs)
    q = base.booleanize()
    what = lambda w: f'{w} of {src(rules)} on {d}'
    require(q.Semiring is Boolean, lambda: what('booleanize') + ': wrong semiring')
    for name, p in (('booleanize', q), ('lift to Boolean', base.lift_semiring(Boolean)), ('booleanize a min-plus program', base.lift_semiring(MinPlus).booleanize()), ('booleanize twice', q.booleanize())):
        for nm, go in (('solver2', lambda: p.solver2()().sol()), ('solver', lambda: p.solver()().sol() if all(not tvars(k) for k in B) else None)):
            try: sol = go()
            except Exception as e:
                if type(e).__name__ in ('InstFault', 'SolverLimitation'): st.count('refused'); continue
                raise
            if sol is None: continue
            e = diff(B, answers(sol, BOOL), BOOL, UNI); st.step()
            require(e is None, lambda: f'{what(name)} ({nm}): {e}')
    st.trace(); st.state((case, sorted(map(show, B))))

def image(case, st):
    c, d = case
    rules = weighted([GROUND[i] for i in c], 0); pairs = data(d)
    charts = {}
    for s in ('bool', 'minplus', 'maxtimes'):
        cls, ops = SEM[s]
        reference(rules, pairs, ops)
        charts[s] = answers(prog(rules, cls, pairs)().sol(), ops)
    what = f'{src(rules)} on {d}'
    for s in ('minplus', 'maxtimes'):
        require(set(charts[s]) == set(charts['bool']), lambda: f'{what}: the Boolean answers {sorted(map(show, charts["bool"]))} are not the support of the {s} answers {sorted(map(show, charts[s]))}')
    # max-times and min-plus are isomorphic by -log
    logs = lambda rs: [(h, tuple(-math.log(x) if isinstance(x, float) else x for x in b)) for h, b in rs]
    m = answers(prog(logs(rules), MinPlus, [(t, -math.log(w)) for t, w in pairs])().sol(), MINP)
    for k, v in charts['maxtimes'].items():
        require(k in m and abs(math.exp(-m[k].cost) - v.score) < 1e-9, lambda: f'{what}: max-times has {show(k)} = {v}, min-plus of -log has {m.get(k)}')
    try: reference(rules, pairs, FLOAT)
    except Unsupported: st.count('float_diverges')
    else:
        f = answers(prog(rules, None, pairs)().sol(), FLOAT)
        require(set(f) == set(charts['bool']), lambda: f'{what}: the Boolean answers are not the support of the real ones')
        for k, v in charts['maxtimes'].items(): require(v.score <= f[k] * (1 + 1e-9), lambda: f'{what}: the best derivation of {show(k)} ({v}) outweighs the total {f[k]}')
    st.step(4); st.trace(); st.state((case, sorted(map(show, m))))

def commute(case, st):
    a, c, s = case
    cls, ops = SEM[s]
    rules = weighted(ints([(GROUND if a == 'ground' else NONGROUND)[i] for i in c]), 1)
    pairs = data('acyclic')
    lift = lambda x: cls.lift(x, None)
    base = [(h, tuple(lift(x) if isinstance(x, float) else x for x in b)) for h, b in rules]
    M = Meaning(base, [[(t, lift(w)) for t, w in pairs]], ops=ops)
    def ev(q, name):
        M.same(rules_of(q), [[(t, lift(w)) for t, w in pairs]], st, lambda: f'{name} of {src(rules)} in {s} gives {list(map(str, q))}')
        st.state((case, name))
    p = prog(rules, None)
    for i, (h, b) in enumerate(rules):
        for j, x in enumerate(b):
            if isterm(x) and x[0] not in BUILTIN and x[0] not in ('n', 'e'):
                try: u = p.unfold(i, j)
                except AssertionError: continue
                inf = any(isinstance(x, float) and math.isinf(x) for _, b in rules_of(u) for x in b)   # (an infinite multiplicity of the reals is not a weight)
                if s != 'minplus' and not inf: ev(u.lift_semiring(cls), f'lift after unfold({i},{j})')   # (real constants multiply; min-plus ones add)
                ev(prog(rules, cls).unfold(i, j), f'unfold({i},{j}) after lift')
    ev(p.binarize().lift_semiring(cls), 'lift after binarize')
    ev(prog(rules, cls).binarize(), 'binarize after lift')
    ev(p.linearize().lift_semiring(cls), 'lift after linearize')
    ev(prog(rules, cls).linearize(), 'linearize after lift')

def answers(sol, ops): return {k: v for k, v in chart_of(sol, ops).items() if not (k if isinstance(k, str) else k[0]).startswith('$gen')}
