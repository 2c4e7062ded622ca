"""C16: normalising rewrites preserve the weighted meaning and reach the normal form they promise."""
from mc.xform import *
from mc.syn import T
from mc.props.c11 import key

LEVEL = 'model_checking'
RULE = ('every subset of up to 2 rules (thorough 3) of the ground, nonground and an equation/arithmetic/constant-rich alphabet x every rewrite (define, hook on every rule and subgoal set, '
        'binarize, linearize with and without driver, constant folding, snapping and normalising equations, running builtins, renaming, sorting) and every pair of rewrites; '
        'meaning compared by the reference evaluator, normal forms checked syntactically; state = program reached')
ASSUMPTIONS = ['provenance polynomials truncated at degree 6, coefficients saturating at 7']
CASE_LIMIT = 120

MISC = RS('''
p(X) += 2 * n(X) * 3.
p(X) += n(X) * 0.
p(Y) += n(Y) * 2.
p(X) += n(Y) * (X = Y).
s(f(X)) += n(X).
q(X,Y) += e(X,Y) * (X = 1).
q(X,Y) += e(Y,X) * (Y < X) * (X < 3).
p(Z) += n(X) * (Z is X + 1).
r += (1 < 2) * n(X).
r += (2 < 1) * n(X).
r += (f(X) = f(1)) * n(X).
r += (f(X) = g(1)) * n(X).
r += (X = Y) * e(X,Y) * 3.
r += (Z is 1 + 1) * n(Z).
r += (X = Y).
r += (X = f(Y)) * n(1).
s(X) += (X = f(Y)) * n(Y).
c(X,Y) += (X = Y).
c(X,f(Y)) += (X = Y) * n(1).
r += 2.
r.
q(X,X) += n(X) * n(X).
q(X,Z) += e(X,Y) * e(Y,Z) * e(X,Z).
q(X,Y) += 2 * e(X,Y) * e(Y,X).
q(B,A) += e(A,B) * e(B,A).
q(X,f(Y)) += s(f(X)) * q(Y,f(X)).
q(1,X) += q(X,X) * q(f(1),Y) * n(Y) * n(X).
r += q(X,f(Y)) * (Y = X).
d(X).
r += d(X) * (X = Y) * (Y = 2).
d(X) += (Y is 1 + 1) * (X = f(Y)).
p(X) += (X = f(X)) * n(1).
p(X) += n(X) * (X != 1) * (2 != 1).
r += n(X) * (Y is X + 1) * e(X,Y).
r += n(X) * (X = Y) * (Z is Y + 1) * (Z < 3).
q(X,Y) += n(X) * e(Y,X).
q(X,Y) += n(Y) * e(Y,X).
r += n(X) * e(X,Y).
r += n(X) * e(Y,X).
r += n(X) * e(Y,Z).
s(f(X)) += n(Y).
'''.strip())

AL = dict(ground=GROUND, nonground=NONGROUND, misc=MISC)

def groups(tier):
    k = 2 if tier == 'quick' else 3
    yield 'one', [(a, c) for a in AL for c in subsets(len(AL[a]), k)]
    yield 'two', [(a, c) for a in AL for c in subsets(len(AL[a]), 1 if tier == 'quick' else 2)]
    yield 'semirings', [('misc', c, s) for s in ('float', 'minplus') for c in subsets(len(MISC), 2)]

def nonbuiltin(bs): return [b for b in bs if isterm(b) and b[0] not in BUILTIN]

def rewrites(p, rules):
    "(name, thunk, items left out, normal-form predicate)"
    def binary(u): return all(len(b) <= 2 for _, b in rules_of(u))
    def linear(u):
        return all(mgu(apart(x, '@'), y, {}) is None for _, b in rules_of(u) for x, y in combinations(nonbuiltin(b), 2))
    def nl(drv):
        def f(u): return all(sum(mgu(apart(drv, '@'), x, {}) is not None for x in nonbuiltin(b)) <= 1 for _, b in rules_of(u))
        return f
    def folded(u):
        seen = set()
        for h, b in rules_of(u):
            cs = [x for x in b if not isv(x) and not isterm(x)]
            if len(cs) > 1: return False
            k = repr(rename(('r', h, *[x for x in b if isv(x) or isterm(x)])))
            if k in seen: return False
            seen.add(k)
        return True
    def noeq(u): return not any(isterm(x) and x[0] == '=' for _, b in rules_of(u) for x in b)
    def flat(u):
        for h, b in rules_of(u):
            if not all(isv(a) for a in h[1:]): return False
            for y in b:
                if not isterm(y): continue
                if y[0] == '=':
                    if not (isv(y[1]) and (not isterm(y[2]) or all(isv(a) for a in y[2][1:]))): return False
                elif not all(isv(a) for a in y[1:]): return False
        return True
    def run(u):     # no builtin is left that could run
        for h, b in rules_of(u):
            for y in b:
                if isterm(y) and y[0] in BUILTIN:
                    try: builtin(y, {})
                    except Stuck: continue
                    return False
        return True
    heads = {}
    for h, b in rules:
        for t in (h, *b):
            if isterm(t) and t[0] not in BUILTIN: heads.setdefault(repr(rename(t)), rename(t))
    yield 'constant_folding', lambda: p.constant_folding(), folded
    yield 'snap_unifications', lambda: p.snap_unifications(), noeq
    has_is = any(isterm(x) and x[0] in BUILTIN - {'='} for _, b in rules for x in b)
    if not has_is: yield 'normalize_unification2', lambda: p.normalize_unification2(), flat
    yield 'run_builtins', lambda: p.run_builtins(), run
    yield 'binarize', lambda: p.binarize(), binary
    yield 'linearize', lambda: p.linearize(), linear
    for t in heads.values(): yield f'linearize[{show(t)}]', lambda t=t: p.linearize(driver=to_dyna(t, {})), nl(t)
    yield 'fresh', lambda: p.fresh(), None
    yield 'sort', lambda: p.sort(), None
    yield 'spawn', lambda: p.spawn(list(p.rules)), None
    for i, r in enumerate(p.rules):
        for m in range(1, len(r.body) + 1):
            for js in combinations(range(len(r.body)), m):
                yield f'hook({i},{js})', lambda i=i, js=js: p.hook(i, list(js)), None
    yield 'define', lambda: p.define('zz(X,Y) += e(X,Y) * n(X). zz(1,1).'), None

def check(group, case, st):
    a, c, *sr = case
    rules = ints([AL[a][i] for i in c])
    if group == 'semirings':
        from mc.props.c11 import v
        ops = OPS[sr[0]]
        datas = [[(t, v(sr[0], i)) for i, (t, _) in enumerate(prov_pairs('dense'))]]
        p = program(rules, semiring=None if sr[0] == 'float' else ops.cls)
    else:
        ops = PROV
        datas = [prov_pairs('dense'), prov_pairs('acyclic')]
        p = program(rules)
    M = Meaning(rules_of(p), datas, ops)
    st.outcome([sorted((show(k), repr(x)) for k, x in (C or {}).items()) for C in M.charts])
    def visit(p, rules, depth, path):
        for name, go, nf in rewrites(p, rules):
            u = go()
            what = lambda: f'{path + [name]} of {src(rules0)} gives {list(map(str, u.rules))}'
            M.same(rules_of(u), datas, st, what, aux=True)
            if nf is not None: require(nf(u), what(), '- not in normal form')
            st.state((group, key(u)))
            if depth > 1 and len(u) <= 10: visit(u, rules_of(u), depth - 1, path + [name])
    rules0 = rules
    visit(p, rules_of(p), 2 if group == 'two' else 1, [])
