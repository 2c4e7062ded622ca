"""C17: pruning and specialisation keep the weighted answers of the declared outputs, for every conforming data set."""
from mc.xform import *
from mc.core import limited
from mc.syn import T
from mc.props.c11 import key

LEVEL = 'model_checking'
RULE = ('every subset of up to 2 rules (thorough 3) of the ground, nonground and a structured alphabet x input declarations x output declarations x every pruning/specialising transformation; '
        'outputs compared by the reference evaluator on a data set that labels every admissible input fact over the universe with its own indeterminate, so that every smaller data set is covered as well; state = pruned program')
ASSUMPTIONS = ['provenance polynomials truncated at degree 6, coefficients saturating at 7', 'input facts are ground, over constants 1, 2, f(1)']
CASE_LIMIT = 120

STRUCT = RS('''
p(X) += n(f(X)).
p(f(X)) += p(X) * n(X).
p(1) += n(2).
p(2) += p(1).
q(X,Y) += e(X,Y).
q(X,X) += n(X).
q(f(X),Y) += e(X,Y).
r += q(1,2).
r += q(X,f(Y)) * p(X).
r += p(f(f(X))).
s(X) += q(X,X).
s(1) += q(X,2) * n(X).
s(g(X)) += n(X).
r += s(g(X)) * p(X).
r += s(f(X)).
p(X) += q(X,Y) * p(Y).
q(X,Z) += q(X,Y) * q(Y,Z).
u(X,Y) += p(X) * (X = Y).
r += u(1,2).
r += u(X,2).
p(Y) += n(X) * (Y is X + 1) * (X < 3).
r += p(X) * (X < 1).
s(X) += t(X).
t(X) += t(X) * n(X).
t(X) += s(X) * e(X,X).
t(X) += n(X).
p(X) += p(X) * n(X).
'''.strip())

XSIGS = SIGS | {('t', 1), ('u', 2)}
AL = dict(ground=GROUND, nonground=NONGROUND, struct=STRUCT)
INS = {'gen': 'n(X). e(X,Y).', 'one': 'n(1). e(X,X).', 'fun': 'n(f(X)). e(1,Y). e(X,2).', 'many': 'n(1). n(2). n(f(X)). e(X,1). e(1,Y).', 'non': ''}
FACTS = [('n', 1), ('n', 2), ('n', ('f', 1)), ('e', 1, 1), ('e', 1, 2), ('e', 2, 2), ('e', ('f', 1), 1), ('e', 2, ('f', 1))]
OUTS = ['r.', 'p(X).', 'p(1).', 'p(f(X)).', 'q(X,X).', 'q(1,Y). r.', 's(X).', 's(f(X)). p(2).', 'g.', 'd(X).', 'c(X,1).', 'b(f(X)). h(X,X).', 'c(X,X). d(2).', 'u(X,Y). t(X).']

def groups(tier):
    k = 2 if tier == 'quick' else 3
    for a in AL:
        yield 'inputs', [(a, c, i) for c in subsets(len(AL[a]), k) for i in (['gen'] if a != 'struct' else INS)]
        yield 'inputs', [(a, c, 'gen') for c in subsets(len(AL[a]), 3) if len(c) == 3] if tier == 'quick' and a == 'ground' else []

def variants(p):
    yield 'prune_very_fast', lambda: p.prune_very_fast()
    yield 'prune_fast', lambda: p.prune_fast()
    yield 'prune', lambda: p.prune()
    yield 'prune(specialize=False)', lambda: p.prune(specialize=False)
    yield 'prune_bottom_up', lambda: p.prune_bottom_up()
    yield 'prune(max_depth=2)', lambda: p.prune(max_depth=2)
    yield 'prune_bottom_up(specialize=False,max_depth=1)', lambda: p.prune_bottom_up(specialize=False, max_depth=1)

def related(rules, out):
    "declarations that mention an item of the program"
    hs = {h[0] for h, _ in rules}
    return any(o[0] in hs for o in out)

def check(group, case, st):
    from dyna import Program
    a, c, i = case
    rules = ints([AL[a][j] for j in c])
    decl = [T(x.strip()) for x in INS[i].split('.') if x.strip()]
    data = [(t, Prov.label(show(t))) for t in FACTS if any(match(d, t) is not None for d in decl)]
    if i == 'gen' and a != 'struct': datas = [prov_pairs('dense'), prov_pairs('acyclic')]
    else: datas = [data]
    p = program(rules, inputs=INS[i])
    M = Meaning(rules_of(p), datas, sigs=XSIGS)
    st.outcome([sorted((show(k), repr(x)) for k, x in (C or {}).items()) for C in M.charts])
    grows = any(isterm(x) and (x[0] in ('is', '=') or any(isterm(y) for y in x[1:])) for h, b in rules for x in (h, *b))
    for o in OUTS:
        only = [T(x.strip()) for x in o.split('.') if x.strip()]
        if not related(rules, only): continue
        q = program(rules, inputs=INS[i], outputs=o)
        for name, go in variants(q):
            if grows:
                try: u = limited(2, go)
                except Unsupported: st.count('analysis_diverges'); continue
            else: u = go()
            M.same(rules_of(u), datas, st, lambda: f'{name} of {src(rules)} inputs {INS[i]} outputs {o} gives {list(map(str, u.rules))}', only=only)
            st.state((i, o, key(u)))
            for which, have, want in (('inputs', u.inputs, q.inputs), ('outputs', u.outputs, q.outputs)):
                require(sorted(map(repr, rules_of(have))) == sorted(map(repr, rules_of(want))), f'{name} changes the declared {which}: {have} vs {want}')
