"""C14: the slash (speculation) transformation preserves the original items."""
from itertools import product as iproduct
from mc.xform import *
from mc.syn import T
from mc.props.c11 import ALPHA, DATA, key, others, v

LEVEL = 'model_checking'
RULE = ('every subset of up to 2 (thorough 3) rules of the ground and nonground alphabets, every pair of a nonground rule and a further rule with other local variables, plus all 3-rule subsets of a small recursive alphabet '
        'x every admissible choice of slashed positions x every slashed item; meaning of all original items before and after compared by the reference evaluator; state = transformed program')
ASSUMPTIONS = ['provenance polynomials truncated at degree 6, coefficients saturating at 7']
CASE_LIMIT = 300
METHOD = 'slash'

REC = RS('''
a += n(1).
a += a * n(2).
t(X) += n(X).
t(Y) += t(X) * e(X,Y).
t(Y) += e(X,Y) * t(X).
t(X) += t(Y) * t(Z) * e(Y,X).
a += t(X).
t(X) += a * n(X).
u(X) += t(X) * u(X).
u(X) += n(X) * a.
t(1) += a * a.
a += u(X) * t(X).
t(X) += 2 * t(X) * n(X).
'''.strip())

XSIGS = SIGS | {('a', 0), ('t', 1), ('u', 1)}
OUT = ' '.join(text_term((g, *[V(f'X{i}') for i in range(n)])) + '.' for g, n in sorted(XSIGS) if g not in ('n', 'e'))
AL = dict(ALPHA, rec=REC)

def groups(tier):
    k = 2 if tier == 'quick' else 3
    yield 'all', [(a, c) for a in ('ground', 'nonground') for c in subsets(len(AL[a]), k)]
    yield 'all', [('other', c) for c in others(1 if tier == 'quick' else 2)]
    yield 'rec', [('rec', c) for c in subsets(len(REC), 3 if tier == 'quick' else 4)]

def admissible(p, rules, any_=True):
    "position vectors and divisors (independent of the code under test)"
    items = {}
    for h, b in rules:
        for t in (h, *b):
            if isterm(t) and t[0] not in BUILTIN and (t[0], len(t) - 1) not in {('n', 1), ('e', 2)}: items.setdefault(repr(rename(t)), rename(t))
    xs = list(items.values())
    for f, n in sorted({(t[0], len(t) - 1) for t in xs}):      # the most general item of each predicate
        g = rename((f, *[V(f'X{i}') for i in range(n)]))
        items.setdefault(repr(g), g)
    return list(items.values()) + ([V('X0')] if any_ else [])

def positions(rules, x):
    opts = []
    for h, b in rules:
        o = [None]
        for j, t in enumerate(b):
            if not isterm(t) or t[0] in BUILTIN: continue
            if mgu(apart(x, '@x'), t, {}) is not None and not covers(x, t): continue
            o.append(j)
        opts.append(o)
    return [{i: j for i, j in enumerate(c) if j is not None} for c in iproduct(*opts)]

def transform(p, x, pos):
    return p.slash(to_dyna(x, {}), positions=pos)

def check(group, case, st, transform=transform, positions=positions, name='slash'):
    a, c = case
    rules = ints([AL[a][i] for i in c])
    datas = [prov_pairs('acyclic'), prov_pairs('loop')]
    p = program(rules, outputs=OUT)
    M = Meaning(rules_of(p), datas, sigs=XSIGS)
    st.outcome([sorted((show(k), repr(x)) for k, x in (C or {}).items()) for C in M.charts])
    for x in admissible(p, rules):
        for pos in positions(rules, x):
            u = transform(p, x, pos)
            M.same(rules_of(u), datas, st, lambda: f'{name} {show(x)} at {pos} of {src(rules)} gives {list(map(str, u.rules))}', max_items=800)
            st.state((group, key(u)))
