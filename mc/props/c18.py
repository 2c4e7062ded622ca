"""C18: abbreviation by inferred types preserves every original item, for every conforming data set."""
from mc.xform import *
from mc.core import limited
from mc.props.c11 import key
from mc.props.c17 import AL, XSIGS, INS, FACTS
from mc.syn import T

LEVEL = 'model_checking'
RULE = ('every subset of up to 2 rules (thorough 3) of the ground, nonground and structured alphabets x input declarations, abbreviated with the inferred types (both analysis modes, '
        'two depth limits) wherever they are disjoint; all original items compared by the reference evaluator on a data set that labels every admissible input fact with its own indeterminate; state = abbreviated program')
ASSUMPTIONS = ['provenance polynomials truncated at degree 6, coefficients saturating at 7', 'input facts are ground, over constants 1, 2, f(1)',
               'programs whose inferred types overlap are outside the domain (the transformation refuses them)']
CASE_LIMIT = 120

def groups(tier):
    k = 2 if tier == 'quick' else 3
    for a in AL:
        yield 'inputs', [(a, c, i) for c in subsets(len(AL[a]), k) for i in (['gen'] if a != 'struct' else INS)]
        yield 'facts', [(a, c, '') for c in subsets(len(AL[a]), k)]

MODES = [dict(), dict(max_depth=1), dict(basic=False), dict(max_depth=2)]

def check(group, case, st):
    a, c, i = case
    rules = ints([AL[a][j] for j in c])
    if group == 'facts':      # the weighted data is part of the program
        pairs = [(t, Prov.label(show(t))) for t in FACTS[:4]]
        return run(case, rules, program(rules, inputs='', outputs='r.', facts=pairs), [[]], '(none), facts ' + ' '.join(show(t) for t, _ in pairs), st)
    decl = [T(x.strip()) for x in INS[i].split('.') if x.strip()]
    datas = [[(t, Prov.label(show(t))) for t in FACTS if any(match(d, t) is not None for d in decl)]] if a == 'struct' else [prov_pairs('dense'), prov_pairs('acyclic')]
    run(case, rules, program(rules, inputs=INS[i], outputs='r.'), datas, INS[i], st)

def run(case, rules, p, datas, ins, st):
    a, c, i = case
    M = Meaning(rules_of(p), datas, sigs=XSIGS)
    st.outcome([sorted((show(k), repr(x)) for k, x in (C or {}).items()) for C in M.charts])
    grows = any(isterm(x) and (x[0] in ('is', '=') or any(isterm(y) for y in x[1:])) for h, b in rules for x in (h, *b))
    for m in MODES:
        if m.get('basic') is False and len(c) > 1 and grows: continue
        go = lambda: p.type_analysis(**m)
        if grows or m.get('basic') is False:
            try: t = limited(2, go)
            except Unsupported: st.count('analysis_diverges'); continue
        else: t = go()
        if not t.is_disjoint(): st.count('overlapping_types'); continue
        u = p.abbreviate(types=t)
        M.same(rules_of(u), datas, st, lambda: f'abbreviate (types {m}) of {src(rules)} inputs {ins} gives {list(map(str, u.rules))}', aux=True)
        decl = lambda q: [sorted((x.head.fn, len(x.head.args)) for x in y) for y in (q.inputs, q.outputs)]
        require(decl(u) == decl(p), lambda: f'abbreviate (types {m}) of {src(rules)} inputs {ins}: declared inputs and outputs {decl(p)} become {decl(u)}')
        v = u.prune_fast()
        M.same(rules_of(v), datas, st, lambda: f'prune_fast after abbreviate (types {m}) of {src(rules)} inputs {ins} gives {list(map(str, v.rules))}', aux=True, sigs={('r', 0)})
        st.state((i, key(u)))
