"""C21: size and running-time estimates bound what forward chaining actually does."""
from itertools import combinations
from mc.xform import *
from mc.core import limited
from mc.syn import T, RS
from mc.props.c19 import AL, TYPES, interpretations, parse, data_of, covered, from_dyna_rule
from mc.props.c20 import unroll, BOOL

LEVEL = 'model_checking'
RULE = ('every subset of up to 2 rules (thorough 3) of the ground, structured and overlapping alphabets x typed input declarations with constraint rules; the symbolic bounds (number of items, answers per query mode of every '
        'inferred type, rule firings) are evaluated for EVERY interpretation of the type parameters over a small domain that satisfies the constraint rules, with the sizes of the parameters in that interpretation, and compared '
        'with the counts of an independent evaluator on the largest conforming data set; rule degrees are compared with a count of variables; state = evaluated bounds')
ASSUMPTIONS = ['domain {1,2} (and {1,2,3} for single rules)', 'firings are unrolled for 6 rounds / 400 items; a count cut off there is a lower bound of the real one',
               'rules with nonground firings are judged by size only if the items are ground', 'rule firings are complete instantiations of the body']
CASE_LIMIT = 300

ALS = ('ground', 'struct', 'overlap')

def groups(tier):
    deep = tier != 'quick'
    for a in ALS:
        yield 'bounds', [(a, c, t, len(c) == 1 and 3 or 2) for c in subsets(len(AL[a]), 3 if deep else 2) for t in TYPES
                         if len(c) == 1 or (len(c) == 2 and (deep or (sum(c) + len(t)) % 4 == 0)) or (len(c) == 3 and t in ('fun', 'disj'))]
    for a in AL: yield 'degree', [(a, c) for c in subsets(len(AL[a]), 3 if deep else 2)]

def value(e, sizes):
    "numeric value of a bound"
    import sympy
    e = getattr(e, 'x', e)
    if e == 0: return 0.0
    e = sympy.sympify(e)
    v = e.subs({s: sizes.get(s.name, 10**6) for s in e.free_symbols})
    return float(v)

def key_of(t, vs, V, x):
    s = match(t, x)
    return tuple(s[v] for v in V)

def check(group, case, st):
    {'bounds': bounds, 'degree': degree}[group](case, st)

def degree(case, st):
    a, c = case
    rules = ints([AL[a][j] for j in c])
    p = program(rules, inputs='n(_). e(_,_).', semiring=None)
    want = [len(tvars(('r', h, *b))) for h, b in rules]
    require(p.degree == max(want, default=0), lambda: f'degree of {src(rules)} is {p.degree}')
    require([float(x) for x in p.degrees()] == sorted(map(float, want), reverse=True), lambda: f'degrees of {src(rules)} are {list(p.degrees())}')
    st.step(); st.trace(); st.state((a, sorted(want)))

def bounds(case, st):
    from dyna import Program
    from dyna.analyze.runtime import Runtime, type_bound, stype_bound
    a, c, t, dom = case; rules = ints([AL[a][j] for j in c])
    types, rw, un, bi = TYPES[t]
    tr = [parse(x) for x in types.split('.') if x.strip()]
    decl = ' '.join(f'{u}(_).' for u in un) + ' '.join(f' {b}(_,_).' for b in bi) + (' (_ < _).' if t == 'less' else '')
    p = program(rules, inputs='n(_). e(_,_).', semiring=None)
    try: S = limited(6, lambda: p.type_analysis(Program(types, inputs=decl, outputs=''), rw))
    except Unsupported: st.count('analysis_diverges'); return
    label = f'{src(rules)} types {types} where {rw}'
    total = S.size()
    rt = []
    for i, r in enumerate(p):
        try: rt.append((limited(20, lambda: S.runtime([r])), limited(20, lambda: S.runtime([r], fast_mode=True))))
        except Unsupported: rt.append(None); st.count('runtime_undecided')
    per = []
    for s in S.chart:
        h, b = from_dyna_rule(s)
        hv = tvars(h)
        env = {}
        R = rule_with(h, b, env)
        for n in range(len(hv) + 1):
            for V in combinations(hv, n):
                per.append((h, b, V, stype_bound(S, R, frozenset(env[v] for v in V), R.body)))
    for I in interpretations(rw, un, bi, dom):
        sizes = {}
        for x in I: sizes[x[0]] = sizes.get(x[0], 0) + 1
        for u in un + bi: sizes.setdefault(u, 0)
        chart, fs = unroll(rules, [(x, BOOL.one) for x in data_of(tr, I)])
        items = list(chart)
        st.step(len(items))
        nonground = any(tvars(x) for x in items)
        if nonground: st.count('nonground_world'); continue
        v = value(total, sizes)
        require(len(items) <= v, lambda: f'{label}: with parameters {sorted(I)} there are {len(items)} items, but the size bound is {v} = {total}')
        for h, b, V, e in per:
            v = value(e, sizes)
            cnt = {}
            for x in items:
                if covered(h, b, x, I): k = key_of(h, None, V, x); cnt[k] = cnt.get(k, 0) + 1
            m = max(cnt.values(), default=0)
            require(m <= v, lambda: f'{label}: with parameters {sorted(I)} type {show(h)} :- {list(map(show, b))} has {m} answers per value of {V}, but the bound is {v} = {e}')
        for i, r in enumerate(rules):
            if rt[i] is None: continue
            f = {tuple(map(repr, x)) for j, x in fs if j == i and not tvars(x)}
            more = any(isterm(x) for x in r[1])
            for mode, e in zip(('', ' (fast mode)'), rt[i]):
                v = value(e, sizes)
                # every complete instantiation is a prefix firing, and so is the empty prefix
                require(len(f) + more <= v, lambda: f'{label}: with parameters {sorted(I)} rule {text_rule(r)} has {len(f) + more} prefix firings, but the running-time bound{mode} is {v} = {e}')
                st.state((case, i, v)); st.count('finite_bound' if v < 1e9 else 'infinite_bound')
        st.trace()

def rule_with(h, b, env):
    from dyna import Rule
    return Rule(to_dyna(h, env), *[to_dyna(x, env) for x in b])
