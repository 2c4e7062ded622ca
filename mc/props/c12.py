"""C12: accepted folds preserve the weighted meaning; unsafe ones are refused."""
from mc.xform import *
from mc.props.c11 import key

LEVEL = 'model_checking'
RULE = ('explicit-state search over transformation histories: from every subset of up to 2 (thorough 3) rules of an alphabet rich in common bodies, with and without a newly '
        'introduced definition, every unfold, megafold and reversible fold against every program of the history, to depth 2 or 3; the same after a transformation of another kind (left-corner, slash, linearize, binarize, renaming, one without a measure); every state the '
        'safety checks accept is compared with the start by the reference evaluator; state = program reached')
ASSUMPTIONS = ['provenance polynomials truncated at degree 6, coefficients saturating at 7']
CASE_LIMIT = 300

ALPHA = RS('''
p(X) += n(X).
p(Y) += p(X) * e(X,Y).
p(X) += e(X,Y) * n(Y).
q(X,Y) += e(X,Y).
q(X,Z) += q(X,Y) * q(Y,Z).
q(X,Z) += e(X,Y) * e(Y,Z).
q(X,Z) += e(X,Y) * q(Y,Z).
r += n(X) * n(Y).
r += e(X,Y) * e(Y,Z) * n(Z).
r += p(X) * p(X).
s(X) += n(X).
s(X) += e(X,Y) * n(Y).
s(Y) += s(X) * e(X,Y).
s(X) += q(X,Y) * n(Y).
r += r * n(1).
p(1) += r.
d(X) += n(Y).
r += n(X) * n(Y) * e(X,Z).
t += n(X).
s(Y) += e(X,Y).
'''.strip())

def groups(tier):
    k = 2 if tier == 'quick' else 3
    yield 'history', [(c, 3 if len(c) < 3 else 2) for c in subsets(len(ALPHA), 3)]
    yield 'define', [(c, 2 if tier == 'quick' else 3) for c in subsets(len(ALPHA), 2)]
    yield 'define', [(c, 1) for c in subsets(len(ALPHA), k) if len(c) == 3]
    yield 'foreign', [(c, 2) for c in subsets(len(ALPHA), 2 if tier == 'quick' else 3)]
    yield 'rule', [(i, j) for i in range(len(ALPHA + RULES)) for j in range(len(ALPHA + RULES))]
    if tier != 'quick': yield 'history', [(c, 4) for c in subsets(len(ALPHA), 2)]

# further rules for the rule-level folds: several subgoals, hidden and shared variables, structure, repeated subgoals
RULES = RS('''
r += n(X) * n(1) * e(X,Y).
s(X) += n(X) * e(Y,Z) * n(Y).
s(Z) += e(X,Y) * e(Y,Z) * n(Y).
s(Z) += e(X,Y) * n(1) * e(Y,Z).
q(X,Z) += e(X,Y) * e(Y,Z) * n(X).
r += e(X,Y) * n(X) * e(Y,Z) * n(Z).
s(f(X)) += n(f(X)) * n(X).
r += n(f(X)) * n(X) * n(Y).
s(X) += e(X,X).
q(X,Y) += e(X,Y) * e(Y,X).
r += e(X,X) * n(Y).
d(Y) += n(X).
q(Y,X) += n(X) * n(X).
r += n(X) * n(X) * n(X).
s(1) += n(1) * e(1,X).
'''.strip())
FACTS = [('n', 1), ('n', 2), ('n', ('f', 1)), ('e', 1, 2), ('e', 2, 1), ('e', 1, 1), ('p', 1), ('p', 2), ('q', 1, 2), ('q', 2, 2), ('r',), ('s', 1)]

def rule_folds(case, st):
    "every proposed fold of one rule by another keeps its meaning, the folder being the complete definition of its head"
    from dyna import Program
    A = ALPHA + RULES
    r, s = (program(ints([A[i]])).rules[0] for i in case)
    (rh, rb), (sh, sb) = rule_of(r), rule_of(s)
    datas = [[(t, Prov.label(show(t))) for t in FACTS]]
    sigs = {('whole', len(rh) - 1)}
    # `folds_by` only proposes: it may bind a variable that the folder hides, or identify it with another (such proposals
    # are for the caller to verify, and the program-level folds above do so)
    if set(tvars(('r', *sb))) - set(tvars(sh)) and any(not isv(a) or a in b[1:i] for b in rb for i, a in enumerate(b) if i): st.count('hidden_variable_bound'); return
    whole = ('whole', *rh[1:]); part = (('part', *sh[1:]), sb)
    M = Meaning([(whole, rb), part], datas, sigs=sigs)
    for t in sorted(r.folds_by(s), key=str):
        th, tb = rule_of(t)
        require(th == rh or rename(th) == rename(rh), f'folding {r} by {s} gives {t}')
        require(tb[t.j][0] == sh[0] and len(tb[t.j]) == len(sh), f'folding {r} by {s} gives {t}: not its subgoal')
        tb = tuple(('part', *b[1:]) if k == t.j else b for k, b in enumerate(tb))
        M.same([(('whole', *th[1:]), tb), part], datas, st, lambda: f'folding {r} by {s} gives {t}', sigs=sigs, must=True)
        st.state(('rule', case, repr(rename(('r', th, *tb)))))
        st.count('rule_folds')

def definitions(p):
    "every definition obtained by absorbing some of the subgoals of a rule, and every rule under a new name"
    from dyna import Program
    seen = set()
    for i, r in enumerate(p):
        for m in range(1, len(r.body) + 1):
            for js in combinations(range(len(r.body)), m):
                t = p.loop_absorption(i, list(js))
                k = repr(rename(('r', *[x for x in (lambda h, b: (h, *b))(*rule_of(t))])))
                if k in seen: continue
                seen.add(k)
                yield i, js, t

def steps(s):
    "(kind, thunk) of every transformation step from s"
    line = []
    for x in [s, *s.lineage()]:
        if not any(x is y for y in line): line.append(x)
    for i, r in enumerate(s.rules):
        for j, b in enumerate(r.body):
            if not s.safe_inline(b) or s.is_builtin(b): continue
            for D in (None, *line[1:]):
                yield ('unfold', i, j), (lambda i=i, j=j, D=D: [s.unfold(i, j, defs=D)])
    for D in line:
        yield ('fold', line.index(D)), (lambda D=D: list(s.partial_megafolds(defs=D)))
        yield ('rev', line.index(D)), (lambda D=D: list(s.reversible_megafolds(defs=D)))

def foreign(s):
    "transformations of other kinds, which a history of unfolds and folds may contain"
    from mc.props.c14 import positions
    yield ('fresh',), lambda: s.fresh()
    yield ('linearize',), lambda: s.linearize()
    yield ('binarize',), lambda: s.binarize()
    yield ('reverse',), lambda: reverse(s)
    rules = rules_of(s)
    for x in sorted({repr(h): (h[0], *[V(f'X{i}') for i in range(len(h) - 1)]) for h, _ in rules}.values()):
        for pos in positions(rules, x)[1:4]:
            yield ('slash', show(x), pos), (lambda x=x, pos=pos: s.slash(to_dyna(x, {}), positions=pos))
            yield ('lct', show(x), pos), (lambda x=x, pos=pos: s.lct(positions=pos, x=to_dyna(x, {})))

def reverse(s):
    "a transformation without a measure of its own"
    from dyna.program import TransformedProgram
    return TransformedProgram('reverse', s, list(s.rules)[::-1])

def accepted(kind, u):
    "by which criteria the step's result is accepted"
    acc = []
    if kind == 'rev':
        if u.safe_by_rev: acc.append('reversible')
        if not u.partially_safe: return acc
    if u.safe_by_smt: acc.append('smt')
    if u.safe_by_unit: acc.append('unit')
    return acc

def check(group, case, st):
    if group == 'rule': return rule_folds(case, st)
    c, depth = case
    rules = ints([ALPHA[i] for i in c])
    datas = [prov_pairs('acyclic'), prov_pairs('loop')]
    p = program(rules)
    M = Meaning(rules_of(p), datas)
    st.outcome([sorted((show(k), repr(x)) for k, x in (C or {}).items()) for C in M.charts])
    seen = {}
    def visit(s, d, path):
        if d == 0: return
        for kind, go in steps(s):
            for u in go():
                if len(u) > 9: st.count('too_long'); continue
                acc = accepted(kind[0], u)
                for a in acc: st.count(f'accepted_{a}')
                if not acc: st.count('refused'); continue
                what = lambda: f'{path + [kind]} of {src(rules)} gives {list(map(str, u.rules))}, accepted by {acc}'
                k = tuple(key(u))
                st.state(k)
                if k not in seen:
                    M.same(rules_of(u), datas, st, what)
                    seen[k] = 1
                if acc == ['reversible']: u = u.reset_transform_history()
                visit(u, d - 1, path + [kind])
    if group == 'foreign':
        starts = [([], p)] + [([k], u) for k, go in steps(p) for u in go() if accepted(k[0], u) not in ([], ['reversible'])]
        for path, s in starts:
            for k, go in foreign(s):
                try: u = go()
                except AssertionError: st.count('foreign_refused'); continue
                if len(u) > 9: st.count('too_long'); continue
                visit(u, depth if not path else 1, path + [k])
    elif group in ('history', 'deep'):
        visit(p, depth, [])
    else:
        for i, js, t in definitions(p):
            u = p.define([t])
            M.same(rules_of(u), datas, st, lambda: f'define {t} in {src(rules)}')
            require(u.safe_by_smt and u.safe_by_unit, f'introducing {t} in {src(rules)} is refused')
            folds = [w for w in u.partial_megafolds(defs=u)] + [w for w in u.reversible_megafolds(defs=u)]
            ok = any(accepted('rev', w) for w in folds)
            require(ok, f'no fold of {src(rules)} by the new definition {t} is accepted')
            visit(u, depth, [('define', str(t))])
