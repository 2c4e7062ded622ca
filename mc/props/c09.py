"""C09: magic templates and component-by-component solving give exactly the answers of the declared outputs."""
import os
from mc.xform import *
from mc.core import limited
from mc.syn import T
from mc.props.c11 import key
from mc.props.c17 import AL, XSIGS, OUTS, related

LEVEL = 'model_checking'
RULE = ('every subset of up to 2 rules (thorough 3) of the ground, nonground and structured alphabets x output declarations x data sets: the magic-templates program is solved by the reference evaluator over the Booleans, '
        'the component-ordered solver runs on the real code (with and without magic, either forward chainer, data inside or outside the program) in provenance, tropical and Boolean semirings; '
        'answers for the declared outputs compared with the reference fixpoint; state = (program, output, data set, configuration)')
ASSUMPTIONS = ['provenance polynomials truncated at degree 6, coefficients saturating at 7', 'ground data over the constants 1, 2, 3',
               'programs whose unrestricted Boolean pass has no finite fixpoint are run with magic only, and those whose demanded part is infinite are outside the domain']
CASE_LIMIT = 120

# one long chain of components, mutual recursion and demand-bounded programs
CHAIN = RS('''
r += s(X) * p(X).
s(X) += q(X,Y) * s(Y).
s(X) += p(X) * n(X).
p(Y) += q(X,Y) * p(X).
p(X) += n(X).
q(X,Y) += e(X,Y).
q(X,Y) += q(X,Z) * e(Z,Y) * p(Z).
t(X) += t(f(X)) * n(X).
t(f(X)) += n(X) * s(X).
t(f(X)) += t(X).
r += t(1).
u(X,Y) += u(Y,X) * n(X).
u(X,Y) += q(X,X) * p(Y).
u(1,X) += u(X,1) * s(X).
p(X) += u(X,X) * t(X).
r += u(2,X) * u(X,1).
'''.strip())
ALL = dict(AL, chain=CHAIN)

def groups(tier):
    for a in ALL:
        n = len(ALL[a])
        k = 2 if tier == 'quick' else 3
        cs = list(subsets(n, k))
        if a == 'chain' and tier == 'quick': cs += [c for c in subsets(n, 3) if len(c) == 3]
        if a == 'chain' and tier != 'quick': cs += [c for c in subsets(n, 4) if len(c) == 4]
        yield a, [(c, d) for d in ('loop', 'dense') for c in cs]

def bools(datas): return [[(t, OPS['bool'].one) for t, _ in d] for d in datas]

WEIGHTS = {'prov': lambda i, t: Prov.label(show(t)), 'minplus': lambda i, t: MinPlus(1.0 + i), 'bool': lambda i, t: Boolean.one}

def check(group, case, st):
    from dyna.exceptions import InstFault
    c, d = case
    rules = ints([ALL[group][j] for j in c])
    tier2 = len(c) > 2
    compares = any(isterm(x) and x[0] in BUILTIN for h, b in rules for x in b)
    meanings = {}
    quick = os.environ.get('MC_TIER', 'quick') == 'quick'
    for sr in (('prov',) if tier2 or quick and d != 'loop' else ('prov', 'minplus')):
        pairs = [(t, WEIGHTS[sr](i, t)) for i, t in enumerate(DATASETS[d])]
        try: meanings[sr] = (pairs, restrict(Evaluator(rules + [(t, (w,)) for t, w in pairs], OPS[sr], max_iter=250, max_items=150).solve(), XSIGS))
        except Unsupported: pass
    if 'prov' not in meanings: raise Unsupported('no finite meaning')
    support = {k: Boolean.one for k in meanings['prov'][1]}
    bdata = [(t, (Boolean.one,)) for t in DATASETS[d]]
    # items without bound have zero (truncated) weight, but the first, Boolean, pass has to enumerate them
    try: Evaluator(rules + bdata, OPS['bool'], max_iter=250, max_items=300).solve(); finite = True
    except Unsupported: finite = False; st.count('boolean_pass_infinite')
    for o in OUTS:
        only = [T(x.strip()) for x in o.split('.') if x.strip()]
        if not related(rules, only): continue
        p = program(rules, outputs=o)
        # 1. magic templates, solved by the reference evaluator over the Booleans
        m = program(rules, outputs=o, semiring=None).magic_templates()
        mr = [(h, tuple(b for b in body if isv(b) or isterm(b))) for h, body in rules_of(m)]
        try:
            got = restrict(Evaluator(mr + bdata, OPS['bool'], max_iter=250, max_items=600).solve(), XSIGS)
        except Unsupported: st.count('magic_has_no_finite_meaning'); mfinite = False
        else:
            mfinite = True
            e = diff(support, got, OPS['bool'], UNI, only)
            require(e is None, f'magic templates of {src(rules)} outputs {o} on {d}: {e}')
            e = unsound(support, got)
            require(e is None, f'magic templates of {src(rules)} outputs {o} on {d} derive {e}')
            st.step(); st.state(('magic', o, key(m)))
        # 2. the component-ordered solver
        for sr, (pairs, want) in meanings.items():
            ops = OPS[sr]
            q = program(rules, outputs=o, semiring=ops.cls)
            data = facts(pairs, ops, ops.cls)
            for magic in (False, True):
                if not (mfinite if magic else finite): continue
                for solver in (None, 2) if not tier2 and sr == 'prov' else (None,):
                    for inside in (False, True) if sr == 'prov' and solver is None and not tier2 else (False,):
                        if inside: go = lambda: program(rules, outputs=o, semiring=ops.cls, facts=pairs, inputs='').scc_solver(solver=solver, magic=magic)
                        else: go = lambda: q.scc_solver(solver=solver, magic=magic, data=data)
                        try: s = limited(3, go)
                        except Unsupported: st.count('no_answer_in_time'); continue
                        except InstFault:
                            # demand for an unbound argument may put a comparison before what binds it: an explicit refusal, not an answer
                            if magic and compares: st.count('refused_instantiation'); continue
                            raise
                        got = restrict(chart_of(s.sol(), ops), XSIGS)
                        what = f'scc_solver(magic={magic}, solver={solver}, data {"inside" if inside else "outside"}, {sr}) of {src(rules)} outputs {o} on {d}'
                        e = diff(want, got, ops, UNI, only)
                        require(e is None, f'{what}: {e}')
                        st.step(); st.trace(); st.state((group, c, d, o, sr, magic, solver, inside))
    st.outcome(sorted((show(k), repr(v)) for k, v in meanings['prov'][1].items()))

def unsound(support, got):
    "an item the original program does not derive"
    e = None
    for g in got:
        for inst in instances(g):
            if value_at(support, inst, OPS['bool']) == Boolean.zero: return show(inst)

def instances(g):
    from itertools import product
    vs = tvars(g)
    for args in product(UNI, repeat=len(vs)): yield subst(g, dict(zip(vs, args)))
