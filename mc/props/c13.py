"""C13: eliminating a rule preserves the meaning of all items the rule does not itself derive."""
from mc.xform import *
from mc.props.c11 import ALPHA, BASE, DATA, key, others, v

LEVEL = 'model_checking'
RULE = ('every subset of up to 3 rules of the ground and nonground alphabets, and of a further rule with other local variables and up to 2 nonground rules x every rule eliminated (two in a row for small programs), inputs declared or data inlined; '
        'meaning of every item that is not an instance of the eliminated head compared by the reference evaluator; state = program reached')
ASSUMPTIONS = ['provenance polynomials truncated at degree 6, coefficients saturating at 7',
               'the items derived by the eliminated rule itself are not promised (they may not be outputs)']
CASE_LIMIT = 120

def groups(tier):
    for a, A in BASE.items():
        yield 'once', [(a, c, 0) for c in subsets(len(A), 3)]
        yield 'twice', [(a, c, 0) for c in subsets(len(A), 2 if tier == 'quick' else 3)]
        yield 'facts', [(a, c, d) for c in subsets(len(A), 2 if tier == 'quick' else 3) for d in ('loop', 'cycle')]
        yield 'semirings', [(a, c, s) for s in ('float', 'minplus') for c in subsets(len(A), 2)]
    yield 'once', [('other', c, 0) for c in others(2)]
    if tier != 'quick':
        yield 'once', [(a, c, 0) for a, A in BASE.items() for c in subsets(len(A), 4) if len(c) == 4]

def hidden(M, heads):
    "the charts without the instances of the eliminated heads"
    def keep(C):
        if C is None: return None
        out = {}
        for k, w in C.items():
            if any(mgu(apart(k, '@k'), h, {}) is not None for h in heads):
                if any(match(h, k) is not None for h in heads): continue
                raise Unsupported('entry partly derived by the eliminated rule')
            out[k] = w
        return out
    M.charts = [keep(C) for C in M.charts]
    return keep

def compare(M0, u, heads, datas, ops, st, what):
    for A, pairs in zip(M0.charts, datas):
        if A is None: continue
        try: B = restrict(Evaluator(rules_of(u) + [(t, (w,)) for t, w in pairs], ops, max_iter=250, max_items=600).solve(), SIGS)
        except Unsupported: st.count('after_unsupported'); continue
        uni = UNI
        if all(not tvars(k) for k in list(A) + list(B)): pts = sorted(set(A) | set(B), key=repr)
        else:
            pts = set()
            for f, n in {(k[0], len(k) - 1) for k in list(A) + list(B)}: pts.update((f, *x) for x in product(uni, repeat=n))
            pts |= {k for C in (A, B) for k in C if not tvars(k)}
            pts = sorted(pts, key=repr)
        for g in pts:
            if any(match(h, g) is not None for h in heads): continue
            x, y = value_at(A, g, ops), value_at(B, g, ops)
            require(ops.close(x, y), what(), show(g), ':', x, 'vs', y)
        st.step()
    st.trace()

def check(group, case, st):
    a, c, d = case
    rules = ints([ALPHA[a][i] for i in c])
    ops = PROV
    if group == 'facts':
        datas = [[]]; p = program(rules, inputs='', facts=prov_pairs(d))
    elif group == 'semirings':
        ops = OPS[d]
        datas = [[(t, v(d, i)) for i, (t, _) in enumerate(prov_pairs('acyclic'))]]
        p = program(rules, semiring=None if d == 'float' else ops.cls)
    else:
        datas = [prov_pairs(x) for x in (DATA if group == 'once' else DATA[:2])]
        p = program(rules)
    M = Meaning(rules_of(p), datas, ops)
    st.outcome([sorted((show(k), repr(x)) for k, x in (C or {}).items()) for C in M.charts])
    for i in range(len(p)):
        h = rename(from_dyna(p.rules[i].head))
        u = p.elim(i)
        require(len(u.rules) is not None)
        compare(M, u, [h], datas, ops, st, lambda: f'elim({i}) of {src(rules)} gives {list(map(str, u.rules))}')
        st.state((group, key(u)))
        if group == 'twice' and len(u) <= 8:
            for k in range(len(u)):
                h2 = rename(from_dyna(u.rules[k].head))
                if h2[0] == '?' : continue
                w = u.elim(k)
                if len(w) > 14: st.count('too_long'); continue
                compare(M, w, [h, h2], datas[:1], ops, st, lambda: f'elim({i}) then elim({k}) of {src(rules)} gives {list(map(str, w.rules))}')
                st.state((group, key(w)))
