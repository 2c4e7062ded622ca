"""C23: derivation mappings across transformations are bijections that keep root and weight."""
import os
from itertools import combinations, product
from mc.core import require, Violation, Unsupported, limited
from mc.terms import *
from mc.syn import R, RS, T
from mc.dynaio import text_rule, rule_of
from mc.props import c22
from mc.props.c22 import build, conv, showd, rsize, rheight, leaves, TooMany

LEVEL = 'model_checking'
RULE = ('every program of at most 2 (3) rules over small data sets x every unfold, fold (hook, megafold, basic_fold), chain of an unfold followed by a fold, pair of unfolds of the same program, and every slash / left-corner position map: '
        'every derivation up to a height is mapped; both sides are enumerated independently from the rules of the programs')
ASSUMPTIONS = ['programs with ground derivations', 'slash and left-corner transforms only map forwards (no inverse exists in the code); on programs with finitely many derivations the images are compared with the independent enumeration']
CASE_LIMIT = 200
H = 4
LIMIT = 60

RULES = RS('''
p(X) += n(X)
p(X) += 0.5 * n(X)
p(Y) += p(X) * e(X,Y)
p(Y) += e(X,Y) * p(X)
r += p(X) * 0.25
r += p(X) * p(Y)
q(X,Y) += e(X,Y)
q(X,Z) += q(X,Y) * q(Y,Z)
r += p(X) * q(X,Y) * p(Y)
r += s * 0.5 * p(2)
s += p(1)
s += n(X) * n(Y)
r += r * s
p(1) += s
s += e(X,Y) * p(Y)
p(2) += 8
'''.replace('\n', '.\n'))
DATA = {
    'small': [('n(1)', 2), ('e(1,2)', 3)],
    'wide': [('n(1)', 2), ('n(2)', 5), ('e(1,2)', 3)],
    'cycle': [('n(1)', 2), ('e(1,2)', 3), ('e(2,1)', 7)],
}
NAMES = list(DATA)
QUICK3 = [0, 2, 5, 6, 7, 8, 9, 10, 13]

def groups(tier):
    n = len(RULES)
    sets = [c for k in (1, 2) for c in combinations(range(n), k)] + list(combinations(QUICK3 if tier != 'thorough' else range(n), 3))
    for g in ('unfold', 'fold', 'chain', 'slash', 'lct'):
        yield g, [(c, d) for c in sets for d in (range(len(NAMES)) if tier == 'thorough' or g == 'unfold' else [1] if g in ('fold', 'chain') else [0])]
    yield 'reversible', [(k, sw, m, x) for k in (1, 2, 3) for sw in (0, 1) for m in range(1, k + 1) for x in range(3)]
    yield 'duplicates', [(c, 0) for c in combinations(range(n), 2)]

def check(group, case, st):
    {'unfold': unfold, 'fold': fold, 'chain': chain, 'slash': slash, 'lct': lct, 'duplicates': duplicates, 'reversible': reversible}[group](case, st)

def make(case, dup=False):
    from dyna import Program, Rule
    idx, d = case
    rules = [RULES[i] for i in idx]
    if dup: rules = rules + [rules[0]]
    rules += [(T(t), (w,)) for t, w in DATA[NAMES[d]]]
    p = Program([Rule(*[to_dyna(x, env) for env in [{}] for x in (h, *b)]) for h, b in rules], inputs='', outputs='r. p(X). s. q(X,Y).')
    return p.reset_transform_history()

def prog_rules(p):
    out = []
    for r in p: out.append(rule_of(r))
    return out

def trees(p, h=H):
    "(trees up to height h, are these all?)"
    got = ([], False)
    try:
        for k, done, new in build(prog_rules(p), h, LIMIT): got = (list(done), not new)
    except TooMany: pass
    return got

def showp(p): return ' '.join(text_rule(r) for r in prog_rules(p))

def valid(p, t, what):
    "is the canonical tree a derivation of p?"
    rs = prog_rules(p)
    def go(t):
        if t[0] != 'D': return
        i = t[1]
        require(isinstance(i, int) and 0 <= i < len(rs), lambda: f'{what()}: no rule {i}')
        h, b = rs[i]
        inst = ('r', t[2], *[c[2] if c[0] == 'D' else c[1] for c in t[3:]])
        require(len(b) == len(t) - 3 and match(('r', h, *b), inst) is not None, lambda: f'{what()}: {showd(t)} is not an instance of rule {i}: {text_rule(rs[i])}')
        for c, g in zip(t[3:], b):
            require((c[0] == 'D') == (isterm(g) and g[0] not in c22.BUILTINS and g[0] != '$not_matches'), lambda: f'{what()}: child {c} for the subgoal {show(g)}')
            go(c)
    go(t)

def weight(t):
    w = 1
    for v in leaves(t): w *= v
    return w

def derivs(p, ts):
    "the code's own derivation objects for the trees"
    def mk(t):
        return p.d(t[1])(to_dyna(t[2], {}), *[mk(c) if c[0] == 'D' else c[1] for c in t[3:]])
    return [mk(t) for t in ts]

def both(p, q, st, what, trip=True):
    "p -> q and q -> p are mutually inverse and keep root and weight"
    for a, b, dirn in ((p, q, 'forwards'), (q, p, 'backwards')):
        ts, allp = trees(a)
        ts = [t for t in ts if len(t) < 40]
        tb, allb = trees(b)
        known = set(tb)
        images = {}
        for t, d in zip(ts, derivs(a, ts)):
            w = lambda: f'{what()} [{dirn}] {showd(t)}   from: {showp(a)}   to: {showp(b)}'
            require(conv(d) == t, 'construction of', w)
            f = a.Transform(d, b)
            u = conv(f)
            valid(b, u, w)
            require(u[2] == t[2], lambda: f'{w()}: root item becomes {show(u[2])}')
            require(abs(weight(u) - weight(t)) < 1e-9 * max(1, abs(weight(t))), lambda: f'{w()}: weight {weight(t)} becomes {weight(u)} in {showd(u)}')
            if u in images: raise Violation(f'{w()}: same image {showd(u)} as {showd(images[u])}')
            images[u] = t
            if rheight(u) <= (H if not allb else 99) and tb and rheight(u) <= max(map(rheight, tb)): require(u in known, lambda: f'{w()}: image {showd(u)} is not a derivation')
            back = conv(b.Transform(f, a))
            require(not trip or same_up_to_copies(a, back, t), lambda: f'{w()}: maps to {showd(u)} and back to {showd(back)}')
            st.step()
        st.state((showp(a), showp(b), dirn))
        if allp and allb:
            for u in tb: require(u in images, lambda: f'{what()} [{dirn}]: nothing maps to {showd(u)}   from: {showp(a)}   to: {showp(b)}')
    st.trace()

def same_up_to_copies(p, t, u):
    "equal, except that rules of which the program has several copies may be swapped"
    if t == u: return True
    rs = [rename(('r', h, *b)) for h, b in prog_rules(p)]
    def go(t): return ('D', rs.index(rs[t[1]]), t[2], *map(go, t[3:])) if t[0] == 'D' else t
    return go(t) == go(u)

def unfold(case, st):
    p = make(case)
    for i, j in unfolds_of(p, case):
        q = p.unfold(i, j)
        if list(q.new2def.values()) == []: st.count('empty_unfold')
        both(p, q, st, lambda: f'unfold({i},{j})')

def unfolds_of(p, case):
    for i in range(len(case[0])):
        for j, x in enumerate(p.rules[i].body):
            if not p.is_const(x) and not p.is_builtin(x): yield i, j

def fold(case, st):
    p = make(case)
    k = len(case[0])
    for i in range(k):
        n = len(p.rules[i].body)
        for m in (1, 2):
            for js in combinations(range(n), m):
                if m == n and m == 1: continue
                try: q = p.hook(i, list(js))
                except ValueError: st.count('refused'); continue
                except AssertionError: st.count('refused'); continue
                st.count('hook')
                both(q.parent, q, st, lambda: f'hook({i},{js})')
    try: qs = list(p.megafolds())
    except AssertionError: qs = []
    for q in qs:
        st.count('megafold')
        both(p, q, st, lambda: f'megafold {q.name}')

def chain(case, st):
    p = make(case)
    first = []
    for i, j in unfolds_of(p, case):
        u = p.unfold(i, j)
        if not u.safe_by_smt: st.count('unsafe'); continue
        first.append(((i, j), u))
        for v in u.megafolds(p):
            st.count('unfold_fold')
            both(p, v, st, lambda: f'unfold({i},{j}), then {v.name}')
            both(u, v, st, lambda: f'unfold({i},{j}), then {v.name} (from the unfolded program)')
    for (a, u), (b, v) in combinations(first, 2):
        st.count('siblings')
        both(u, v, st, lambda: f'unfold{a} to unfold{b} of the same program')

def forwards(p, q, st, what):
    ts, allp = trees(p)
    if not ts: raise Unsupported('too many')
    tq, allq = trees(q, 12) if allp else ([], False)
    images = {}
    for t, d in zip(ts, derivs(p, ts)):
        w = lambda: f'{what()} {showd(t)}   from: {showp(p)}   to: {showp(q)}'
        f = q.transform(d)
        u = conv(f)
        valid(q, u, w)
        require(u[2] == t[2], lambda: f'{w()}: root item becomes {show(u[2])}')
        require(abs(weight(u) - weight(t)) < 1e-9 * max(1, abs(weight(t))), lambda: f'{w()}: weight {weight(t)} becomes {weight(u)} in {showd(u)}')
        if u in images: raise Violation(f'{w()}: same image {showd(u)} as {showd(images[u])}')
        images[u] = t
        st.step()
    if allp and allq:
        heads = {h[0] for h, _ in prog_rules(p)}
        st.count('complete')
        for u in tq:
            if u[2][0] in heads: require(u in images, lambda: f'{what()}: nothing maps to {showd(u)}   from: {showp(p)}   to: {showp(q)}')
        for u in images: require(u in tq, lambda: f'{what()}: {showd(u)} is not enumerated   to: {showp(q)}')
    st.state((showp(q), what()))
    st.trace()

def positions(p, k):
    opts = [[None] + list(range(len(p.rules[i].body))) for i in range(k)]
    for c in product(*opts): yield {i: j for i, j in enumerate(c) if j is not None}

def slash(case, st):
    p = make(case)
    for pos in positions(p, len(case[0])):
        for x in ('X', 'p(X)', 'n(X)', 's', 'zz'):
            try: q = p.slash(x, pos)
            except AssertionError: st.count('refused'); continue
            forwards(p, q, st, lambda: f'slash({x}, {pos})')

def lct(case, st):
    p = make(case)
    for pos in positions(p, len(case[0])):
        for x in ('X', 'p(X)', 's'):
            try: q = p.lct(pos, x=x)
            except AssertionError: st.count('refused'); continue
            forwards(p, q, st, lambda: f'lct({pos}, {x})')

def duplicates(case, st):
    "rules that occur twice: unfolding a copy may map it to the other copy, but distinct derivations stay distinct"
    p = make(case, dup=True)
    for i, j in [*unfolds_of(p, case), *[(2, j) for j, x in enumerate(p.rules[2].body) if not p.is_const(x)]]:
        q = p.unfold(i, j)
        both(p, q, st, lambda: f'unfold({i},{j})', trip=i not in (0, 2))

# programs equivalent to x += b | a*x, with every fold by a rule x += a^m * x (any set of rules replaced, either side)
def reversible(case, st):
    from dyna import Program
    k, swap, m, extra = case
    A = lambda n, y: ' * '.join(['a'] * n + [y] if not swap else [y] + ['a'] * n)
    src = ''.join(f'x += {A(i, "b")}.\n' for i in range(k)) + f'x += {A(k, "x")}.\n' + ['', 'y += x * c.\n', 'b += c.\n'][extra]
    p = Program(src + 'a += 2. a += 3. b += 5. c += 7.', inputs='', outputs='x. y.').reset_transform_history()
    n = k + 1
    for S in [c for r in range(1, n + 1) for c in combinations(range(n), r)]:
        for y in ('x', 'b'):
            j = m if not swap else 0
            try: q = p.basic_fold(r=f'x += {A(m, y)}.', S=set(S), j=j)
            except (ValueError, AssertionError): st.count('refused'); continue
            st.count('reversible' if not q.partially_safe else 'basic')
            both(p, q, st, lambda: f'basic_fold(x += {A(m, y)}, S={S}, j={j})')

def describe(group, case):
    if group == 'reversible': return f'{case}'
    idx, d = case
    return f'{" ".join(text_rule(RULES[i]) for i in idx)}  data {NAMES[d]}'
