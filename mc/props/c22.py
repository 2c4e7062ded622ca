"""C22: derivation enumeration yields each derivation exactly once."""
import os
from itertools import combinations, combinations_with_replacement, permutations, product, islice
from mc.core import require, Violation, Unsupported
from mc.terms import *
from mc.syn import R, RS, T
from mc.ref import Evaluator, value_at, builtin, Stuck
from mc.sr import OPS
from mc.dynaio import text, text_rule

LEVEL = 'model_checking'
RULE = ('every multiset of at most 2 rules (3 in the thorough tier and for a core of the alphabet) over every data set: all derivation trees up to a height are constructed independently from the rules; '
        'naive, semi-naive, agenda and top-down enumeration must produce exactly these, each once, for every height bound and query; their measures and values, and the sum of values against the evaluator; every ordering of the children rebuilt through p.d(i)')
ASSUMPTIONS = ['builtins are only in the domain of the naive enumeration (the code says so); top-down enumeration is run on programs without recursion',
               'programs with more than 120 derivations within the height bound are skipped (counted)']
CASE_LIMIT = 120

RULES = RS('''
p(X) += n(X)
p(X) += 0.5 * n(X)
p(Y) += p(X) * e(X,Y)
a += p(X) * p(X)
a += p(X) * p(Y)
b(X) += e(X,Y) * 0.25
b(X) += e(X,Y) * e(Y,Z)
q(X,Y) += e(X,Y)
q(X,Z) += q(X,Y) * q(Y,Z)
a += q(X,Y) * 2 * p(Y)
a += b(X) * a
s(f(X)) += n(X) * p(X)
p(X) += s(f(X))
p(1)
a += b(1)
b(1) += a
d(X,Y) += n(X)
d(X,X)
d(X,f(Y)) += b(X) * p(Y)
a += d(X,1)
a += d(1,Y) * d(X,2)
p(Y) += d(X,Y) * n(Y)
d(Y,Z) += d(X,Y) * d(X,Z)
a += p(X) * p(Y) * (X < Y)
b(Z) += p(X) * (Z is X + 1) * 2
a += a
'''.replace('\n', '.\n'))
CORE = [0, 1, 2, 4, 7, 8, 9, 14, 15, 16, 18, 20, 22, 23]
DATA = {
    'two': [('n(1)', 0.5), ('n(2)', 3), ('e(1,2)', 2)],
    'dup': [('n(1)', 0.5), ('n(1)', 0.25), ('e(1,1)', 0.5)],
    'path': [('n(1)', None), ('e(1,2)', 2), ('e(2,1)', 4), ('e(1,2)', 2)],
}
NAMES = list(DATA)
QUERIES = ['a', 'p(X)', 'p(1)', 'b(X)', 'q(X,Y)', 'q(1,Y)', 'd(X,Y)', 'd(1,Y)', 'd(X,X)', 's(X)', 'n(X)']
LIMIT = 120

THOROUGH = os.environ.get('MC_TIER') == 'thorough'

def groups(tier):
    sets = [c for k in (1, 2) for c in combinations_with_replacement(range(len(RULES)), k)]
    sets += list(combinations(CORE if tier != 'thorough' else range(len(RULES)), 3))
    yield 'programs', [(c, d) for c in sets for d in range(len(NAMES))]

# ------------------------------------------------------------------ independent enumeration

class TooMany(Exception): pass

def build(rules, H, limit):
    """derivations by height: list of canonical trees (rule index, head, children...).
    Trees carry their most general instance; children share the variables of the tree."""
    done = []; level = []
    for h in range(1, H + 1):
        new = []
        for i, (head, body) in enumerate(rules):
            for parts in choices(i, head, body, done, level, h):
                new.append(parts)
                if len(new) + len(done) > limit: raise TooMany()
        done = done + new; level = new
        yield h, done, new
        if not new: return

def key(t): return rename(t)

def choices(i, head, body, done, level, h):
    r = apart(('r', head, *body), f'@{h}_{i}')
    goals = r[2:]
    fresh_ids = {id(t) for t in level}
    def go(k, s, kids, used, ctr):
        if k == len(goals):
            if h == 1 and not any_items(kids): ok = True
            else: ok = used
            if ok:
                t = key(('D', i, subst(r[1], s), *[subst(c, s) for c in kids]))
                yield t
            return
        g = goals[k]
        if isv(g): raise Unsupported('bare variable')
        if not isterm(g):
            yield from go(k + 1, s, kids + [('C', g)], used, ctr); return
        if g[0] in BUILTINS:
            try: sols = list(builtin(g, s))
            except Stuck: raise Unsupported('delayed builtin')
            for s2 in sols: yield from go(k + 1, s2, kids + [('B', g)], used, ctr)
            return
        for t in done:
            if t[2][0] != g[0] or len(t[2]) != len(g): continue
            t2 = apart(t, f'@k{k}_{h}')
            m = mgu(t2[2], g, s)
            if m is None: continue
            yield from go(k + 1, m, kids + [t2], used or id(t) in fresh_ids, ctr)
    yield from go(0, {}, [], False, 0)

BUILTINS = {'<', 'is'}
def any_items(kids): return any(c[0] == 'D' for c in kids)

def instances(trees, q):
    out = []
    for t in trees:
        t2 = apart(t, '@q')
        if t2[2][0] != q[0] or len(t2[2]) != len(q): continue
        m = mgu(t2[2], q, {})
        if m is not None: out.append(key(subst(t2, m)))
    return out

def leaves(t):
    for c in t[3:]:
        if c[0] == 'C': yield c[1]
        elif c[0] == 'D': yield from leaves(c)

def rsize(t): return 1 + sum(rsize(c) for c in t[3:] if c[0] == 'D')
def rheight(t): return 1 + max([0] + [rheight(c) for c in t[3:] if c[0] == 'D'])
def rdim(t):
    ds = sorted([rdim(c) if c[0] == 'D' else 0 for c in t[3:]], reverse=True)
    return 0 if not ds else ds[0] if len(ds) == 1 or ds[0] != ds[1] else ds[0] + 1

# ------------------------------------------------------------------ reading derivations back

def conv(d, names=None):
    from dyna import Derivation
    top = names is None
    if top: names = {}
    def go(d):
        if isinstance(d, Derivation):
            if d.i is None: return ('B', from_dyna(d.head, names))
            return ('D', d.i, from_dyna(d.head, names), *[go(c) for c in d.body])
        return ('C', from_dyna(d, names))
    t = go(d)
    return key(t) if top else t

def ms(xs):
    c = {}
    for x in xs: c[x] = c.get(x, 0) + 1
    return c

def showd(t):
    if t[0] == 'C': return repr(t[1])
    if t[0] == 'B': return show(t[1])
    return f'{show(t[2])}#{t[1]}' + ('[' + ' '.join(map(showd, t[3:])) + ']' if len(t) > 3 else '')

def same(have, want, what, p):
    a, b = ms(have), ms(want)
    if a == b: return
    for t in b:
        if a.get(t, 0) < b[t]: raise Violation(f'{what}: derivation missing: {showd(t)}   program: {p}')
    for t in a:
        if b.get(t, 0) < a[t]: raise Violation(f'{what}: derivation {"repeated" if t in b else "does not exist"}: {showd(t)}   program: {p}')

# ------------------------------------------------------------------ the check

def recursive(rules):
    g = {}
    for h, b in rules: g.setdefault(h[0], set()).update(x[0] for x in b if isterm(x) and x[0] not in BUILTINS)
    def reach(x, seen):
        for y in g.get(x, ()):
            if y not in seen: seen.add(y); reach(y, seen)
        return seen
    return any(f in reach(f, set()) for f in g)

def check(group, case, st):
    from dyna import Program, Rule, Derivation
    idx, d = case
    data = [(T(t), () if w is None else (w,)) for t, w in DATA[NAMES[d]]]
    rules = data + [RULES[i] for i in idx]
    # interleave: the added rules first when there are two of them, so that indices are not always sorted by height
    if len(idx) == 2: rules = [RULES[idx[0]]] + data + [RULES[idx[1]]]
    has_b = any(isterm(x) and x[0] in BUILTINS for _, b in rules for x in b)
    H = 4
    levels = []
    try:
        for h, done, new in build(rules, H, LIMIT): levels.append((h, done, new))
    except TooMany: pass
    if not levels: raise Unsupported('too many derivations')
    complete = not levels[-1][2]         # nothing of this height: all derivations are known
    src = lambda: ' '.join(text_rule(r) for r in rules)
    p = Program([Rule(*[to_dyna(x, env) for env in [{}] for x in (h, *b)]) for h, b in rules], outputs='a.')
    preds = {h[0] for h, _ in rules}
    qs = [T(q) for q in QUERIES if T(q)[0] in preds]
    st.state((idx, d))

    top = levels[-1]
    for h, done, new in levels:
        for q in qs:
            want = instances(done, q)
            got = list(p.derivations(h, to_dyna(q, {})))
            same(map(conv, got), want, f'derivations({h}, {show(q)})', src())
            st.step(len(want) + 1)
            if not has_b:
                same(map(conv, p.derivations_seminaive(h, to_dyna(q, {}))), want, f'derivations_seminaive({h}, {show(q)})', src())
                st.step(len(want))
            if h == top[0]: measures(p, got, st, src)
    if complete:
        for q in qs[:2]:
            same(map(conv, p.derivations(None, to_dyna(q, {}))), instances(top[1], q), f'derivations(None, {show(q)})', src())
            if not has_b: same(map(conv, p.derivations_seminaive(None, to_dyna(q, {}))), instances(top[1], q), f'derivations_seminaive(None, {show(q)})', src())
    if not has_b:
        everything = set(top[1])
        if complete:
            same(map(conv, p.derivations_agenda()), top[1], 'derivations_agenda()', src())
        else:
            pre = [conv(x) for x in islice(p.derivations_agenda(), 40)]
            require(len(pre) == len(set(pre)), 'derivations_agenda() repeats a derivation', src)
            for t in pre:
                if rheight(t) <= top[0]: require(t in everything, lambda: f'derivations_agenda(): derivation does not exist: {showd(t)}   program: {src()}')
            if len(levels[0][1]) <= 40:
                for t in levels[0][1]: require(t in pre, lambda: f'derivations_agenda() never yields {showd(t)} (40 later ones came first)   program: {src()}')
        st.step()
        if not recursive(rules):
            for q in qs:
                same(map(conv, p.sld(to_dyna(q, {}))), instances(top[1], q), f'sld({show(q)})', src())
                st.step()
        st.count('builtin_free')
    if complete and not recursive(rules): values(p, rules, top[1], qs, st, src)
    st.trace()

def measures(p, got, st, src):
    from dyna import Derivation
    for x in got[:12]:
        t = conv(x)
        w = lambda: f'{showd(t)}   program: {src()}'
        require(x.size() == rsize(t), f'size is {x.size()} of', w)
        require(x.height() == rheight(t), f'height is {x.height()} of', w)
        require(x.dimension() == rdim(t), f'dimension is {x.dimension()} of', w)
        require([v for v in x.value() if v != 1.0] == [v for v in leaves(t) if v != 1], f'value is {x.value()!r} of', w)
        for c in x.body:
            require(x.is_subtree(x) and (not isinstance(c, Derivation) or x.is_subtree(c)), 'is_subtree misses a child of', w)
        for y in got[:6]:
            u = conv(y)
            if tvars(t) or tvars(u): continue
            t1, u1 = unlabel(t), unlabel(u)      # equality compares the trees, not the labels of their rules
            require((x == y) == (t1 == u1), lambda: f'equality of derivations: {showd(t)} vs {showd(u)}   program: {src()}')
            if x == y: require(hash(x) == hash(y), 'hash of equal derivations', w)
            require(x.is_subtree(y) == sub(t1, u1), lambda: f'is_subtree({showd(t)}, {showd(u)})   program: {src()}')
        if len(x.body) <= 3 and not tvars(t): rebuild(p, x, t, w, st)
        st.step()

def unlabel(t): return ('D', 0, t[2], *map(unlabel, t[3:])) if t[0] == 'D' else t
def sub(t, u): return t == u or any(sub(c, u) for c in t[3:] if c[0] == 'D')

def rebuild(p, x, t, w, st):
    "constructing the derivation from its children, in any order"
    kids = list(x.body)
    for perm in permutations(range(len(kids))):
        ks = [kids[i] for i in perm]
        y = p.d(x.i)(x.head, *ks)
        u = conv(y)
        r = from_rule(p, x.i)
        require(u[2] == t[2] and sorted(map(repr, u[3:])) == sorted(map(repr, t[3:])), f'p.d({x.i}) on reordered children {perm} gives {showd(u)} for', w)
        require(fits(r, u), f'p.d({x.i}) on reordered children {perm} gives {showd(u)}, not an instance of its rule, for', w)
        st.step()
    y = p.d(None)(x.head, *kids)
    require(y.i is not None and fits(from_rule(p, y.i), conv(y)), 'p.d(None) finds no rule for', w)

def from_rule(p, i):
    names = {}; r = p.rules[i]
    return ('r', from_dyna(r.head, names), *[from_dyna(b, names) for b in r.body])

def fits(r, u):
    inst = ('r', u[2], *[c[2] if c[0] == 'D' else c[1] for c in u[3:]])
    return len(r) == len(inst) and match(r, inst) is not None

def values(p, rules, trees, qs, st, src):
    "sum over all derivations = the value of the item"
    if any(tvars(t) for t in trees): return
    chart = Evaluator(rules, OPS['float'], max_iter=60).solve()
    for q in qs:
        got = {}
        for x in p.derivations(None, to_dyna(q, {})):
            v = 1
            for y in x.value(): v *= y
            k = from_dyna(x.head); got[k] = got.get(k, 0) + v
        for k in set(got) | {c for c in chart if match(q, c) is not None}:
            require(abs(got.get(k, 0) - chart.get(k, 0)) < 1e-9, lambda: f'derivations of {show(k)} add up to {got.get(k, 0)}, its value is {chart.get(k, 0)}   program: {src()}')
        st.step()

def describe(group, case):
    idx, d = case
    return f'{" ".join(text_rule(RULES[i]) for i in idx)}  data {NAMES[d]}'
