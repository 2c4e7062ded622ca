"""C24: a program stays coherent under edits and queries in any order."""
from itertools import product, permutations
from collections import Counter
from mc.core import require, Unsupported
from mc.syn import R, T
from mc.terms import *
from mc.ref import *
from mc.sr import *
from mc.dynaio import *

LEVEL = 'model_checking'
RULE = ('every sequence of edits (update, append, item assignment, pop, declaring inputs/outputs, functional add and remove) of length 2 with every choice of query before each edit, and of length 3 (thorough 4) '
        'with the choices nothing / everything, from several starting programs; after each sequence everything the program reports is compared with a program freshly built '
        'from the rules the edit model predicts; state = (rules, declarations, caches filled)')
ASSUMPTIONS = ['rules are edited through the methods of Program, not by assigning to its lists']
CASE_LIMIT = 300

BASES = ['', 'a.', 'a += 2. p(X) += 2. g += p(X) * b(X). b(1).', 'p(1). g += p(1) * a. p(1) += 2. a.', 'X += w(X). w(a). w(p(2)) += 3.', 'p(X) += p(Y) * w(X). p(1) += 0.5. g += p(2) * p(X).']
QS = ['p(X)', 'p(1)', 'a', 'g', 'b(X)', 'w(X)', 'k', 'd(X,Y)']

def upd(src):
    r = R(src)
    def go(p, m):
        from dyna import Rule
        h, b = to_dyna_rule(r)
        p.update(h, *b)
        m[0].append(r)
        return p, m
    return go

def app(src):
    r = R(src)
    def go(p, m):
        from dyna import Rule
        h, b = to_dyna_rule(r)
        p.append(Rule(h, *b))
        m[0].append(r)
        return p, m
    return go

def to_dyna_rule(r):
    env = {}
    return to_dyna(r[0], env), [to_dyna(b, env) for b in r[1]]

def assign(src):
    r = R(src)
    def go(p, m):
        h, b = to_dyna_rule(r)
        [c] = b
        p[h] = c
        m[0].append(r)
        return p, m
    return go

def pop(k):
    def go(p, m):
        n = len(p)
        if n == 0: return None
        i = 0 if k == 0 else n - 1 if k < 0 else n // 2
        before = rules_of(p)
        r = p.pop(i)
        require(rule_of(r) == before[i] or variant(rule_of(r), before[i]), f'pop({i}) returned {r}, rule {i} was {text_rule(before[i])}')
        after = rules_of(p)
        want = before[:i] + before[i+1:]
        require(len(after) == len(want) and all(variant(x, y) for x, y in zip(after, want)), f'pop({i}) of {before} left {after}')
        return p, [list(want), m[1], m[2]]
    return go

def declare(which, src):
    def go(p, m):
        if which == 1: p.set_input_types(src)
        else: p.set_output_types(src)
        m = [m[0], m[1], m[2]]; m[which] = src
        return p, m
    return go

def plus(src):
    def go(p, m):
        q = p + src
        return q, [m[0] + [R(src)], m[1], m[2]]
    return go

def minus(p, m):
    if len(p) == 0: return None
    want = rules_of(p)[1:]
    return p - 0, [want, m[1], m[2]]

EDITS = [('update a += 2', upd('a += 2.')), ('update a', upd('a.')), ('update p(X) += 3', upd('p(X) += 3.')), ('append p(1) += 0.5', app('p(1) += 0.5.')),
         ('append g += p(X)*b(X)', app('g += p(X) * b(X).')), ('append b(X) += 2*a*w(X)', app('b(X) += 2 * a * w(X) * 3.')),
         ('append d(X,Y) += w(X)', app('d(X,Y) += w(X).')), ('append dead', app('g += a * 0.')), ('assign b(2)', assign('b(2) += 3.')), ('append X += w(X)', app('X += w(X).')),
         ('pop first', pop(0)), ('pop last', pop(-1)), ('pop middle', pop(1)), ('outputs g', declare(2, 'g.')), ('outputs b(X)', declare(2, 'b(X).')), ('inputs w(X)', declare(1, 'w(X).')),
         ('plus', plus('w(1) += 2.')), ('minus', minus)]

def canon(r):
    "canonical form modulo renaming, subgoal order and constant folding; (form, coefficient)"
    h, b = r
    c = 1.0
    for x in b:
        if not isv(x) and not isterm(x): c *= x
    xs = [x for x in b if isv(x) or isterm(x)]
    return min((repr(rename(('r', h, *ys))) for ys in permutations(xs))), c, not xs

def variant(r, s): return canon(r) == canon(s)

def norm(rules):
    consts = {}; others = Counter()
    for r in rules:
        k, c, const = canon(r)
        if c == 0: continue
        if const: consts[k] = consts.get(k, 0) + c
        else: others[k, c] += 1
    return consts, others

def prunable(p):
    from dyna import Var
    return p.inputs is not None and p.outputs is not None and not any(isinstance(r.head, Var) for r in p)

def queries():
    terms = {q: T(q) for q in QS}
    def term(q): return to_dyna(terms[q], {})
    def lookups(p):
        out = []
        for q in QS:
            env = {}
            out.append((q, sorted((r.i is None, r.i or 0, repr(rename(('r', h, *b)))) for r in p.lookup(term(q)) for h, b in [rule_of(r)])))
        from dyna import Var
        out.append(sorted((r.i, repr(rename(('r', h, *b)))) for r in p.lookup(Var('Q')) for h, b in [rule_of(r)]))
        return out
    def cut(p):
        "lookups that are abandoned after their first answer"
        out = []
        for q in QS:
            g = p.lookup(term(q)); r = next(g, None); out.append(r is None); del g, r
        return out
    def rules(p): return [repr(rename(('r', h, *b))) for h, b in rules_of(p)]
    def answers(p):
        out = []
        for q in QS: out.append(sorted(rules(p.user_lookup(term(q)))))
        return out
    return dict(
        size=lambda p: (len(p), len(list(p)), bool(p)),
        hash=lambda p: hash(p),
        signature=lambda p: p.signature,
        degree=lambda p: (p.degree, p.degrees()),
        syms=lambda p: (sorted(map(str, p.syms)), p._gen_functor('a'), p._gen_functor('zz')),
        lookup=lookups, cut=cut, answers=answers,
        items=lambda p: [(p.is_item(term(q)), p.is_input(term(q)), p.is_output(term(q)), p.safe_inline(term(q)), p.is_exogenous(term(q))) for q in QS],
        prune_fast=lambda p: p.prune_fast().signature if prunable(p) else None,
        prune_very=lambda p: p.prune_very_fast().signature if prunable(p) else None,
        prune=lambda p: p.prune().signature if prunable(p) else None,
        bottom=lambda p: p.prune_bottom_up().signature if prunable(p) else None,
        range=lambda p: p.is_range_restricted(),
        constant=lambda p: sorted(rules(p.constant_folding())),
        text=lambda p: len(p.plaintext().splitlines()),
    )

NAMES = ['size', 'hash', 'signature', 'degree', 'syms', 'lookup', 'cut', 'answers', 'items', 'prune_fast', 'prune_very', 'prune', 'bottom', 'constant']

def groups(tier):
    n = len(EDITS)
    yield 'pairs', [(b, e) for b in range(len(BASES)) for e in range(n)]
    yield 'triples', [(b, e, f) for b in ((1, 3, 4, 5) if tier == 'quick' else range(len(BASES))) for e in range(n) for f in range(n)]
    if tier != 'quick': yield 'quads', [(b, e, f) for b in range(len(BASES)) for e in range(n) for f in range(n)]

def safe(f, p):
    "coarse pruning refuses programs with rules for every item; then both must refuse"
    try: return f(p)
    except (ValueError, AttributeError, AssertionError) as e: return 'refused', type(e).__name__

LIGHT = [n for n in NAMES if n not in ('prune', 'bottom')]

def run(base, seq, st, Q, names=NAMES):
    "seq: list of (query mode, edit index)"
    from dyna import Program
    p = Program(BASES[base]); m = [rules_of(p), None, None]
    if base == 5:
        m[1:] = 'w(X).', 'g.'; p = Program(BASES[base], m[1], m[2])
    hist = []
    old = []
    def ask(mode):
        if mode == 'none': return
        for k in (names if mode == 'all' else [mode]): safe(Q[k], p)
    for mode, e in seq:
        ask(mode)
        name, go = EDITS[e]
        hist.append(f'{mode}; {name}')
        x = go(p, [list(m[0]), m[1], m[2]])
        if x is None: return
        if x[0] is not p: old.append((p, list(m), list(hist)))
        p, m = x
    st.state((base, [repr(r) for r in m[0]], m[1], m[2], seq[-1][0]))
    for q, mm, h in [(p, m, hist)] + old: compare(base, q, mm, h, Q, st, names)

def compare(base, p, m, hist, Q, st, names):
    from dyna import Program, Rule
    what = lambda: f'from {BASES[base]!r}: {hist}'
    got = rules_of(p)
    a, b = norm(m[0]), norm(got)
    require(a == b, what(), 'rules', list(map(text_rule, got)), 'expected', list(map(text_rule, m[0])))
    copy = Program([Rule(*(lambda h, b: (h, *b))(*to_dyna_rule(r))) for r in got], inputs=m[1], outputs=m[2])
    for k in names:
        x, y = safe(Q[k], p), safe(Q[k], copy)
        require(x == y, what(), f'then {k} gives', x, 'but a freshly built program gives', y)
    require(p == copy and copy == p, what(), 'not equal to a freshly built program')
    st.step(len(hist)); st.trace()
    st.outcome((sorted(map(repr, got)), m[1], m[2]))

def check(group, case, st):
    Q = queries()
    if group == 'pairs':
        b, e = case
        for q0 in ['none', 'all'] + NAMES:
            run(b, [(q0, e)], st, Q)
            for q1 in ['none', 'all'] + (NAMES if q0 == 'none' else []):
                for f in range(len(EDITS)): run(b, [(q0, e), (q1, f)], st, Q)
    elif group == 'triples':
        b, e, f = case
        for g in range(len(EDITS)):
            for ms in (('none', 'none', 'all'), ('none', 'all', 'none'), ('none', 'all', 'all')): run(b, list(zip(ms, (e, f, g))), st, Q, LIGHT)
    else:
        b, e, f = case
        for g in range(len(EDITS)):
            for h in range(len(EDITS)):
                for ms in (('none', x, y, z) for x in ('none', 'all') for y in ('none', 'all') for z in ('none', 'all')): run(b, list(zip(ms, (e, f, g, h))), st, Q, LIGHT)
