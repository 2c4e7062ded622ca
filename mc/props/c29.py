"""C29: constraint propagation is sound and confluent; so are the type operations built on it."""
from itertools import product, permutations, combinations
from mc.core import Violation, Unsupported, require
from mc.terms import *
from mc.ref import builtin, Stuck, BUILTIN
from mc.syn import T
from mc.props.c19 import parse, split
import mc.core

LEVEL = 'model_checking'
RULE = ('every conjunction of up to 3 atoms of an alphabet x constraint theories, in EVERY written order and under several orders of the agenda (the agenda set is replaced by a controlled one): the propagated conjunction is compared with the '
        'least model of the theory for every assignment of the variables over a small universe (failure only when no assignment is consistent, nothing lost, nothing added that the theory does not imply); '
        'the operations on simple types (simplify, intersect, covers, disjoint, dedup, disjoin, anti-unifier) are checked on every pair of types of an alphabet against their sets of instances; state = normal form')
ASSUMPTIONS = ['theories are Horn: the least model decides entailment', 'assignments range over 1, 2, 3, f(1), f(2)', '$free constraints (which speak of unbound variables) are judged by C19, not here',
               'comparisons are between numbers', 'theories that grow terms without bound are outside the domain']
CASE_LIMIT = 120

THEORIES = [
    '',
    '$fail :- k(X), w(X).',
    'k(X) :- w(X).',
    'k(1). $fail :- w(1).',
    'Y=Z :- m(X,Y), m(X,Z).',
    'Y=Z :- m(X,Y), m(X,Z). k(Y) :- m(X,Y).',
    'm(Y,X) :- m(X,Y).',
    '(I < K) :- (I < J), (J < K). $fail :- (I < I).',
    'X=Y :- k(X), k(Y).',
    'X=1 :- w(X).',
    'X=f(Y) :- m(X,Y).',
    'k(X) :- k(f(X)). $fail :- k(2).',
    'X=Y :- m(X,Y). $fail :- k(X), w(X).',
    'k(X) :- m(X,Y). w(Y) :- m(X,Y). $fail :- k(X), w(X).',
    'm(X,Z) :- m(X,Y), m(Y,Z). $fail :- m(X,X).',
    '$fail :- m(X,Y), k(Y). k(X) :- w(X).',
    'm(f(X),f(Y)) :- k(f(X)), k(f(Y)).',
    'Y=Z :- m(X,Y), m(X,Z). X=Y :- m(X,Z), m(Y,Z).',
    '(1 < X) :- w(X).',
    'k(X) :- (X < Y).',
]

ATOMS = [T(x) for x in '''k(A) | k(B) | w(A) | w(B) | k(1) | w(2) | k(f(A)) | w(f(B)) | m(A,B) | m(B,C) | m(A,C) | m(1,A) | m(A,f(B)) | m(A,f(1)) | m(C,2) | m(f(A),B) | m(A,A)
 | A = B | A = 1 | B = f(C) | B = C | f(A) = f(B) | f(A) = C | A < B | B < C | A < 2 | 1 < A | B < A | C is A + 1 | 2 = 2 | A = f(A) | 1 = 2'''.replace('\n', ' ').split('|')]

U = [1, 2, 3, ('f', 1), ('f', 2)]

def groups(tier):
    deep = tier != 'quick'
    for t in range(len(THEORIES)):
        yield 'conj', [(t, c) for k in (1, 2) for c in combinations(range(len(ATOMS)), k)]
        yield 'conj', [(t, c) for c in combinations(range(len(ATOMS)), 3) if deep or (sum(c) * 7 + t) % 5 == 0]
    for t in range(len(THEORIES)):
        yield 'types', [(t, i, j) for i in range(len(TYPES)) for j in range(i, len(TYPES))]
    yield 'disjoin', [(t, c) for t in range(len(THEORIES)) for c in combinations(range(len(TYPES)), 3) if deep or (sum(c) + t) % 13 == 0]

TYPES = [parse(x) for x in '''h(A,B) | h(A,A) | h(1,B) | h(A,B) :- k(A) | h(A,B) :- k(A), w(B) | h(A,B) :- m(A,B) | h(A,B) :- m(B,A) | h(A,A) :- w(A) | h(f(A),B) :- k(A) | h(f(A),B) :- k(f(A))
 | h(A,B) :- k(A), k(B) | h(A,f(B)) :- m(A,f(B)) | h(A,B) :- m(A,C), k(C) | h(A,2) :- (A < 2) | h(A,B) :- (A < B) | h(f(A),f(A)) | h(A,B) :- (A = B), k(B) | h(1,2) | h(A,B) :- w(A), m(A,B) | h(A,B) :- $bound(A), k(B)'''.replace('\n', ' ').split('|')]

# ------------------------------------------------------------------ reference
class Theory:
    def __init__(self, text):
        self.rules = [parse(x) for x in text.split('.') if x.strip()]
        self.memo = {}

    def true(self, a):
        "ground builtin; None when it is not one"
        if a[0] == '$bound': return True
        if a[0] in BUILTIN:
            if a[0] == 'is' and isterm(a[2]) and any(isterm(x) for x in a[2][1:]): return False
            if a[0] in ('<',) and any(isterm(x) for x in a[1:]): return False
            try: return bool(builtin(a, {}))
            except Stuck: return False
        return None

    def close(self, atoms):
        "least model containing the ground atoms, or None if inconsistent"
        key = frozenset(atoms)
        if key in self.memo: return self.memo[key]
        I = set(); ok = True
        todo = list(key) + [h for h, b in self.rules if not b]
        while todo and ok:
            a = todo.pop()
            t = self.true(a)
            if t is False: ok = False; break
            if a in I: continue
            if t is True and a[0] != '<': continue
            if size(a) > 9: raise Unsupported('terms grow')
            I.add(a)
            for h, b in self.rules:
                for k in range(len(b)):
                    s = mgu(b[k], a, {})
                    if s is None: continue
                    for s2 in self.join(b[:k] + b[k+1:], I, s):
                        x = subst(h, s2)
                        if x == ('$fail',): ok = False
                        elif tvars(x): raise Unsupported('unsafe rule')
                        else: todo.append(x)
        r = self.memo[key] = frozenset(I) if ok else None
        return r

    def join(self, atoms, I, s):
        if not atoms: yield s; return
        for f in list(I):
            if f[0] == atoms[0][0] and len(f) == len(atoms[0]):
                t = mgu(atoms[0], f, s)
                if t is not None: yield from self.join(atoms[1:], I, t)

    def holds(self, a, M):
        t = self.true(a)
        return t if t is not None else a in M

def assignments(vs):
    for vals in product(U, repeat=len(vs)): yield dict(zip(vs, vals))

def ground(atoms, th): return [subst(a, th) for a in atoms]

# ------------------------------------------------------------------ controlled agenda
class AnySet(type):
    def __instancecheck__(cls, x): return isinstance(x, set)

class Agenda(set, metaclass=AnySet):
    mode = 'fifo'
    def __init__(self, xs=()):
        super().__init__(); self.order = []
        for x in xs: self.add(x)
    def add(self, x):
        if x not in self: self.order.append(x)
        super().add(x)
    def pop(self):
        i = 0 if Agenda.mode == 'fifo' else len(self.order) - 1 if Agenda.mode == 'lifo' else len(self.order) // 2
        x = self.order.pop(i)
        super().discard(x)
        return x
    def remove(self, x): super().remove(x); self.order.remove(x)
    def discard(self, x):
        if x in self: self.remove(x)
    def __iter__(self): return iter(list(self.order))

_cache = {}
def solver(t, kind):
    import dyna.propagate as P
    P.set = Agenda
    from dyna.analyze.rewrites import Rewrites
    from dyna import Program
    if (t, kind) not in _cache:
        decl = '(_ < _). k(_). w(_). m(_,_).'
        _cache[t, kind] = P.ConstraintPropagation(Program(THEORIES[t], decl)) if kind == 'cp' else Rewrites(THEORIES[t])
    return _cache[t, kind]

def back(xs, env):
    names = {id(v): k for k, v in env.items()}
    return [from_dyna(x, names) for x in xs]

def check(group, case, st):
    try: {'conj': conj, 'types': types, 'disjoin': disjoin}[group](case, st)
    except TypeError as e:
        if "'<' not supported between" in str(e): raise Unsupported('comparison of structured terms')
        raise

def run_cp(t, atoms, mode):
    from dyna import Term
    Agenda.mode = mode
    env = {}
    xs = [to_dyna(a, env) for a in atoms]
    ch = solver(t, 'cp')(xs)
    return None if ch is None else back([x for x in ch], env), env

def conj(case, st):
    t, c = case
    th = Theory(THEORIES[t]); atoms = [ATOMS[i] for i in c]
    vs = tvars(('r', *atoms))
    if structured_comparison(t, atoms): raise Unsupported('comparison of structured terms')
    models = [(s, th.close(ground(atoms, s))) for s in assignments(vs)]
    sat = [(s, M) for s, M in models if M is not None]
    label = lambda o, mode: f'[{", ".join(map(show, o))}] ({mode}) under {THEORIES[t] or "no rules"}'
    forms = {}
    for o in permutations(atoms):
        for mode in ('fifo', 'lifo', 'mid')[:3 if len(c) < 3 else 2]:
            st.step()
            res, env = run_cp(t, list(o), mode)
            if res is None:
                require(not sat, lambda: f'{label(o, mode)}: failure although {sat[0][0]} is a solution')
            else:
                extra = [v for v in tvars(('r', *res)) if v not in vs]
                require(not extra, lambda: f'{label(o, mode)}: new variables {extra} in {list(map(show, res))}')
                for s, M in sat:
                    for a in res:
                        g = subst(a, s)
                        require(th.holds(g, M), lambda: f'{label(o, mode)}: {s} is a solution but violates the derived constraint {show(a)} (result {list(map(show, res))})')
                for s in assignments(vs):
                    M = th.close(ground(res, s))
                    if M is None: continue
                    for a in atoms: require(th.holds(subst(a, s), M), lambda: f'{label(o, mode)}: {s} satisfies the result {list(map(show, res))} but not {show(a)}')
            nf = normal(t, o, vs)
            forms.setdefault(nf, (o, mode))
            st.state((t, nf))
    if len(forms) > 1:
        (a, x), (b, y) = list(forms.items())[:2]
        raise Violation(f'{label(*x)} has normal form {a}, but {label(*y)} has {b}')
    st.trace()

def structured_comparison(t, atoms):
    "do the equalities make an argument of a comparison a nonground structured term?"
    s = {}
    for a in atoms:
        if a[0] == '=' and s is not None: s = mgu(a[1], a[2], s)
        if a[0] == 'm' and t == 10 and s is not None: s = mgu(a[1], ('f', a[2]), s)
    return s is not None and any(a[0] == '<' and any(isterm(x) for x in subst(a, s)[1:]) for a in atoms)

def normal(t, atoms, vs):
    "normal form of the conjunction as a simple type whose head lists its variables"
    from dyna import Rule
    env = {}
    hd = to_dyna(('h', *[V(v) for v in vs]), env)
    R = solver(t, 'rw')(Rule(hd, *[to_dyna(a, env) for a in atoms]))
    return canon(R)

def canon(R):
    if R is None: return 'fail'
    nm = {}
    h = from_dyna(R.head, nm); b = [from_dyna(x, nm) for x in R.body]
    ren = {}
    hh = rename(('r', h), ren)
    return (show(hh), tuple(sorted(show(rename(x, ren)) for x in b)))

# ------------------------------------------------------------------ simple types
def rule(tp, env=None):
    from dyna import Rule
    env = {} if env is None else env
    return Rule(to_dyna(tp[0], env), *[to_dyna(b, env) for b in tp[1]])

def unrule(R):
    nm = {}
    f = apart(('r', from_dyna(R.head, nm), *[from_dyna(x, nm) for x in R.body]), '@u')
    return f[1], list(f[2:])

def extension(th, tp):
    "ground instances: head -> least models in which it belongs to the type"
    h, b = tp; out = {}
    vs = tvars(('r', h, *b))
    for s in assignments(vs):
        M = th.close(ground(b, s))
        if M is not None: out.setdefault(subst(h, s), []).append(M)
    return out

def member(th, tp, g, M):
    h, b = tp
    s = match(h, g)
    if s is None: return False
    rest = [subst(x, s) for x in b]
    vs = tvars(('r', *rest)) if rest else []
    dom = list(dict.fromkeys(U + [z for x in (*M, g) for z in x[1:]]))
    return any(all(th.holds(subst(x, a), M) for x in rest) for vals in product(dom, repeat=len(vs)) for a in [dict(zip(vs, vals))])

def types(case, st):
    t, i, j = case
    th = Theory(THEORIES[t]); W = solver(t, 'rw'); Agenda.mode = 'fifo'
    label = lambda: f'{sh(TYPES[i])} and {sh(TYPES[j])} under {THEORIES[t] or "no rules"}'
    a, b = TYPES[i], TYPES[j]
    A, B = extension(th, a), extension(th, b)
    E = th.close([])
    # simplification
    for drop in (False, True):
        R = W(rule(a), drop_checked=drop)
        st.step()
        if R is None: require(not A, lambda: f'simplify {label()}: fails but contains {show(list(A)[0])}')
        else: same_set(th, a, A, unrule(R), lambda: f'simplify(drop_checked={drop}) {sh(a)} under {THEORIES[t]} gives {R}')
        st.state((t, canon(R)))
    # covers / same
    for (x, X, y, Y) in ((a, A, b, B), (b, B, a, A)):
        if W.covers(rule(x), rule(y)):
            for g, Ms in Y.items():
                for M in Ms: require(member(th, x, g, M), lambda: f'covers: {sh(x)} is said to cover {sh(y)} under {THEORIES[t]}, but not {show(g)} when {set(M)}')
    if A and set(tvars(('r', *a[1]))) <= set(tvars(a[0])):
        require(W.covers(rule(a), rule(a)), lambda: f'{sh(a)} does not cover itself under {THEORIES[t]}')
    # intersection and disjointness
    both = [(g, M) for g in A if g in B for M1 in A[g] for M2 in B[g] for M in [th.close(M1 | M2)] if M is not None]
    R = W.intersect(rule(a), rule(b))
    if R is None:
        require(not both, lambda: f'intersect: {label()} have no intersection, but {show(both[0][0])} belongs to both when {set(both[0][1])}')
    else:
        r = unrule(R)
        for g, M in both: require(member(th, r, g, M), lambda: f'intersect of {label()} is {R}, which lacks {show(g)} when {set(M)}')
        for g, Ms in extension(th, r).items():
            for M in Ms: require(member(th, a, g, M) and member(th, b, g, M), lambda: f'intersect of {label()} is {R}, which contains {show(g)} when {set(M)}')
    # the names of the variables are of no consequence
    bodies = [z for tp in (a, b) for z in tp[1]]
    compared = any(z[0] in ('<', '<=', '>', '>=') for z in bodies) and any(isterm(y) and len(y) > 1 for tp in (a, b) for z in (tp[0], *tp[1]) for y in z[1:])
    for swap in () if compared else (False, True):     # (comparisons of structures: see ASSUMPTIONS)
        env = {}; x = rule(a, env)
        y = rule(b, {'A': env['B'], 'B': env['A']} if swap and {'A', 'B'} <= set(env) else env)
        R2 = W.intersect(x, y)
        require((R2 is None) == (R is None) and (R is None or canon(R2) == canon(R)), lambda: f'intersect of {label()} is {R2} if they share variables, otherwise {R}')
    # equality: the same members whatever holds
    if W.same(rule(a), rule(b)):
        for (x, X, y, Y) in ((a, A, b, B), (b, B, a, A)):
            for g, Ms in Y.items():
                for M in Ms: require(member(th, x, g, M), lambda: f'{label()} are said to be the same, but {show(g)} belongs only to {sh(y)} when {set(M)}')
    require(W.disjoint(rule(a), rule(b)) == (R is None), 'disjoint and intersect disagree')
    st.trace()
    # least common generalization (promised for overlapping types)
    if R is not None:
        g = W.anti_unifier(rule(a), rule(b))
        u = unrule(g)
        for x, X in ((a, A), (b, B)):
            for gg, Ms in X.items():
                for M in Ms: require(member(th, u, gg, M), lambda: f'anti_unifier of {label()} is {g}, which lacks {show(gg)} of {sh(x)} when {set(M)}')
    from dyna import Program
    D = W.dedup(Program([rule(a), rule(b)]))
    us = [unrule(x) for x in D]
    for x, X in ((a, A), (b, B)):
        for g, Ms in X.items():
            for M in Ms: require(any(member(th, u, g, M) for u in us), lambda: f'dedup of {label()} is {list(map(str, D))}, which lacks {show(g)} when {set(M)}')

def same_set(th, a, A, r, what):
    for g, Ms in A.items():
        for M in Ms: require(member(th, r, g, M), lambda: f'{what()}: loses {show(g)} when {set(M)}')
    for g, Ms in extension(th, r).items():
        for M in Ms: require(member(th, a, g, M), lambda: f'{what()}: adds {show(g)} when {set(M)}')

def disjoin(case, st):
    from dyna import Program
    t, c = case
    th = Theory(THEORIES[t]); W = solver(t, 'rw'); Agenda.mode = 'fifo'
    ts = [TYPES[i] for i in c]
    forms = set()
    for o in permutations(ts):
        D = W.disjoin(Program([rule(x) for x in o]))
        st.step()
        us = [unrule(x) for x in D]
        what = lambda: f'disjoin of {list(map(sh, o))} under {THEORIES[t]} gives {list(map(str, D))}'
        for x in ts:
            for g, Ms in extension(th, x).items():
                for M in Ms: require(any(member(th, u, g, M) for u in us), lambda: f'{what()}, which lacks {show(g)} when {set(M)}')
        for u, v in combinations(us, 2):
            U1, V1 = extension(th, u), extension(th, v)
            for g in U1:
                if g in V1:
                    for M1 in U1[g]:
                        for M2 in V1[g]: require(th.close(M1 | M2) is None, lambda: f'{what()}: {show(g)} belongs to two of them')
        st.state((t, sorted(map(repr, map(canon, D)))))
    st.trace()

def sh(tp): return show(tp[0]) + (' :- ' + ', '.join(map(show, tp[1])) if tp[1] else '')
