"""C01: unification computes a most general unifier and always undoes its bindings."""
from itertools import product
from mc.core import Violation, require
from mc.terms import *

LEVEL = 'model_checking'
RULE = ('all ordered pairs of terms up to depth 2 over {X,Y,Z,atom a,1,"s"; g/1,f/2}; all nested sequences of up to three '
        'equations between depth<=1 terms, each with every place to abandon/raise; state = binding store after each event; '
        'compared with an independent Robinson unifier')
ASSUMPTIONS = ['signature limited to three variables, three constants, one unary and one binary functor']
CASE_LIMIT = 20

def canon_first(ts):
    "keep one representative per variable naming of the left term (first occurrences in order X,Y,Z)"
    order = ['X', 'Y', 'Z']
    return [t for t in ts if tvars(t) == order[:len(tvars(t))]]

def groups(tier):
    X, Y, Z = V('X'), V('Y'), V('Z')
    leaves = [X, Y, ('a',), 1] if tier == 'quick' else [X, Y, Z, ('a',), 1, 's']
    small = enum_terms([X, Y, Z, ('a',), 1, 's'], [('g', 1), ('f', 2)], 1)
    # depth 2 terms
    d2 = enum_terms(leaves[:4], [('g', 1), ('f', 2)], 2)
    left = canon_first(d2)
    yield 'pairs', [(t,) for t in left]           # inner loop over all right terms
    if tier == 'thorough':
        d2b = enum_terms([X, Y, Z, ('a',)], [('g', 1), ('f', 2)], 2)
        yield 'pairs3', [(t,) for t in canon_first(d2b)]
    # histories of nested equations
    seeds = enum_terms([X, Y, Z, ('a',)], [('g', 1)], 1) + [('f', X, Y), ('f', Y, X), ('f', X, X), ('f', Z, ('a',)), ('f', ('g', Y), Z), ('f', X, ('g', X))]
    eqs = [(s, t) for i, s in enumerate(seeds) for t in seeds[i:]]
    if tier == 'quick': eqs3 = [(s, t) for s, t in eqs if size(s) + size(t) <= 3 and (isv(s) or isv(t))]
    else: eqs3 = [(s, t) for s, t in eqs if size(s) + size(t) <= 5]
    yield 'nested2', [(e,) for e in eqs]
    yield 'nested3', list(product(eqs3, eqs3))
    yield 'seq', [(t,) for t in small]

_cache = {}
def universe(name):
    if name not in _cache:
        for g, cs in groups('thorough' if name in ('pairs3',) else 'quick'): pass
        X, Y, Z = V('X'), V('Y'), V('Z')
        if name == 'pairs': _cache[name] = enum_terms([X, Y, ('a',), 1], [('g', 1), ('f', 2)], 2)
        elif name == 'pairs3': _cache[name] = enum_terms([X, Y, Z, ('a',)], [('g', 1), ('f', 2)], 2)
        elif name == 'nested':
            seeds = enum_terms([X, Y, Z, ('a',)], [('g', 1)], 1) + [('f', X, Y), ('f', Y, X), ('f', X, X), ('f', Z, ('a',)), ('f', ('g', Y), Z), ('f', X, ('g', X))]
            _cache[name] = [(s, t) for i, s in enumerate(seeds) for t in seeds[i:]]
        elif name == 'small': _cache[name] = enum_terms([X, Y, Z, ('a',), 1, 's'], [('g', 1), ('f', 2)], 1)
    return _cache[name]


def store(env):
    "observable binding state: every variable's current value, by identity"
    names = {id(v): n for n, v in env.items()}
    return tuple((n, repr(from_dyna(v, dict(names)))) for n, v in sorted(env.items()))


def one(s, t, st):
    from dyna import unify, unifies, intersect, deref, Subst, Var
    env = {}
    for v in ('X', 'Y', 'Z'): to_dyna(V(v), env)
    a = to_dyna(s, env); b = to_dyna(t, env)
    want = mgu(s, t, {})
    before = store(env)
    n = 0
    for _ in unify(a, b):
        n += 1
        require(want is not None, 'unify succeeded on non-unifiable', show(s), show(t))
        ids = {id(v): k for k, v in env.items()}
        ra = from_dyna(a, dict(ids)); rb = from_dyna(b, dict(ids))
        require(ra == rb, 'unify left the sides different', show(ra), show(rb), 'for', show(s), show(t))
        # most general: the simultaneous instance of all variables is a variant of Robinson's
        got = ('tuple', *[from_dyna(env[v], dict(ids)) for v in ('X', 'Y', 'Z')])
        ref = ('tuple', *[subst(V(v), want) for v in ('X', 'Y', 'Z')])
        require(variant(got, ref), 'not a most general unifier', show(s), '=', show(t), 'got', show(got), 'want', show(ref))
        st.state(('bound', got))
    require(n == (want is not None), f'unify yielded {n} times for', show(s), show(t), 'mgu exists:', want is not None)
    require(store(env) == before, 'bindings survive unify', show(s), show(t))
    require(unifies(a, b) == (want is not None), 'unifies disagrees', show(s), show(t))
    require(store(env) == before, 'bindings survive unifies', show(s), show(t))
    z = intersect(a, b)
    if want is None: require(z is None, 'intersect nonempty', show(s), show(t))
    else:
        require(z is not None and variant(from_dyna(z), subst(s, want)), 'intersect wrong', show(s), show(t), z)
        # the intersection is a fresh term: shares no variable with its inputs
        ids = set()
        from dyna import term_vars
        require(not any(x is y for x in term_vars(z) for y in env.values()), 'intersect is not fresh', show(s), show(t))
    require(store(env) == before, 'bindings survive intersect', show(s), show(t))
    # explicit substitution flavour
    S = Subst().mgu(a, b)
    if want is None: require(S is Subst.FAIL, 'mgu should fail', show(s), show(t))
    else:
        require(S is not Subst.FAIL, 'mgu fails on unifiable', show(s), show(t))
        ids = {id(v): k for k, v in env.items()}
        got = ('tuple', *[from_dyna(S(env[v]), dict(ids)) for v in ('X', 'Y', 'Z')])
        ref = ('tuple', *[subst(V(v), want) for v in ('X', 'Y', 'Z')])
        require(variant(got, ref), 'explicit substitution not most general', show(s), '=', show(t), 'got', show(got), 'want', show(ref))
    require(store(env) == before, 'bindings survive mgu', show(s), show(t))
    st.step(4); st.outcome(want is None or show(rename(subst(s, want))))
    st.trace()


class Boom(Exception): pass

def nested(eqs, st):
    """Run the equations as nested generators; then, for every depth and every way
    to leave (exhaust, break, exception, close), check the store is restored layer by layer."""
    from dyna import unify
    env = {}
    for v in ('X', 'Y', 'Z'): to_dyna(V(v), env)
    pairs = [(to_dyna(s, env), to_dyna(t, env)) for s, t in eqs]
    ref = [{}]
    for s, t in eqs:
        ref.append(None if ref[-1] is None else mgu(s, t, ref[-1]))
    depth_ok = sum(r is not None for r in ref) - 1     # number of equations that can be satisfied in sequence
    base = store(env)

    def expect(k):
        ids = {id(v): n for n, v in env.items()}
        got = ('tuple', *[from_dyna(env[v], dict(ids)) for v in ('X', 'Y', 'Z')])
        want = ('tuple', *[subst(V(v), ref[k]) for v in ('X', 'Y', 'Z')])
        require(variant(got, want), f'after {k} nested equations of', eqs, 'store is', show(got), 'want', show(want))
        st.state(('store', got)); st.step()

    reached = [0]
    def go(k, leave_at, how):
        expect(k)
        reached[0] = max(reached[0], k)
        if k == leave_at and how == 'raise': raise Boom()
        if k == len(pairs): return
        here = store(env)
        gen = unify(*pairs[k])
        try:
            for _ in gen:
                go(k + 1, leave_at, how)
                if k + 1 == leave_at and how == 'break': break
                if k + 1 == leave_at and how == 'close':
                    gen.close()
                    require(store(env) == here, 'close() leaves bindings', eqs)
        finally:
            if how == 'raise': gen.close()
        if how == 'break': del gen
        require(store(env) == here, f'store not restored after leaving level {k} ({how}@{leave_at})', eqs)

    go(0, -1, 'exhaust')
    require(reached[0] == depth_ok, 'nested unification reached depth', reached[0], 'want', depth_ok, eqs)
    for leave in range(1, depth_ok + 1):
        for how in ('break', 'close', 'raise'):
            try: go(0, leave, how)
            except Boom: pass
            require(store(env) == base, 'store not restored', how, leave, eqs)
            st.trace()
    st.outcome((depth_ok, repr(ref[depth_ok]) if depth_ok >= 0 else None))
    st.trace()


def check(group, case, st):
    if group in ('pairs', 'pairs3'):
        for t in universe(group): one(case[0], t, st)
    elif group == 'nested2':
        for e2 in universe('nested'): nested([case[0], e2], st)
    elif group == 'nested3':
        e3s = [e for e in universe('nested') if size(e[0]) + size(e[1]) <= 3]
        for e3 in e3s: nested([case[0], case[1], e3], st)
    elif group == 'seq':
        # python tuples/lists of terms unify like argument lists of equal length, never otherwise
        from dyna import unify
        for t in universe('small'):
            for wrap in (tuple, list):
                env = {}
                for v in ('X', 'Y', 'Z'): to_dyna(V(v), env)
                a = wrap([to_dyna(case[0], env), to_dyna(V('X'), env)]); b = wrap([to_dyna(t, env), to_dyna(('a',), env)])
                want = mgu(('f', case[0], V('X')), ('f', t, ('a',)), {})
                before = store(env); n = 0
                for _ in unify(a, b): n += 1
                require(n == (want is not None), 'sequence unification', show(case[0]), show(t))
                require(not list(unify(a, wrap([b[0]]))), 'sequences of different length unify', show(case[0]))
                require(store(env) == before, 'sequence unification leaks', show(case[0]), show(t))
                st.step(); st.trace()
