"""C28: builtins enumerate exactly the solutions of their relation, in every mode."""
import os
from itertools import product, permutations, islice, combinations
from mc.core import require, Violation
from mc.terms import *

LEVEL = 'model_checking'
RULE = ('every builtin operator, with every assignment of {each value of its domain, a free variable, a shared variable} to the result and the arguments: the solutions against the mathematical relation over a finite universe closed under the operations; '
        'every order of the subgoals of a rule with a builtin and the generators of any subset of its variables, on three evaluators and backward queries: the answer is the relational join, or a delayed constraint')
ASSUMPTIONS = ['numbers are exact (powers of two); numeric operators are given numbers or strings where documented, not booleans']
CASE_LIMIT = 120

NUM = [0, 1, -1, 2, -2, 4, 0.5]
STR = ['', 'a', 'b', 'ab', 'aa', 'aba']
BOOL = [True, False]
ANY = [0, 2, -1, 0.5, 'a', True, ('t',), ('f', 1)]
INT = [-1, 0, 1, 3]

if os.environ.get('MC_TIER') == 'thorough':
    NUM += [-4, 8, 0.25, -0.5]; STR += ['bb', 'abb', 'ba']; ANY += [1e9, ('g', 1, 2), '']; INT += [-2, 5]

U_NUM = sorted({s * x for s in (1, -1) for x in [0, .0625, .125, .25, .5, .75, 1, 1.5, 2, 2.5, 3, 3.5, 4, 4.5, 5, 6, 8, 16]})
U_STR = [''.join(x) for k in range(4) for x in product('ab', repeat=k)]
isn = lambda *xs: all(isinstance(x, (int, float)) and not isinstance(x, bool) for x in xs)
iss = lambda *xs: all(isinstance(x, str) for x in xs)
isb = lambda *xs: all(isinstance(x, bool) for x in xs)

CMP = {'<': lambda x, y: x < y, '>': lambda x, y: x > y, '<=': lambda x, y: x <= y, '>=': lambda x, y: x >= y, '==': lambda x, y: x == y and isb(x) == isb(y), '!=': lambda x, y: not (x == y and isb(x) == isb(y))}

def holds(op, v, *a):
    n = len(a)
    if op == '-' and n == 1: return isn(v, *a) and v == -a[0]
    if op == '+' and n == 1: return isn(v, *a) and v == a[0]
    if op == 'abs': return isn(v, *a) and v == abs(a[0])
    if op == 'str': return isb(v) and v == isinstance(a[0], str)
    if op == 'int': return isb(v) and v == (isinstance(a[0], int) and not isb(a[0]))
    if op == '!': return isb(v, *a) and v == (not a[0])
    if op == '+': return (isn(v, *a) or iss(v, *a)) and v == a[0] + a[1]
    if op == '-': return isn(v, *a) and v == a[0] - a[1] or iss(v, *a) and a[0] == v + a[1]
    if op == '*': return isn(v, *a) and v == a[0] * a[1] or iss(v, a[0]) and isinstance(a[1], int) and not isb(a[1]) and v == a[0] * a[1]
    if op == '/': return isn(v, *a) and a[1] != 0 and v == a[0] / a[1]
    if op in CMP: return isb(v) and (isn(*a) or iss(*a)) and v == CMP[op](*a)
    if op == 'min': return isn(v, *a) and v == min(a)
    if op == 'max': return isn(v, *a) and v == max(a)
    if op == 'range': return v is True and isn(a[0]) and a[0] in range(a[1], a[2])
    raise AssertionError(op)

# op -> (domains of result and arguments, universe for each)
OPS = {
    'neg': ('-', [NUM, NUM]), 'pos': ('+', [NUM, NUM]), 'abs': ('abs', [NUM, NUM]), 'str': ('str', [BOOL, ANY]), 'int': ('int', [BOOL, ANY[:5] + ANY[6:]]), 'not': ('!', [BOOL, BOOL]),
    'add': ('+', [NUM] * 3), 'sub': ('-', [NUM] * 3), 'mul': ('*', [NUM] * 3), 'div': ('/', [NUM] * 3), 'min': ('min', [NUM] * 3), 'max': ('max', [NUM] * 3),
    'cat': ('+', [STR] * 3), 'uncat': ('-', [STR] * 3), 'rep': ('*', [['', 'a', 'aa', 'abab'], STR[:5], [0, 1, 2, 3]]),
    'range': ('range', [[True], [-1, 0, 1, 2, 5], INT, INT]),
    **{c: (c, [BOOL, NUM, NUM]) for c in CMP}, **{c + 's': (c, [BOOL, STR, STR]) for c in CMP},
}
FREE = ['?A', '?B', '?C']

def universe(dom):
    if dom is BOOL or dom == [True]: return BOOL
    if all(isinstance(x, str) for x in dom): return U_STR
    if dom is NUM: return U_NUM
    if all(isinstance(x, int) for x in dom): return list(range(-3, 6))
    return dom

def groups(tier):
    yield 'modes', [(o, i, j) for o, (_, ds) in OPS.items() for i in range(len(ds[0]) + 1) for j in range(len(ds[1]) + 2)]
    yield 'equality', [(i,) for i in range(len(EQ))]
    yield 'infinite', [(0,)]
    yield 'rules', [(i, gens) for i, (_, vs, _) in enumerate(RULES) for k in range(len(vs) + 1) for gens in combinations(vs, k)]

def check(group, case, st):
    {'modes': modes, 'equality': equality, 'infinite': infinite, 'rules': rules}[group](case, st)

# ------------------------------------------------------------------ all modes of the operators

def modes(case, st):
    name, i, j = case
    op, doms = OPS[name]
    first = (doms[0] + ['?A'])[i]
    second = (doms[1] + ['?A', '?B'])[j]
    rest = [d + ['?A', '?B', '?C'] for d in doms[2:]]
    for more in product(*rest):
        args = [first, second, *more]
        if not well(args): continue
        one_mode(name, op, doms, args, st)

def isfree(x): return isinstance(x, str) and x.startswith('?')

def well(args):
    "free variables are numbered in order of appearance"
    seen = []
    for x in args:
        if isfree(x) and x not in seen: seen.append(x)
    return seen == FREE[:len(seen)]

def one_mode(name, op, doms, args, st):
    from dyna import Var, Term, InstFault
    from dyna.builtin import Builtins
    if name == 'int' and isfree(args[1]) and args[0] is True: return      # infinite: see group
    vs = {}
    for k, x in enumerate(args):
        if isfree(x): vs.setdefault(x, (Var(x[1:]), k))
    conv = lambda x: vs[x][0] if isfree(x) else to_dyna(x, {})
    q = Term('is', conv(args[0]), Term(op, *[conv(x) for x in args[1:]]))
    st.state((name, args)); st.step()
    sols = []
    try:
        for _ in Builtins(None)(q):
            names = {}
            sols.append({x: from_dyna(v, names) for x, (v, _) in vs.items()})
            require(len(sols) < 200, f'{name}{args}: too many solutions')
    except InstFault:
        require(vs, f'{q} is ground but was delayed')
        require(not sols, f'{q}: delayed after {sols}')
        st.count('delayed')
        return
    finally:
        for x, (v, _) in vs.items(): require(not v.is_bound(), f'{q}: a variable stays bound') if sys_ok() else None
    st.outcome((name, args, sols))
    # every tuple of the universe is an instance of as many solutions as the relation allows: one or none
    us = [list(dict.fromkeys(typed(universe(doms[k])))) for x, (_, k) in vs.items()]
    keys = list(vs)
    for tup in product(*us):
        tup = [u for _, u in tup]
        val = dict(zip(keys, tup))
        full = [val[x] if isfree(x) else x for x in args]
        want = 1 if holds(op, *full) else 0
        got = sum(covers_inst(s, val) for s in sols)
        st.trace()
        require(got == want, f'{q}: {val} is a solution {want} times, but found {got} times: {sols}')
    # nothing outside the relation: every ground solution is one
    for s in sols:
        if any(tvars(t) for t in s.values()): continue
        full = [s[x] if isfree(x) else x for x in args]
        require(holds(op, *full), f'{q}: {s} is not a solution')

def sys_ok():
    import sys
    return sys.exc_info()[0] is None

def typed(xs): return [(type(x).__name__, x) for x in xs]

def covers_inst(sol, val):
    "the (possibly nonground) solution covers this assignment"
    s = {}
    for k, t in sol.items():
        s = mgu(t, val[k], s)
        if s is None: return 0
        if isinstance(t, bool) != isinstance(val[k], bool) and not isv(t): return 0
    return 1

def infinite(case, st):
    from dyna import Var, Term
    from dyna.builtin import Builtins
    for n in (1, 2, 5, 20, 101):
        X = Var('X')
        g = Builtins(None)(Term('is', True, Term('int', X)))
        out = []
        for _ in islice(g, n): out.append(from_dyna(X, {}))
        st.step(n); st.state(n)
        require(all(isinstance(x, int) for x in out) and len(set(out)) == n, f'int enumerates {out}')
        require(all(k in out for k in range(-((n - 1) // 2), (n - 1) // 2 + 1)), f'int enumerates unfairly: {out}')

# ------------------------------------------------------------------ equality: unification

T = [1, 2.0, 'a', True, ('k',), ('f', V('A')), ('f', 1), ('g', V('A'), V('B')), ('g', V('B'), V('A')), ('g', V('A'), V('A')), V('A'), V('B'), ('f', ('f', V('B'))), ('$cons', V('A'), V('B')), ('$cons', 1, ('$nil',))]
EQ = [(x, y) for x in T for y in T]

def equality(case, st):
    from dyna import Term
    from dyna.builtin import Builtins
    x, y = EQ[case[0]]
    want = mgu(x, y, {})
    env = {}
    q = Term('=', to_dyna(x, env), to_dyna(y, env))
    for v in 'AB': to_dyna(V(v), env)
    got = []
    for _ in Builtins(None)(q):
        names = {}
        got.append(tuple(from_dyna(env[v], names) for v in 'AB'))
    st.state((x, y)); st.step()
    w = [] if want is None else [rename(('r', subst(V('A'), want), subst(V('B'), want)))]
    require([rename(('r', *g)) for g in got] == w, f'{x} = {y}: {got}, expected {w}')
    require(not any(v.is_bound() for v in env.values()), f'{x} = {y}: a variable stays bound')

# ------------------------------------------------------------------ builtins inside rules

GEN = {'n': [0, 1, 2, -1, 4], 's': ['a', 'ab', 'b', ''], 'b': [True, False], 'i': [0, 1, 3]}
# (builtin subgoal, its variables with their kinds, relation)
RULES = [
    ('X is Y + Z', 'XYZ', ('nnn', lambda x, y, z: x == y + z)),
    ('X is Y - Z', 'XYZ', ('nnn', lambda x, y, z: x == y - z)),
    ('X is Y * Z', 'XYZ', ('nnn', lambda x, y, z: x == y * z)),
    ('X is Y / Z', 'XYZ', ('nnn', lambda x, y, z: z != 0 and x == y / z)),
    ('X is Y + Y', 'XY', ('nn', lambda x, y: x == y + y)),
    ('X is Y + 1', 'XY', ('nn', lambda x, y: x == y + 1)),
    ('X is X * Y', 'XY', ('nn', lambda x, y: x == x * y)),
    ('X is -Y', 'XY', ('nn', lambda x, y: x == -y)),
    ('X is abs(Y)', 'XY', ('nn', lambda x, y: x == abs(y))),
    ('X is min(Y,Z)', 'XYZ', ('nnn', lambda x, y, z: x == min(y, z))),
    ('X is max(Y,Z)', 'XYZ', ('nnn', lambda x, y, z: x == max(y, z))),
    ('X is (Y < Z)', 'XYZ', ('bnn', lambda x, y, z: x == (y < z))),
    ('X is !Y', 'XY', ('bb', lambda x, y: x == (not y))),
    ('true is range(X,Y,Z)', 'XYZ', ('nii', lambda x, y, z: x in range(y, z))),
    ('X is Y + Z', 'XYZ', ('sss', lambda x, y, z: x == y + z)),
    ('Y < Z', 'YZ', ('nn', lambda y, z: y < z)),
    ('Y <= Z', 'YZ', ('nn', lambda y, z: y <= z)),
    ('Y > Z', 'YZ', ('nn', lambda y, z: y > z)),
    ('Y >= Z', 'YZ', ('nn', lambda y, z: y >= z)),
    ('Y == Z', 'YZ', ('nn', lambda y, z: y == z)),
    ('Y != Z', 'YZ', ('nn', lambda y, z: y != z)),
    ('Y != Z', 'YZ', ('ss', lambda y, z: y != z)),
    ('Y = Z', 'YZ', ('nn', lambda y, z: y == z)),
    ('Y = f(Z)', 'Z', ('n', None)),
]

HOWS = ('S1', 'S2', 'fc', 'agenda')

def answers(p, how):
    "ground answers as a dict, or None if evaluation was refused / something is left delayed"
    from dyna import InstFault
    from dyna.exceptions import SolverLimitation
    try:
        if how == 'S1': q = p.solver()().sol()
        elif how == 'S2': q = p.solver2()().sol()
        elif how == 'fc': q = p.fc().run_builtins().constant_folding()
        elif how == 'agenda': q = p.agenda().run_builtins().constant_folding()
    except (InstFault, SolverLimitation):
        return None
    out = {}
    for r in q:
        h = from_dyna(r.head, {})
        if h[0] != 'h': continue
        if tvars(h) or len(r.body) > 1 or any(not isinstance(b, (int, float)) for b in r.body): return None
        out[h] = out.get(h, 0) + (r.body[0] if r.body else 1)
    return out

def rules(case, st):
    from dyna import Program
    i, gens = case
    src, vs, (kinds, rel) = RULES[i]
    if rel is None: return structure(src, gens, st)
    dom = {v: GEN[k] for v, k in zip(vs, kinds)}
    want = {}
    for tup in product(*[dom[v] for v in vs]):
        if rel(*tup): want[('h', *pad([tup[vs.index(v)] for v in vs]))] = None
    hs = ','.join((list(vs) + ['0', '0', '0'])[:3])
    facts = ''.join(f'd{v}({txt(x)}) += {k}. ' for v in gens for k, x in enumerate(dom[v], 2))
    goals = [f'({src})' if ' ' in src else src] + [f'd{v}({v})' for v in gens]
    def weight(h):
        w = 1
        for v in gens:
            x = h[1 + vs.index(v)]
            w *= 2 + [k for k, y in enumerate(dom[v]) if type(y) in (int, float) and y == x or y == x and type(y) == type(x)][0]
        return w
    # tuples whose undetermined variables range over everything: only those are exact
    results = set()
    for body in permutations(goals):
        p = Program(f'h({hs}) += {" * ".join(body)}.\n{facts}')
        for how in HOWS:
            got = answers(p, how)
            st.step(); st.state((src, gens, body, how))
            if got is None:
                require(len(gens) < len(vs) or how in ('S1', 'S2') and body[-1] != goals[0], f'{body} [{how}]: every variable is generated, but the constraint is not resolved')
                st.count('delayed')
                continue
            st.outcome((src, gens, sorted(map(repr, got))))
            got = {k: v for k, v in got.items() if v}
            if len(gens) == len(vs):
                require(set(got) == set(want), f'{body} [{how}]: {sorted(map(str, set(got) ^ set(want)))} differ')
            else:
                # generated variables restrict; the others are determined by the relation
                for h in got:
                    t = h[1:1 + len(vs)]
                    require(rel(*t), f'{body} [{how}]: {h} does not satisfy {src}')
                    require(all(t[vs.index(v)] in dom[v] for v in gens), f'{body} [{how}]: {h} is not generated')
                for h in want:
                    require(h in got, f'{body} [{how}]: {h} is missing')
            for h in got:
                require(abs(got[h] - weight(h)) < 1e-9, f'{body} [{how}]: {h} has value {got[h]}, not {weight(h)}')
            results.add(repr(sorted(map(repr, {(tuple(float(z) + 0.0 if isn(z) else z for z in k), v) for k, v in got.items()}))))
    require(len(results) <= 1, f'{src} with {gens}: the answer depends on the order or evaluator: {results}')

def structure(src, gens, st):
    from dyna import Program
    for body in permutations([f'({src})'] + [f'd{v}({v})' for v in gens]):
        p = Program(f'h(Y,0,0) += {" * ".join(body)}. dZ(1) += 2. dZ(4) += 3.')
        for how in HOWS:
            got = answers(p, how)
            st.step(); st.state((src, gens, body, how))
            if gens: require(got == {('h', ('f', 1), 0, 0): 2, ('h', ('f', 4), 0, 0): 3}, f'{body} [{how}]: {got}')

def pad(t): return (list(t) + [0, 0, 0])[:3]
def txt(x): return f'"{x}"' if isinstance(x, str) else str(x).lower() if isinstance(x, bool) else repr(x)
