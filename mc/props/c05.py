"""C05: printing and re-parsing preserves meaning; syntactic sugar means its expansion."""
import os
from itertools import product
from mc.core import require, Violation
from mc.terms import *
from mc.dynaio import *

LEVEL = 'model_checking'
RULE = ('every term made of constants, variables, plain/quoted functors, lists and every nesting of two (three at one operator per level; thorough: all) operators in every position, every rule and program of an alphabet of heads, bodies and declarations: '
        'printed and re-parsed, compared structurally up to variable renaming; every flat operator sequence of length 2 against an independent precedence parser; every chained comparison, list, declaration and layout variant against its documented expansion')
ASSUMPTIONS = ['functors that contain a single quote and cannot be written without quotes have no notation',
               'rule bodies whose subgoals are products or conjunctions are the flattened rule; rules whose head functor is an aggregator have no notation',
               'the word operators and the documented precedence table are the specification of the grammar']
CASE_LIMIT = 120

# the reference representation uses ('?', name) for variables: the functor `?` is spelled QM here
QM = '\0?'
def to_dyna(t, env):
    from dyna import Term, Var
    if isv(t):
        if t[1] not in env: env[t[1]] = Var(t[1])
        return env[t[1]]
    if not isterm(t): return t
    return Term('?' if t[0] == QM else t[0], *[to_dyna(x, env) for x in t[1:]])

def from_dyna(t, names):
    from dyna import Term, Var
    if isinstance(t, Var): return V(names.setdefault(id(t), f'V{len(names)}'))
    if not isinstance(t, Term): return t
    return (QM if t.fn == '?' else t.fn, *[from_dyna(x, names) for x in t.args])

def rule_of(r):
    names = {}
    return (from_dyna(r.head, names), tuple(from_dyna(b, names) for b in r.body))

# the operator table of the documentation: (priority, associativity)
BIN = {'+=': (0, 'N'), ':-': (0, 'N'), '|': (2, 'R'), ',': (1.1, 'L'), '^': (8, 'R'), '/': (7.5, 'L'), '//': (7.5, 'L'), '\\': (7.5, 'L'),
       '*': (7, 'L'), '@': (7.1, 'L'), '#': (7.2, 'L'), '+': (6, 'L'), '-': (6.5, 'L'), ':': (4.1, 'L'), '==': (4, 'N'), '!=': (4, 'N'),
       'is': (3.9, 'R'), '<-': (3.9, 'R'), '<--': (3.9, 'R'), '-->': (3.9, 'R'), '~>': (3.9, 'R'), '->': (3.9, 'R'), '<~': (3.9, 'R'),
       '~': (3.9, 'R'), '::': (3.9, 'R'), '↦': (3.8, 'L'), '=>': (3.8, 'R'), '∈': (4, 'N'), '=/=': (4, 'N'), '&': (3, 'R'), '=': (1.5, 'N'),
       ';': (0, 'L'), '<': (5, 'N'), '>': (5, 'N'), '<=': (5, 'N'), '>=': (5, 'N')}
UN = {'not': 9, '+': 9, '-': 9, '~': 9, '&': 9, '*': 9, '!': 9.1, QM: 9}
CMP = ['<', '>', '<=', '>=']

a, b, c, d = ('a',), ('b',), ('c',), ('d',)
X, Y = V('X'), V('Y')
CONSTS = [0, 1, -1, 12, 0.0, 0.5, -0.5, 1.0, 1e-05, 1e16, -2.5e-07, float('inf'), True, False, '', 'abc', 'it\'s', 'say "hi"', '\'"', '\\', 'a\\', '\\n', 'a\nb', '\\"', '\\\\', '% no comment', 'p(X).', 'a. b', '_', ' ', '∂', 'tab\there']
NAMES = ['f', 'fooBar', 'f_1', "f'", 'f"', '∂', 'αβ', '$x', '_f', 'F', 'Foo', 'a b', '1', 'f-g', '.', '<.>', 'a.b', 'true', 'false', 'inf', 'info', 'truex', 'not', 'is', 'for', 'nota', 'isa', 'forall', 'input', 'output', '+', '*', '-', '!', QM,
         ',', '|', '=', '==', ':-', '+=', '%', '"', '""', '$nil', '$cons', '$', '[', '(', '->', '~', 'for x', '☐', '♦', 'f♦', 'f☐', '¿', 'ϯ', '∘', 'f∘', 'f₁', '$$f', 'in', '∞', '\\', ' ', 'f%', '`', 'params']

def pos2(t):
    "the positions a term is printed in"
    return [('f', t), ('f', t, a), ('f', a, t), ('$cons', t, ('$nil',)), ('$cons', a, ('$cons', t, ('$nil',))), ('$cons', a, t), ('f', ('f', t))]

def bin_ok(t):
    "has a notation: an aggregator as the main operator of a clause makes it a rule"
    return True

def ops2():
    L = [(o, 2) for o in BIN] + [(o, 1) for o in UN]
    return L

def build(o, args): return (o[0], *args)

def nests(outer, inner):
    "inner in each operand of outer; other operands are atoms"
    i = build(inner, [a, b][:inner[1]])
    if outer[1] == 1: return [build(outer, [i])]
    return [build(outer, [i, c]), build(outer, [c, i])]

# one operator of each kind (level and associativity) for the deeper nestings
FEW = [('^', 2), ('/', 2), ('\\', 2), ('*', 2), ('-', 2), ('<', 2), (':', 2), ('==', 2), ('is', 2), ('->', 2), ('↦', 2), ('=>', 2), ('&', 2), ('|', 2), ('=', 2), (',', 2), (';', 2), ('+=', 2), ('-', 1), ('not', 1), ('!', 1), (QM, 1)]

HEADS = [('h',), ('h', X), ('h', 1, ('g', Y)), X, ('+', X, Y), ('-', X), (',', a, b), ('=', X, Y), ('is', X, Y), (';', a, b), ('$cons', X, Y), ('Foo', X), 'str', 3, ('not', X), ('<', X, Y), ('true',)]
SUBS = [('p', X), ('q', X, Y), X, 2, -2, 0.5, -0.5, 1e-05, True, 'a"b', '', ('=', X, 1), (';', a, b), ('-', X), ('+', X, Y), ('<', X, Y), ('is', X, ('+', Y, 1)), ('$cons', X, ('$nil',)), ('for',), ('not', ('p', X)), ('/', X, Y), ('->', a, b), ('=', ('-', 1), X)]
DECL = [None, [], [('p', X)], [('p', X), ('q', X, Y)], [('+', X, Y)], [('p', ('$cons', X, Y)), 'x'], [('Foo', X), X], [('=', X, Y)], [(',', a, b)], [('|', a, b)]]

def groups(tier):
    yield 'constants', [(i,) for i in range(len(CONSTS))]
    yield 'functors', [(n,) for n in NAMES]
    yield 'nest2', [(o, i) for o in ops2() for i in ops2()]
    S = FEW if tier == 'quick' else ops2()
    yield 'nest3', [(o, i) for o in S for i in S]
    yield 'lists', [(i,) for i in range(len(lists()))]
    yield 'variables', [(n,) for n in product(range(len(VNAMES)), repeat=3)]
    yield 'rules', [(i, j) for i in range(len(HEADS)) for j in range(len(SUBS) + 1)]
    yield 'programs', [(i, j, r) for i in range(len(DECL)) for j in range(len(DECL)) for r in range(len(PROGS))]
    yield 'flat', [(o, i) for o in ops2() for i in ops2()]
    yield 'chains', [(n,) for n in product(CMP, repeat=2)] + [(n,) for n in product(CMP, repeat=3)]
    yield 'sugar', [(i,) for i in range(len(SUGAR))]
    yield 'layout', [(i,) for i in range(len(LAYOUT))]

# display names that collide with the names the printer makes up
VNAMES = ['X', '$X1', '$X2', 'Y', '$$X11', "X'", '$Gen1']

def lists():
    E = [1, X, ('f', X), (',', a, b), ('|', a, b), '"', ('$nil',), ('$cons', a, ('$nil',)), ('&', a, b), (';', a, b), ('$cons', a, X), ('=', X, 1), ('$cons',), ('$cons', a), ('$cons', a, b, c), ('$nil', a)]
    out = []
    for k in range(3):
        for xs in product(E, repeat=k):
            for rest in [('$nil',), X, 1, ('f', X), ('|', a, b), (',', a, b), ('$cons', a), ('$nil', a)] if k else [('$nil',)]:
                t = rest
                for x in reversed(xs): t = ('$cons', x, t)
                out.append(t)
    return out

PROGS = [[], [(('h', X), (('p', X), ('q', X, Y)))], [(('h', X), (('p', X),)), (('h', X), (('p', X),)), (('h', 1), (2,))], [(a, ()), (b, (True,)), (('h', 'a. b'), ('%',))],
         [((',', a, b), ((';', a, b), 0.5))]]

def show(t):
    from dyna.pretty import pp
    return pp(t, color=False)

def same(x, y):
    "structural identity up to renaming, with the types of constants"
    return tag(rename(x)) == tag(rename(y))

def tag(t):
    if isinstance(t, tuple): return tuple(tag(x) if i else x for i, x in enumerate(t)) if not isv(t) else t
    return (type(t).__name__, t)

def parse_term(src):
    from dyna import term
    try: return from_dyna(term(src), {})
    except Exception as e: raise Violation(f'does not parse: {src!r} ({type(e).__name__})')

def parse_prog(src, what):
    from dyna import Program
    try: return Program(src)
    except Exception as e: raise Violation(f'{what} prints as {src!r}, which does not parse ({type(e).__name__})')

def roundtrip(t, st):
    s = show(to_dyna(t, {}))
    u = parse_term(s)
    st.state(t); st.outcome(s); st.step(); st.trace()
    require(same(t, u), f'{t} prints as {s!r}, which parses as {u}')
    return s

def roundtrip_rule(r, st):
    from dyna import Rule
    env = {}
    h, body = r
    q = Rule(to_dyna(h, env), *[to_dyna(x, env) for x in body])
    s = show(q) + '.'
    u = parse_prog(s, r)
    st.state(r); st.outcome(s); st.step(); st.trace()
    require(len(u) == 1, f'{r} prints as {s!r}, which parses as {len(u)} rules')
    u = rule_of(list(u)[0])
    require(same(('r', *body, h), ('r', *u[1], u[0])), f'{r} prints as {s!r}, which parses as {u}')

def check(group, case, st):
    if group == 'constants':
        x = CONSTS[case[0]]
        roundtrip(x, st)
        for t in pos2(x): roundtrip(t, st)
        for o in ops2():
            roundtrip(build(o, [x, a][:o[1]]), st)
            if o[1] == 2: roundtrip(build(o, [a, x]), st)
        roundtrip_rule((('h', x), ()), st)
        roundtrip_rule((('h', x), (x,)), st)
        roundtrip_rule((a, (x, ('p', x), x)), st)
    elif group == 'functors':
        [n] = case
        for k in range(4):
            t = (n, *[a, X, 'x'][:k])
            if n in (',', '*') and k == 2 or n in ('+=', ':-') and k == 2: rule_ok = False
            else: rule_ok = True
            roundtrip(t, st)
            for u in pos2(t): roundtrip(u, st)
            for o in ops2():
                roundtrip(build(o, [t, a][:o[1]]), st)
                if o[1] == 2: roundtrip(build(o, [a, t]), st)
            if not (n in ('+=', ':-') and k == 2):
                roundtrip_rule((t, ()), st)
            roundtrip_rule((t, (a,)), st)
            if rule_ok:
                roundtrip_rule((a, (t,)), st); roundtrip_rule((t, (t, t)), st)
    elif group == 'nest2':
        o, i = map(tuple, case)
        for t in nests(o, i):
            roundtrip(t, st)
            for u in pos2(t): roundtrip(u, st)
            if o[0] not in ('+=', ':-') or o[1] == 1: roundtrip_rule((t, ()), st)
            roundtrip_rule((t, (a,)), st)
            if not (o in ((',', 2), ('*', 2), ('+=', 2), (':-', 2))):
                roundtrip_rule((a, (t,)), st); roundtrip_rule((a, (b, t)), st); roundtrip_rule((a, (t, b)), st)
    elif group == 'nest3':
        o, i = map(tuple, case)
        for z in (FEW if os.environ.get('MC_TIER') != 'thorough' else ops2()):
            inner = build(z, [a, b][:z[1]])
            mids = [build(i, [inner, c]), build(i, [c, inner])] if i[1] == 2 else [build(i, [inner])]
            for m in mids:
                for t in ([build(o, [m, d]), build(o, [d, m])] if o[1] == 2 else [build(o, [m])]):
                    roundtrip(t, st)
            if o[1] == 2 and i[1] == 2:
                roundtrip(build(o, [inner, build(i, [c, d])]), st)
    elif group == 'lists':
        t = lists()[case[0]]
        roundtrip(t, st); roundtrip(('f', t), st); roundtrip(('=', X, t), st)
        roundtrip_rule((t, (a,)), st); roundtrip_rule((a, (t,)), st)
    elif group == 'variables': variables(case[0], st)
    elif group == 'rules':
        i, j = case
        h = HEADS[i]
        if j == len(SUBS): return roundtrip_rule((h, ()), st)
        roundtrip_rule((h, (SUBS[j],)), st)
        for z in SUBS:
            roundtrip_rule((h, (SUBS[j], z)), st)
            if i < 2:
                for w in SUBS[::3]: roundtrip_rule((h, (SUBS[j], z, w)), st)
    elif group == 'programs': programs(case, st)
    elif group == 'flat': flat(case, st)
    elif group == 'chains': chains(case[0], st)
    elif group == 'sugar': sugar(*SUGAR[case[0]], st)
    elif group == 'layout': layout(LAYOUT[case[0]], st)

def variables(names, st):
    from dyna import Term, Var, Rule
    # three variables with these display names (equal names: different variables); each pattern of reuse
    for pat in [(0, 1, 2), (0, 1, 2, 0), (0, 1, 0, 2), (2, 1, 0, 1, 2), (0, 0, 1, 1, 2)]:
        vs = [Var(VNAMES[n]) for n in names]
        t = Term('f', *[vs[i] for i in pat])
        want = ('f', *[V(str(i)) for i in pat])
        s = show(t)
        u = parse_term(s)
        st.state((names, pat)); st.step(); st.trace()
        require(same(want, u), f'variables {[VNAMES[n] for n in names]} in pattern {pat} print as {s!r}, which parses as {u}')
        r = Rule(Term('h', vs[pat[0]]), *[Term('p', vs[i]) for i in pat])
        s = show(r) + '.'
        [q] = parse_prog(s, 'rule')
        q = rule_of(q)
        require(same(('r', ('h', V(str(pat[0]))), *[('p', V(str(i))) for i in pat]), ('r', q[0], *q[1])), f'rule prints as {s!r}, which parses as {q}')

def programs(case, st):
    from dyna import Program, Rule
    i, j, r = case
    def decl(ts): return None if ts is None else Program([mk((t, ())) for t in ts])
    p = Program([mk(r) for r in PROGS[r]], inputs=decl(DECL[i]), outputs=decl(DECL[j]))
    s = p.plaintext()
    q = parse_prog(s, case)
    st.state(case); st.step(); st.trace(); st.outcome(s)
    cmp_prog(p, q, s)
    s = p.__repr__(color=False, numbered=False, open_brace=None, close_brace=None)
    q = parse_prog(s, case)
    require([can(x) for x in q] == [can(x) for x in p], f'{case} prints as {s!r}')

def mk(r):
    from dyna import Rule
    env = {}
    return Rule(to_dyna(r[0], env), *[to_dyna(x, env) for x in r[1]])

def can(r):
    h, body = rule_of(r)
    return tag(rename(('r', h, *body)))

def cmp_prog(p, q, s):
    require([can(x) for x in p] == [can(x) for x in q], f'{s!r}: rules differ')
    for n in ('inputs', 'outputs'):
        x, y = getattr(p, n), getattr(q, n)
        x = [can(z) for z in x] if x else []; y = [can(z) for z in y] if y else []
        require(x == y, f'{s!r}: {n} differ: {x} {y}')

# ---------------------------------------------------------------- parsing oracle

def order():
    "binding strength: a number per operator, larger binds tighter; equal: same level"
    return {**{o: p for o, (p, _) in BIN.items()}}

def flat(case, st):
    "X op1 Y op2 Z without parentheses means what the precedence table says"
    (o, ko), (i, ki) = case
    O, I = o.strip('\0'), i.strip('\0')
    if ko == 2 and ki == 2:
        (p, al), (q, ar) = BIN[o], BIN[i]
        L = (i, (o, a, b), c); R = (o, a, (i, b, c))
        src = f'a {o} b {i} c'
        if p > q: want = L
        elif q > p: want = R
        elif o in CMP and i in CMP: want = (',', (o, a, b), (i, b, c))
        elif al == ar == 'L': want = L
        elif al == ar == 'R': want = R
        else: return st.count('unspecified')     # different operators of one priority that do not associate
        texts = [src]
        if not (o.isalpha() or i.isalpha() or i[0] in '-+~&*!?' or (o + i)[0] in '.'): texts.append(f'a{o}b{i}c')
    elif ko == 1 and ki == 2:
        texts = [f'{O} a {I} b']; want = (i, (o, a), b)
        if (i, 2) == ('!', 2): return
    elif ko == 2 and ki == 1:
        texts = [f'a {O} {I} b']; want = (o, a, (i, b))
    else:
        # prefix operators: the same one may be repeated; `!` binds tighter than the others
        if o != i and not (i == '!'): return st.count('unspecified')
        texts = [f'{O} {I} a']; want = (o, (i, a))
    for s in texts:
        got = parse_term(s)
        st.state(s); st.step(); st.outcome(repr(got))
        require(same(want, got), f'{s!r} parses as {got}, not {want}')
        # in an argument, anything as loose as the comma needs parentheses
        ops = [x for x, k in case if k == 2]
        if all(BIN[x][0] > 1.1 for x in ops):
            got = parse_term(f'f({s}, {s})')
            require(same(('f', want, want), got), f'f({s}, {s}) parses as {got}')
            if all(BIN[x][0] > 2 for x in ops):
                got = parse_term(f'[{s}|{s}]')
                require(same(('$cons', want, want), got), f'[{s}|{s}] parses as {got}')

def chains(ops, st):
    xs = ['A', '1', 'f(B)', 'C'][:len(ops) + 1]
    ts = [V('A'), 1, ('f', V('B')), V('C')]
    s = xs[0]; want = None
    for k, o in enumerate(ops):
        s += f' {o} {xs[k+1]}'
        y = (o, ts[k], ts[k + 1])
        want = y if want is None else (',', want, y)
    st.state(s); st.step()
    for s2, w2 in [(s, want), (s.replace(' ', ''), want), (f'g({s}, b)', ('g', want, b)), (f'{s}, b', (',', want, b)), (f'{s} = b', ('=', want, b)), (f'A+1 {ops[0]} B*2', (ops[0], ('+', V('A'), 1), ('*', V('B'), 2)))]:
        got = parse_term(s2)
        require(same(w2, got), f'{s2!r} parses as {got}, not {w2}')
    from dyna import Program
    [r] = Program(f'h += p(A), {s}, q(B).')
    want = rename(('r', ('h',), ('p', V('A')), *[(o, ts[k], ts[k + 1]) for k, o in enumerate(ops)], ('q', V('B'))))
    h, body = rule_of(r)
    require(same(want, ('r', h, *body)), f'rule with {s!r} parses as {r}')

# (texts that mean the same, what they mean)
H = ('h', X)
SUGAR = [
    (['h(X) += p(X) * q(X).', 'h(X) :- p(X), q(X).', 'h(X) += p(X), q(X).', 'h(X) :- p(X) * q(X).', 'h(X) += (p(X), q(X)).', 'h(X) += (p(X)) * (q(X)).', 'h(X)+=p(X)*q(X).', 'h(X):-p(X),q(X).', 'h(X) += q(X) for p(X).'],
     [(H, (('p', X), ('q', X)))]),
    (['h(X) += p(X) * q(X) * r(X).', 'h(X) += p(X), q(X), r(X).', 'h(X) += p(X) * q(X), r(X).', 'h(X) += p(X), q(X) * r(X).', 'h(X) += r(X) for p(X) * q(X).', 'h(X) += q(X), r(X) for p(X).', 'h(X) += (p(X), q(X)), r(X).', 'h(X) += p(X), (q(X), r(X)).', 'h(X) += r(X) for p(X), q(X).'],
     [(H, (('p', X), ('q', X), ('r', X)))]),
    (['h(X) += r(X) for q(X) for p(X).'], [(H, (('p', X), ('q', X), ('r', X)))]),
    (['h.', 'h().', '(h).', "'h'."], [(('h',), ())]),
    (['h(a).', 'h(a,).', "'h'(a).", 'h( a ).', 'h(a()).', 'h(((a))).'], [(('h', a), ())]),
    (['h([1,2]).', 'h([1|[2]]).', 'h([1,2|[]]).', "h('$cons'(1,'$cons'(2,'$nil'))).", 'h($cons(1,$cons(2,$nil))).'], [(('h', ('$cons', 1, ('$cons', 2, ('$nil',)))), ())]),
    (['h([X,Y|Z]) += p(Z).', 'h([X|[Y|Z]]) += p(Z).'], [(('h', ('$cons', X, ('$cons', Y, V('Z')))), (('p', V('Z')),))]),
    (['h(_,_) += p(_,X).'], [(('h', V('1'), V('2')), (('p', V('3'), X),))]),
    (['h(_) += p(_). g(_).'], [(('h', V('1')), (('p', V('2')),)), (('g', V('1')), ())]),
    (['a(X) += b(X). b(X) += c(X).', 'a(X)+=b(X).\nb(Y)+=c(Y).'], [(('a', X), (('b', X),)), (('b', X), (('c', X),))]),
    (['h += inf.', 'h += ∞.'], [(('h',), (float('inf'),))]),
    (['h(true) += false.'], [(('h', True), (False,))]),
    (['h(1) += 1.', 'h(1) += +1.'], [(('h', 1), (1,))]),
    (['h(1) += 1.0.', 'h(1) += 1.00 .', 'h(1) += 10e-1.', 'h(1) += +1.0.'], [(('h', 1), (1.0,))]),
    (['h(-1) += -1.5.', 'h(-1) += -15e-1.'], [(('h', -1), (-1.5,))]),
    (['h("a\\"b").'], [(('h', 'a"b'), ())]),
    (['h("a%b") += "c. d". % x'], [(('h', 'a%b'), ('c. d',))]),
    (['h(X-1) += p(X).', 'h(X - 1) += p(X).', 'h((X)-(1)) += p(X).'], [(('h', ('-', X, 1)), (('p', X),))]),
    (['h(X!).', 'h(!X).', 'h((X)!).'], [(('h', ('!', X)), ())]),
    (['h(X) += not p(X).', 'h(X) += not (p(X)).'], [(H, (('not', ('p', X)),))]),
    (['h(X) += p(X) * (q(X); r(X)).'], [(H, (('p', X), (';', ('q', X), ('r', X))))]),
    (['h(X) += (X is Y+1) * p(Y).', 'h(X) += (X is Y+1), p(Y).', 'h(X) += X is Y + 1, p(Y).'], [(H, (('is', X, ('+', Y, 1)), ('p', Y)))]),
    (['h(X) += X = Y, p(Y).'], [(H, (('=', X, Y), ('p', Y)))]),
    (["h('a b', 'X') += 'p q'(X)."], [(('h', ('a b',), ('X',)), (('p q', X),))]),
]
DECLS = [
    (['input: p(X).', 'inputs: p(X).', 'params: p(X).'], [('p', X)], []),
    (['output: p(X).', 'outputs: p(X).', 'outputs:  p(X).', 'outputs:\np(X).'], [], [('p', X)]),
    (['inputs: p(X); q(X,Y). output: h(X).', 'input: p(X). input: q(X,Y). outputs: h(X).', 'outputs: h(X). inputs: p(X); q(X,Y).', 'input: (p(X); q(X,Y)). output: h(X).'], [('p', X), ('q', X, Y)], [('h', X)]),
    (['input: p(X,X); q([X|Y]); r("a"). output: h(X); g(1).'], [('p', X, X), ('q', ('$cons', X, Y)), ('r', 'a')], [('h', X), ('g', 1)]),
]

def sugar(texts, want, st):
    from dyna import Program
    for s in texts:
        p = parse_prog(s, 'text')
        got = [can(r) for r in p]
        st.state(s); st.step(); st.outcome(repr(got))
        require(got == [tag(rename(('r', h, *bd))) for h, bd in want], f'{s!r} parses as {[rule_of(r) for r in p]}, not {want}')
        # declarations do not interfere
        for ds, ins, outs in DECLS:
            for dd in ds:
                for src in (dd + '\n' + s, s.split(' % ')[0] + ' ' + dd):
                    q = Program(src)
                    require([can(r) for r in q] == got, f'{src!r}: rules differ')
                    require([can(r) for r in q.inputs] == [tag(rename(('r', t))) for t in ins], f'{src!r}: inputs {q.inputs}')
                    require([can(r) for r in q.outputs] == [tag(rename(('r', t))) for t in outs], f'{src!r}: outputs {q.outputs}')

# token sequences; any layout between tokens gives the same program
LAYOUT = [
    'h ( X ) += p ( X , Y ) * q ( Y ) .',
    'h ( X ) :- p ( X ) , 1 < X <= 3 , not q ( "a % b" ) .',
    'h ( [ X , Y | Z ] , -1 , - X ) += ( X is Y + 1 ) * 0.5 * f \' .'.replace(" ' ", "' "),
    'a . b ( 1 ) += 2 . c += a * b ( 1 ) .',
    'input: p ( X ) ; q ( X , Y ) . output: h ( X ) . h ( X ) += p ( X ) .',
    "h += 'a b' ( X ) / ! / X // 2 \\ y .",
]
GAPS = [' ', '\n', '\t', '  \n ', ' % c\n', ' %% it\'s "x. y\n', ' % a(X) += b.\n\n', '\r\n']

def layout(line, st):
    from dyna import Program
    toks = line.split(' ')
    k = 0
    while k < len(toks):           # keep quoted pieces whole
        while toks[k].count('"') % 2 or (toks[k].startswith("'") and not toks[k][1:].endswith("'")):
            toks[k:k + 2] = [toks[k] + ' ' + toks[k + 1]]
        k += 1
    p = Program(' '.join(toks))
    want = [can(r) for r in p]
    wi, wo = [[can(r) for r in x] if x else [] for x in (p.inputs, p.outputs)]
    def ok(s):
        q = parse_prog(s, 'layout variant')
        st.state(s); st.step()
        require([can(r) for r in q] == want, f'{s!r} differs from {line!r}')
        require([[can(r) for r in x] if x else [] for x in (q.inputs, q.outputs)] == [wi, wo], f'{s!r}: declarations differ from {line!r}')
    for g in GAPS:
        ok(g.join(toks))
        ok(g + ' '.join(toks) + g)
        for k in range(1, len(toks)):
            ok(' '.join(toks[:k]) + g + ' '.join(toks[k:]))
    # no space where tokens stay apart
    word = lambda x: x.isalnum() or x in "_'$\""
    opch = lambda x: x in '+-*/<>=!~&?:|\\#@^%.'
    for k in range(1, len(toks)):
        l, r = toks[k - 1][-1], toks[k][0]
        if (word(l) and word(r)) or (opch(l) and opch(r)) or toks[k - 1].endswith(':') or l == '.' or (l == ')' and r == "'"): continue
        if opch(l) and r.isdigit() or word(l) and toks[k][0] in '+-' and len(toks[k]) > 1: continue
        ok(' '.join(toks[:k]) + ' '.join(toks[k:]))
    ok(' '.join(toks) + ' % end')
    ok('% start\n' + ' '.join(toks))
