"""C19: inferred types cover everything that can be derived, and every constraint they state holds of it."""
from itertools import product
from mc.xform import *
from mc.core import limited
from mc.syn import T, RS
from mc.props.c17 import STRUCT, INS, FACTS, OUTS, related
from mc.props.c20 import OVERLAP, unroll, BOOL, instances

LEVEL = 'model_checking'
RULE = ('every subset of up to 2 rules (thorough 3) of the ground, nonground, structured and overlapping alphabets x typed input declarations with constraint rules x EVERY interpretation of the type parameters over '
        'a small domain that satisfies the constraint rules; the items the reference evaluator derives from the largest conforming data set are matched against the inferred types (basic and generalizing analysis, several '
        'truncation depths), the items that match a query against the types of the query, and the items that occur in derivations of an output against the usefulness analysis; state = inferred type chart')
ASSUMPTIONS = ['domain {1,2} (and {1,2,3} for single rules); binary parameters over the same domain', 'data sets are the largest ones of the declared form (derivability is monotone)',
               'firings are unrolled for 6 rounds / 400 items', 'programs whose analysis does not end within 3 s are counted, not judged (C17 known divergence on growing arithmetic)']
CASE_LIMIT = 200

AL = dict(ground=GROUND, nonground=NONGROUND, struct=STRUCT, overlap=OVERLAP)

# (input types, constraint rules, unary parameters, binary parameters)
TYPES = {
    'two':   ('n(X) :- k(X). e(X,Y) :- k(X), w(Y).', '', 'kw', ''),
    'disj':  ('n(X) :- k(X). e(X,Y) :- k(X), w(Y).', '$fail :- k(X), w(X).', 'kw', ''),
    'incl':  ('n(X) :- w(X). e(X,Y) :- k(X), w(Y).', 'k(X) :- w(X).', 'kw', ''),
    'const': ('n(X) :- k(X). e(X,Y) :- k(X), w(Y).', 'k(1). $fail :- w(1).', 'kw', ''),
    'fun':   ('n(X) :- k(X). e(X,Y) :- m(X,Y).', 'Y=Z :- m(X,Y), m(X,Z). k(X) :- m(X,Y).', 'k', 'm'),
    'sym':   ('n(X) :- k(X). e(X,Y) :- m(X,Y).', 'm(Y,X) :- m(X,Y). $fail :- m(X,X).', 'k', 'm'),
    'str':   ('n(f(X)) :- k(X). e(X,X) :- w(X). n(X) :- w(X).', '$fail :- k(1).', 'kw', ''),
    'free':   ('n(X). e(X,Y) :- k(X).', '', 'k', ''),
    'freef':  ('n(f(X)). e(X,X) :- k(X). e(1,X).', 'k(2).', 'k', ''),
    'less':  ('n(X) :- k(X). e(X,Y) :- k(X), k(Y), (X < Y).', '(I < K) :- (I < J), (J < K). $fail :- (I < I).', 'k', ''),
}

def groups(tier):
    k = 2 if tier == 'quick' else 3
    for a in AL:
        yield 'generic', [(a, c, i) for c in subsets(len(AL[a]), k) for i in (['gen'] if a in ('ground', 'nonground') else ['gen', 'fun', 'many'])]
    for a in AL:
        yield 'typed', [(a, c, t, len(c) == 1 and 3 or 2) for c in subsets(len(AL[a]), k) for t in TYPES if len(c) < 3 or t in ('disj', 'fun', 'str', 'free')]
    if tier == 'quick': yield 'generic', [(a, c, 'gen') for a in ('ground', 'nonground', 'struct') for c in subsets(len(AL[a]), 3) if len(c) == 3 and sum(c) % 7 == 0]

def interpretations(cons, unary, binary, dom):
    "all interpretations of the parameters that satisfy the constraint rules"
    cs = [parse(c) for c in cons.split('.') if c.strip()]
    D = list(range(1, dom + 1))
    subs = lambda xs: [[x for x, b in zip(xs, bits) if b] for bits in product([0, 1], repeat=len(xs))]
    for us in product(subs(D), repeat=len(unary)):
        for bs in product(subs(list(product(D, D))), repeat=len(binary)):
            I = {(u, x) for u, xs in zip(unary, us) for x in xs} | {(b, x, y) for b, xys in zip(binary, bs) for x, y in xys}
            if all(satisfied(c, I) for c in cs): yield I

def parse(c):
    if ':-' in c: h, b = c.split(':-')
    else: h, b = c, ''
    return T(h.strip()), [T(x) for x in split(b)]

def split(b):
    out = []; d = 0; cur = ''
    for ch in b:
        d += ch in '([' ; d -= ch in ')]'
        if ch == ',' and d == 0: out.append(cur); cur = ''
        else: cur += ch
    if cur.strip(): out.append(cur)
    return [x.strip() for x in out]

def hold(atoms, I, s):
    if not atoms: yield s; return
    a, rest = atoms[0], atoms[1:]
    if a[0] in BUILTIN:
        try: sols = builtin(a, s)
        except Stuck: sols = []
        for t in sols: yield from hold(rest, I, t)
        return
    for f in I:
        t = mgu(a, f, s) if len(f) == len(a) and f[0] == a[0] else None
        if t is not None: yield from hold(rest, I, t)

def satisfied(c, I):
    h, b = c
    for s in hold(b, I, {}):
        x = subst(h, s)
        if x[0] == '$fail': return False
        if x[0] in BUILTIN:
            try:
                if not builtin(x, {}): return False
            except Stuck: return False
        elif x not in I: return False
    return True

def data_of(types, I):
    out = []
    for h, b in types:
        for s in hold(b, I, {}):
            x = subst(h, s)
            x = rename(x)          # a variable without constraint is a free one
            if x not in out: out.append(x)
    return out

def covered(t, body, item, I, insts=True):
    "does the simple type (head, constraints) contain the item?"
    s = match(t, item)
    if s is None: return False
    free = []
    for c in body:
        c = subst(c, s)
        if not isterm(c): continue
        if c[0] == '$bound':
            if insts and tvars(c): return False
        elif c[0] == '$free':
            if not insts: continue
            if not isv(c[1]): return False
            free.append(c[1])
        elif c[0] in BUILTIN:
            try:
                if not builtin(c, {}): return False
            except Stuck: pass
        elif I is None or c not in I: return False
    return len(set(free)) == len(free)

def chart_types(p): return [(from_dyna_rule(r)) for r in p]

def from_dyna_rule(r):
    names = {}
    f = apart(('r', from_dyna(r.head, names), *[from_dyna(b, names) for b in r.body]), '@t')
    return f[1], list(f[2:])

def analyses(p, it, rw):
    yield 'basic', lambda: p.type_analysis(it, rw)
    yield 'depth 2', lambda: p.type_analysis(it, rw, max_depth=2)
    yield 'depth 1', lambda: p.type_analysis(it, rw, max_depth=1)
    yield 'generalizing', lambda: p.type_analysis(it, rw, basic=False, max_depth=3)

def check(group, case, st):
    from dyna import Program
    if group == 'generic':
        a, c, i = case; rules = ints([AL[a][j] for j in c])
        decl = [T(x.strip()) for x in INS[i].split('.') if x.strip()]
        data = [t for t in FACTS + [('n', 3), ('e', 2, 1)] if any(match(d, t) is not None for d in decl)]
        p = program(rules, inputs=INS[i], semiring=None)
        worlds = [(None, data)]; it = None; rw = ''
        label = f'{src(rules)} inputs {INS[i]}'
    else:
        a, c, t, dom = case; rules = ints([AL[a][j] for j in c])
        types, rw, un, bi = TYPES[t]
        tr = [parse(x) for x in types.split('.') if x.strip()]
        worlds = [(I, data_of(tr, I)) for I in interpretations(rw, un, bi, dom)]
        decl = ' '.join(f'{u}(_).' for u in un) + ' '.join(f' {b}(_,_).' for b in bi) + (' (_ < _).' if t == 'less' else '')
        it = lambda: Program(types, inputs=decl, outputs='')
        p = program(rules, inputs='n(_). e(_,_).', semiring=None)
        label = f'{src(rules)} types {types} where {rw}'
    derived = []
    for I, data in worlds:
        chart, fs = unroll(rules, [(t, BOOL.one) for t in data])
        derived.append((I, list(chart), fs))
        st.step(len(chart))
    for name, go in analyses(p, None, rw) if it is None else analyses(p, it(), rw):
        try: S = limited(3, go)
        except Unsupported: st.count('analysis_diverges'); continue
        ts = chart_types(S.chart)
        st.state(sorted(repr(rename(('r', h, *sorted(b, key=repr)))) for h, b in ts))
        for I, items, fs in derived:
            for x in items:
                require(any(covered(h, b, x, I) for h, b in ts), lambda: f'{name} analysis of {label}: {show(x)} is derived (parameters {I}) but no type covers it: {list(map(str, S.chart))}')
            st.trace()
        for o in ('p(1).', 'q(X,X).', 'q(1,X). p(X).', 's(f(X)).', 'd(2).', 'c(X,1).', 'c(f(X),Y).'):
            qs = [T(x.strip()) for x in o.split('.') if x.strip()]
            if not any(x[0] == q[0] for q in qs for _, items, _ in derived for x in items): continue
            R = S.intersect(o); rs = chart_types(R)
            for I, items, fs in derived:
                for x in items:
                    if any(match(q, x) is not None for q in qs):
                        require(any(covered(h, b, x, I) for h, b in rs), lambda: f'{name} analysis of {label}: {show(x)} is derived (parameters {I}), but the types of {o} are {list(map(str, R))}')
            st.step()
        if name == 'generalizing' or S.is_disjoint():
            for I, items, fs in derived:
                for x in items:
                    n = [h for h, b in ts if covered(h, b, x, I)]
                    require(len(n) <= 1, lambda: f'{name} analysis of {label}: types called disjoint overlap on {show(x)}: {list(map(str, S.chart))}')
        else: st.count('overlapping')
    useful(p, rules, it, rw, label, derived, group, st)

def useful(p, rules, it, rw, label, derived, group, st):
    hs = {h[0] for h, _ in rules}
    for o in ['r.', 'p(1).', 's(f(X)). g.', 'd(X).', 'u(1,X).', 'q(X,X). c(X,1).']:
        outs = [T(x.strip()) for x in o.split('.') if x.strip()]
        if not any(x[0] in hs for x in outs): continue
        from dyna import Program
        try: S = limited(3, lambda: p.usefulness_analysis(output_type=Program(o), **({} if it is None else dict(input_type=it()))))
        except Unsupported: st.count('analysis_diverges'); continue
        ts = chart_types(S.chart)
        for I, items, fs in derived:
            ground = []
            for i, f in fs:
                if len(tvars(f)) > 2: continue
                ground.extend(g for g in instances(f))
            by = {}
            for g in ground: by.setdefault(g[1], []).append(g[2:])
            todo = [x for x in by if any(match(y, x) is not None for y in outs)]; seen = set(todo)
            while todo:
                x = todo.pop()
                require(any(covered(h, b, x, I, insts=False) for h, b in ts), lambda: f'usefulness of {label} outputs {o}: {show(x)} contributes to an output (parameters {I}) but is not useful: {list(map(str, S.chart))}')
                for ys in by.get(x, ()):
                    for y in ys:
                        if y not in seen: seen.add(y); todo.append(y)
            st.trace()
