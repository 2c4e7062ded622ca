"""
Reference term algebra, independent of the code under test.

term ::= ('?', name)            variable
       | (fn, t1, ..., tn)      compound / atom (n >= 0), fn a string other than '?'
       | int | float | str | bool | None     constants
"""
from itertools import product
from mc.core import Violation

def V(n): return ('?', n)
def isv(t): return isinstance(t, tuple) and len(t) == 2 and t[0] == '?'
def isterm(t): return isinstance(t, tuple) and not isv(t)

def ceq(a, b):
    "constant equality: exact type (1, 1.0 and True are kept apart by the alphabets anyway)"
    return type(a) is type(b) and a == b

def tvars(t, acc=None):
    if acc is None: acc = []
    if isv(t):
        if t[1] not in acc: acc.append(t[1])
    elif isterm(t):
        for a in t[1:]: tvars(a, acc)
    return acc

def walk(t, s):
    while isv(t) and t[1] in s: t = s[t[1]]
    return t

def subst(t, s):
    t = walk(t, s)
    if isterm(t): return (t[0],) + tuple(subst(a, s) for a in t[1:])
    return t

def occurs(v, t, s):
    t = walk(t, s)
    if isv(t): return t[1] == v
    if isterm(t): return any(occurs(v, a, s) for a in t[1:])
    return False

def mgu(x, y, s):
    "Robinson unification; returns extended substitution (a new dict) or None"
    s = dict(s)
    stack = [(x, y)]
    while stack:
        a, b = stack.pop()
        a = walk(a, s); b = walk(b, s)
        if isv(a) and isv(b) and a[1] == b[1]: continue
        if isv(a):
            if occurs(a[1], b, s): return None
            s[a[1]] = b
        elif isv(b):
            if occurs(b[1], a, s): return None
            s[b[1]] = a
        elif isterm(a) and isterm(b):
            if a[0] != b[0] or len(a) != len(b): return None
            stack.extend(zip(a[1:], b[1:]))
        elif isterm(a) or isterm(b): return None
        elif not (a == b): return None
    return s

def match(x, y, s=None):
    "one-way: s with s(x) == y (y's variables are constants); None if none"
    s = dict(s or {})
    stack = [(x, y)]
    while stack:
        a, b = stack.pop()
        if isv(a):
            if a[1] in s:
                if s[a[1]] != b: return None
            else: s[a[1]] = b
        elif isterm(a):
            if not isterm(b) or a[0] != b[0] or len(a) != len(b): return None
            stack.extend(zip(a[1:], b[1:]))
        elif isv(b) or isterm(b) or not (a == b): return None
    return s

def rename(t, m=None, prefix='_'):
    "canonical variant"
    if m is None: m = {}
    if isv(t):
        if t[1] not in m: m[t[1]] = f'{prefix}{len(m)}'
        return ('?', m[t[1]])
    if isterm(t): return (t[0],) + tuple(rename(a, m, prefix) for a in t[1:])
    return t

def variant(x, y): return rename(x) == rename(y)

def apart(t, tag): return subst(t, {v: V(v + tag) for v in tvars(t)}) if tvars(t) else t

def covers(x, y):
    "instances(x) >= instances(y), variables of the two taken apart"
    return match(apart(x, '#l'), y) is not None

def size(t): return 1 + sum(size(a) for a in t[1:]) if isterm(t) else 1

# ---------------------------------------------------------------- bridge to the code under test
def to_dyna(t, env):
    from dyna import Term, Var
    if isv(t):
        v = env.get(t[1])
        if v is None: v = env[t[1]] = Var(t[1])
        return v
    if isterm(t): return Term(t[0], *[to_dyna(a, env) for a in t[1:]])
    return t

def from_dyna(x, names=None):
    """Read back through the public surface (snap / Var / fn / args); variables
    are named by identity: `names` maps id(var) -> name and is extended."""
    from dyna import Var, Term, snap
    if names is None: names = {}
    x = snap(x)
    if isinstance(x, Var):
        n = names.get(id(x))
        if n is None: n = names[id(x)] = f'_{len(names)}'
        # keep the object alive so that ids stay unique
        names.setdefault('keep', []).append(x)
        return ('?', n)
    if isinstance(x, Term):
        if snap(x.fn) == '$not_matches':     # its pattern is a quoted term: its variables are its own
            p, y = x.args
            if isinstance(p, str):
                from mc.syn import T
                p = T(p)
            else: p = from_dyna(p(), {})
            return ('$not_matches', ('$quote', rename(p, prefix='q')), from_dyna(y, names))
        return (snap(x.fn),) + tuple(from_dyna(a, names) for a in x.args)
    return x

def enum_terms(leaves, fns, depth):
    "all terms of depth <= depth; fns: list of (name, arity)"
    cur = list(leaves)
    seen = set(map(repr, cur))
    out = list(cur)
    for _ in range(depth):
        new = []
        for f, n in fns:
            for args in product(out, repeat=n):
                t = (f, *args)
                if repr(t) not in seen:
                    seen.add(repr(t)); new.append(t)
        out = out + new
    return out

def show(t):
    if isv(t): return t[1]
    if isterm(t): return t[0] + ('(' + ','.join(map(show, t[1:])) + ')' if len(t) > 1 else '')
    return repr(t)
