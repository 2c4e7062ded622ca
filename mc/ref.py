"""
Reference semantics: naive bottom-up evaluation of weighted logic programs,
written against the reference term algebra only (no code under test).

rule ::= (head, (b1, ..., bn)); a body element is a term (subgoal) or a constant weight.
chart ::= {canonical head: weight}; keys may be nonground (each stands for all its instances).
"""
from itertools import count
from mc.core import Unsupported, Violation
from mc.terms import *

CMPS = {'<', '>', '<=', '>=', '==', '!='}
BUILTIN = CMPS | {'=', 'is', '$free', '$bound', '$not_matches'}


class Stuck(Exception): pass


def arith(op, a, b):
    if op == '+': return a + b
    if op == '-': return a - b
    if op == '*': return a * b
    if op == 'min': return min(a, b)
    if op == 'max': return max(a, b)
    raise Stuck(op)


def builtin(t, s):
    """Solutions (list of substitutions) of a builtin literal under s; raises Stuck when it must wait."""
    f = t[0]
    if f == '=':
        r = mgu(t[1], t[2], s)
        return [] if r is None else [r]
    if f in CMPS:
        a, b = subst(t[1], s), subst(t[2], s)
        if tvars(a) or tvars(b): raise Stuck(t)
        if f == '==': ok = a == b
        elif f == '!=': ok = a != b
        else:
            if isinstance(a, tuple) or isinstance(b, tuple) or type(a) is not type(b) and isinstance(a, str) != isinstance(b, str): raise Stuck(t)
            ok = {'<': a < b, '>': a > b, '<=': a <= b, '>=': a >= b}[f]
        return [s] if ok else []
    if f == 'is':
        v, e = subst(t[1], s), subst(t[2], s)
        if not isterm(e): raise Stuck(t)
        num = lambda x: isinstance(x, (int, float)) and not isinstance(x, bool)
        if len(e) == 3:
            op, a, b = e
            if num(a) and num(b): r = mgu(v, arith(op, a, b), s); return [] if r is None else [r]
            if op == '+' and num(v):
                if num(a): r = mgu(b, v - a, s); return [] if r is None else [r]
                if num(b): r = mgu(a, v - b, s); return [] if r is None else [r]
            if op == '-' and num(v):
                if num(a): r = mgu(b, a - v, s); return [] if r is None else [r]
                if num(b): r = mgu(a, v + b, s); return [] if r is None else [r]
        raise Stuck(t)
    if f == '$not_matches':
        pat = t[1][1]; y = subst(t[2], s)
        if match(pat, y) is not None: return []
        if mgu(apart(pat, '@nm'), y, {}) is None: return [s]
        raise Stuck(t)
    raise Stuck(t)


class Evaluator:
    def __init__(self, rules, ops, inputs=(), max_iter=400, max_items=4000, cap=None):
        self.ops = ops
        self.rules = [self.prepare(h, b) for h, b in rules]
        self.max_iter = max_iter; self.max_items = max_items; self.cap = cap
        self.ctr = count()

    def prepare(self, h, body):
        "constants multiplied out; ordinary subgoals before builtins"
        c = self.ops.one; goals = []; built = []; bare = []
        for b in body:
            if isv(b): bare.append(b)
            elif not isterm(b): c = self.ops.times(c, self.ops.value(b))
            elif b[0] in BUILTIN: built.append(b)
            else: goals.append(b)
        return h, c, goals, built, bare

    def joins(self, goals, chart, s, w):
        if not goals:
            yield s, w
            return
        g, rest = goals[0], goals[1:]
        pat = subst(g, s)
        for key, (kg, v) in chart.get((g[0], len(g)), {}).items():
            if kg:
                m = match(pat, key)
                if m is None: continue
                s2 = dict(s); s2.update(m)
            else:
                s2 = mgu(pat, apart(key, f'@{next(self.ctr)}'), s)
                if s2 is None: continue
            yield from self.joins(rest, chart, s2, self.ops.times(w, v))

    def run_builtins(self, bs, s):
        if not bs:
            yield s
            return
        for i, b in enumerate(bs):
            try: sols = builtin(b, s)
            except Stuck: continue
            for s2 in sols: yield from self.run_builtins(bs[:i] + bs[i+1:], s2)
            return
        raise Stuck(bs)

    def fire(self, rule, chart):
        "all firings of one rule against a chart: yields (head instance, weight, substitution)"
        h, c, goals, built, bare = rule
        for s, w in self.joins(goals, chart, {}, c):
            for s2 in self.run_builtins(built, s):
                w2 = w
                for b in bare:
                    x = subst(b, s2)
                    if isv(x) or isterm(x): raise Stuck(b)
                    w2 = self.ops.times(w2, self.ops.value(x))
                head = subst(h, s2)
                hv = set(tvars(head)); left = set()
                for g in goals + built:
                    left.update(v for v in tvars(subst(g, s2)) if v not in hv and g[0] != '$not_matches')
                if left: w2 = self.ops.times(w2, self.ops.inf)
                yield head, w2, s2

    def step(self, chart):
        new = {}
        for r in self.rules:
            try:
                for head, w, _ in self.fire(r, chart):
                    if not isterm(head): raise Unsupported(f'head {head}')
                    if size(head) > 30: raise Unsupported('terms grow without bound')
                    k = rename(head)
                    new[k] = self.ops.plus(new[k], w) if k in new else w
            except Stuck as e:
                raise Unsupported(f'delayed builtin: {e}')
            if len(new) > self.max_items: raise Unsupported('too many items')
        return new

    @staticmethod
    def index(chart):
        ix = {}
        for k, v in chart.items(): ix.setdefault((k[0], len(k)), {})[k] = (not tvars(k), v)
        return ix

    def solve(self):
        chart = {}
        self.iterations = 0
        for _ in range(self.max_iter):
            self.iterations += 1
            new = self.step(self.index(chart))
            if self.cap is not None and any(self.cap < v < float('inf') for v in new.values()):
                raise Unsupported('near-divergent')   # an infinity is only meaningful when a multiplicity creates it
            if new.keys() == chart.keys() and all(self.ops.close(new[k], chart[k], 1e-11) for k in new):
                return {k: v for k, v in new.items() if not self.ops.close(v, self.ops.zero, 1e-12)}
            chart = new
        raise Unsupported('no convergence')


def solve(rules, ops, **kw):
    return Evaluator(rules, ops, **kw).solve()


def value_at(chart, g, ops):
    "weight of the ground term g: sum over the chart entries that cover it"
    v = ops.zero
    for k, w in chart.items():
        if k[0] == g[0] and len(k) == len(g) and match(k, g) is not None: v = ops.plus(v, w)
    return v


def restrict(chart, sigs):
    return {k: v for k, v in chart.items() if (k[0], len(k) - 1) in sigs}


def diff(A, B, ops, universe=None, only=None):
    """None if the two charts denote the same weighted set, else a description.
    Ground charts are compared entry by entry; nonground ones on all ground
    instances over `universe` (constants of both charts plus a fresh one)."""
    if all(not tvars(k) for k in A) and all(not tvars(k) for k in B):
        pts = list(A) + [k for k in B if k not in A]
        get = lambda C, g: C.get(g, ops.zero)
    else:
        if universe is None:
            universe = {}
            for C in (A, B):
                for k in C: collect(k, universe)
            universe = list(universe.values()) + [('$new$',), ('$new2$',)]
        from itertools import product
        sigs = {(k[0], len(k) - 1) for k in list(A) + list(B)}
        pts = {k for C in (A, B) for k in C if not tvars(k)}
        for f, n in sigs: pts.update((f, *args) for args in product(universe, repeat=n))
        for C in (A, B):        # instances of structured nonground keys
            for k in C:
                vs = tvars(k)
                if vs and any(isterm(a) for a in k[1:]):
                    for args in product(universe, repeat=len(vs)): pts.add(subst(k, dict(zip(vs, args))))
        pts = sorted(pts, key=repr)
        get = lambda C, g: value_at(C, g, ops)
    for g in pts:
        if only is not None and not any(match(o, g) is not None for o in only): continue
        a, b = get(A, g), get(B, g)
        if not ops.close(a, b): return f'{show(g)}: {a} vs {b}'
    return None


def collect(t, acc):
    if isterm(t):
        for a in t[1:]:
            if not isv(a):
                if not tvars(a): acc.setdefault(repr(a), a)
                collect(a, acc)
