"""
Semirings owned by the harness.

Prov: provenance polynomials N[labels], truncated at total degree DEG and with
coefficients saturating at SAT (both are congruences, so this is a genuine finite
commutative semiring: every program has a least fixpoint that is reached).  Two
programs that agree in Prov agree, up to the bounds, in every commutative semiring.
"""
from semirings.base import Semiring
from semirings import Float, Boolean, MinPlus, MaxTimes

INF = float('inf')


class Prov(Semiring):
    DEG = 6
    SAT = 7
    __slots__ = ('p', 'h')

    def __init__(self, p):
        # p: {monomial (sorted tuple of labels): coefficient}
        self.p = p
        self.h = None

    @classmethod
    def label(cls, x): return cls({(x,): 1})

    @classmethod
    def lift(cls, x, *_):
        if isinstance(x, Prov): return x
        if x == 0: return cls.zero
        if x == INF: return cls({(): cls.SAT})
        if isinstance(x, (int, float)) and x == int(x) and x > 0: return cls({(): min(int(x), cls.SAT)})
        raise ValueError(f'not a natural number: {x!r}')

    def __add__(self, o):
        # like the classes of the semirings package, a value only combines with its own kind
        if not isinstance(o, Prov): raise AttributeError(f"{type(o).__name__} is not a semiring value")
        if not self.p: return o
        if not o.p: return self
        q = dict(self.p)
        for m, c in o.p.items(): q[m] = min(q.get(m, 0) + c, self.SAT)
        return Prov(q)

    def __mul__(self, o):
        # like the classes of the semirings package, a value only combines with its own kind
        if not isinstance(o, Prov): raise AttributeError(f"{type(o).__name__} is not a semiring value")
        q = {}
        for m, c in self.p.items():
            for n, d in o.p.items():
                if len(m) + len(n) > self.DEG: continue
                k = tuple(sorted(m + n))
                q[k] = min(q.get(k, 0) + c * d, self.SAT)
        return Prov(q)

    def __eq__(self, o): return isinstance(o, Prov) and self.p == o.p
    def __hash__(self):
        if self.h is None: self.h = hash(frozenset(self.p.items()))
        return self.h
    def __lt__(self, o): return repr(self) < repr(o)
    def __repr__(self):
        if not self.p: return '0'
        return '+'.join(f'{"" if c == 1 and m else c}{"".join(map(str, m))}' for m, c in sorted(self.p.items()))
    def metric(self, o): return 0 if self == o else 1

    @classmethod
    def multiplicity(cls, v, m):
        if m == 0: return cls.zero
        return Prov({k: min(c * cls.SAT if m == INF else c * int(m), cls.SAT) for k, c in v.p.items()})

    def star(self):
        prev = self.zero
        while True:
            cur = self.one + self * prev
            if cur == prev: return cur
            prev = cur


Prov.zero = Prov({})
Prov.one = Prov({(): 1})


class Ops:
    "uniform operations over a semiring class, for the reference evaluator"
    def __init__(self, cls):
        self.cls = cls
        self.zero = cls.zero; self.one = cls.one
        self.inf = cls.multiple(INF) if cls is not Float else INF
        self.isfloat = cls is Float

    def plus(self, a, b): return a + b

    def times(self, a, b):
        if self.isfloat and (a == 0 or b == 0): return 0.0
        return a * b

    def value(self, x):
        "coerce a constant found in a rule body"
        if self.isfloat: return float(x)
        if isinstance(x, self.cls): return x
        return self.cls.lift(x, None)

    def close(self, a, b, tol=1e-6):
        if self.isfloat:
            if a == b: return True
            if a != a or b != b: return False
            if abs(a) == INF or abs(b) == INF: return False
            return abs(a - b) <= tol * max(1.0, abs(a), abs(b))
        return a == b

    def is_zero(self, a): return self.close(a, self.zero)


FLOAT, BOOL, MINP, MAXT, PROV = Ops(Float), Ops(Boolean), Ops(MinPlus), Ops(MaxTimes), Ops(Prov)
OPS = dict(float=FLOAT, bool=BOOL, minplus=MINP, maxtimes=MAXT, prov=PROV)
