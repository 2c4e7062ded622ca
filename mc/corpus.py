"""Program families: alphabets of rules whose subsets are enumerated exhaustively."""
from itertools import combinations
from mc.syn import RS, R, T

# ---- range-restricted rules over n/1, e/2 (data) and p/1, q/2, r/0, s/1 (derived)
GROUND = RS('''
p(X) += n(X)
p(Y) += p(X) * e(X,Y)
q(X,Y) += e(X,Y)
q(X,Z) += q(X,Y) * q(Y,Z)
r += p(X) * p(X)
r += q(X,X) * p(X)
p(X) += q(X,Y) * q(Y,X)
p(1) += r
r += p(X) * p(Y) * (X < Y)
q(X,X) += p(X) * n(X)
r += q(X,Y) * q(Y,Z) * q(Z,X)
s(f(X)) += p(X) * e(X,2)
p(X) += s(f(X)) * s(f(X))
p(Z) += p(X) * (Z is X + 1) * (Z < 4)
s(Y) += q(X,Y) * q(X,Y) * n(Y)
p(2)
r += q(1,Y) * p(Y) * (Y != 1)
s(X) += s(f(X)) * p(Y) * (X = Y)
s(Y) += p(X) * n(Y)
'''.replace('\n', '.\n'))

# ---- rules with nonground heads / free variables
NONGROUND = RS('''
b(X)
b(1)
b(f(X))
c(X,Y) += b(X)
c(X,X)
c(X,2) += n(X)
d(X) += c(X,Y)
d(X) += b(X) * n(X)
g += b(X) * b(X)
g += c(X,Y) * n(X)
c(X,Z) += c(X,Y) * c(Y,Z)
d(Y) += d(X) * e(X,Y)
g += d(1) * d(2)
h(X,Y) += b(X) * d(Y)
g += h(X,X)
d(X) += h(X,f(X))
b(X) += h(X,1)
g += c(X,X) * c(X,Y)
c(f(X),X) += d(X)
'''.replace('\n', '.\n'))

DATASETS = {
    'acyclic': [('n', 1), ('e', 1, 2), ('e', 1, 3), ('e', 2, 3)],
    'loop':    [('n', 2), ('n', 1), ('e', 2, 2), ('e', 1, 2)],
    'cycle':   [('n', 1), ('e', 1, 2), ('e', 2, 1)],
    'empty':   [],
    'dense':   [('n', 1), ('n', 2), ('e', 1, 1), ('e', 1, 2), ('e', 2, 1)],
}

def subsets(n, k, must=None):
    for m in range(1, k + 1):
        for c in combinations(range(n), m):
            if must is None or any(i in must for i in c): yield c
