"""A small parser for reference programs (independent of the code under test)."""
import re
from mc.terms import V, isterm
TOK = re.compile(r"\s*(?:(\d+\.\d+|\d+)|(\"[^\"]*\")|([A-Z_][A-Za-z0-9_]*)|(\$?[a-z][A-Za-z0-9_]*)|(<=|>=|==|!=|[()\[\],<>=+*|.\-]))")

class P:
    def __init__(self, s):
        self.t = []; i = 0
        s = s.strip()
        while i < len(s):
            m = TOK.match(s, i)
            assert m, s[i:]
            i = m.end()
            n, q, v, a, o = m.groups()
            if n: self.t.append(('k', float(n) if '.' in n else int(n)))
            elif q: self.t.append(('k', q[1:-1]))
            elif v: self.t.append(('v', v))
            elif a: self.t.append(('a', a))
            else: self.t.append(('o', o))
        self.i = 0; self.anon = 0
    def peek(self): return self.t[self.i] if self.i < len(self.t) else ('end', None)
    def eat(self, x=None):
        t = self.peek(); self.i += 1
        assert x is None or t == ('o', x), (t, x, self.t)
        return t
    def prim(self):
        k, x = self.eat()
        if k == 'k': return x
        if k == 'v':
            if x == '_': self.anon += 1; return V(f'_A{self.anon}')
            return V(x)
        if k == 'a':
            if self.peek() == ('o', '('):
                self.eat('('); args = [self.expr()]
                while self.peek() == ('o', ','): self.eat(); args.append(self.expr())
                self.eat(')')
                return (x, *args)
            return (x,)
        if (k, x) == ('o', '('):
            e = self.expr(); self.eat(')'); return e
        if (k, x) == ('o', '-'):
            k, x = self.eat(); assert k == 'k'; return -x
        raise AssertionError((k, x, self.t))
    def expr(self):
        a = self.prim()
        k, x = self.peek()
        if k == 'o' and x in ('<', '>', '<=', '>=', '==', '!=', '=', '+', '-', '*'):
            self.eat(); return (x, a, self.expr())
        if (k, x) == ('a', 'is'):
            self.eat(); return ('is', a, self.expr())
        return a
    def rule(self):
        h = self.prim(); body = []
        if self.peek() == ('o', '+'):
            self.eat('+'); self.eat('=')
            body.append(self.prim())
            while self.peek() == ('o', '*'): self.eat(); body.append(self.prim())
        if self.peek() == ('o', '.'): self.eat()
        return (h, tuple(body))

def T(s): return P(s).expr()
def R(s): return P(s).rule()
def RS(s): return [R(x) for x in re.split(r'\.\s*(?:\n|$)', s) if x.strip()] if isinstance(s, str) else [R(x) for x in s]
