"""Bridges between reference programs and the code under test (public API only)."""
from mc.terms import *
from mc.core import Violation, Unsupported, require

INFIX = {'<', '>', '<=', '>=', '==', '!=', '=', 'is', '+', '-', '*'}


def text_term(t):
    if isv(t): return t[1]
    if isterm(t):
        if t[0] in INFIX and len(t) == 3: return f'({text_term(t[1])} {t[0]} {text_term(t[2])})'
        if len(t) == 1: return t[0]
        return t[0] + '(' + ', '.join(map(text_term, t[1:])) + ')'
    if isinstance(t, str): return '"' + t + '"'
    return repr(t)


def text_rule(r):
    h, body = r
    return f'{text_term(h)} += {" * ".join(map(text_term, body))}.' if body else f'{text_term(h)}.'


def text(rules): return '\n'.join(text_rule(r) for r in rules)


def rule_of(r, names=None):
    "dyna Rule -> reference rule (weights left as they are)"
    if names is None: names = {}
    return (from_dyna(r.head, names), tuple(from_dyna(b, names) for b in r.body))


def rules_of(p): return [rule_of(r) for r in p]


def parse_rules(src):
    "reference rules of a program text (the text is parsed by the code under test)"
    from dyna import Program
    return rules_of(Program(src))


def chart_of(p, ops):
    "facts program -> reference chart; entries with the same key accumulate"
    out = {}
    for r in p:
        h, body = rule_of(r)
        v = ops.one
        for b in body:
            if isv(b) or isterm(b): raise Violation(f'answer has a non-constant body: {r}')
            v = ops.times(v, ops.value(b))
        k = rename(h)
        out[k] = ops.plus(out[k], v) if k in out else v
    return {k: v for k, v in out.items() if not ops.close(v, ops.zero, 1e-12)}


def facts(pairs, ops, semiring=None):
    "ground/nonground weighted facts -> dyna Program"
    from dyna import Program, Rule
    return Program([Rule(to_dyna(h, {}), v) for h, v in pairs], semiring=semiring)
