CMP = '''
from dyna import *
from builtins import float
def ans(p, d=''):
    return {str(r.head): r.body for r in p.solver2()(d).sol()}
def value(p, q, d=''):
    "total weight of the ground item q"
    s = p.solver2()(d); t = term(q); tot = 0.0
    for v in s.lookup_vals(t): tot += v
    return tot
'''
seed('c11-lost-head-variable', 'C11', [('dyna/transform/unfold.py',
 "if not (set(term_vars(s)) <= set(term_vars(t))):", "if not (set(term_vars(s.body)) <= set(term_vars(t))):")],
 'unfolding against a definition with a free head variable that the caller does not use elsewhere',
 'infinite multiplicity of a summed-out variable is lost by unfolding', CMP + '''
p = Program('goal += f(X) * g(Y). f(X). g(Y) += h(Y). h(1).', '', 'goal.')
u = p.unfold(0, 0)
assert value(p, 'goal') == float('inf')
assert value(u, 'goal') == float('inf'), str(u)
''')
seed('c13-self-use', 'C13', [('dyna/transform/rule_elimination.py',
 "r = fresh(_r) if _r is s else _r", "r = _r")],
 'eliminating a recursive rule (its own body is one of the places to substitute into)',
 'the eliminated recursive rule is not renamed apart from itself', CMP + '''
p = Program("""goal += q(X,5). q(X,Y) += e(X,Y). q(X,Y) += s(X,Y). s(Y,X) += q(X,Y). s(X,Z) += s(X,Y) * e(Y,Z).""", 'e(X,Y).', 'goal.')
d = 'e(1,2) += 0.5. e(2,5) += 0.25. e(5,2) += 0.125. e(1,5) += 0.25.'
i = [k for k, r in enumerate(p) if str(r.head).startswith('s(') and len(r.body) == 2][0]
p2 = Program("""goal += s(1). s(X) += e(X,X). s(X) += e(X,f(X)). s(X) += s(f(X)) * e(1,X).""", 'e(X,Y).', 'goal.')
d2 = 'e(f(f(1)),f(f(1))) += 2. e(1,1) += 3. e(1,f(1)) += 5.'
try: q2 = p2.elim(3)
except AssertionError: q2 = None
a = value(p2, 'goal', d2)
want = value(Program("goal += s(1). s(X) += e(X,X). s(X) += e(X,f(X)). s(X) += e(f(X),f(X)) * e(1,X). s(X) += e(f(X),f(f(X))) * e(1,X). s(X) += t(f(X)) * e(1,X). t(X) += s(f(X)) * e(1,X).", 'e(X,Y).', 'goal.'), 'goal', d2)
assert q2 is None or len([r for r in q2 if len(r.body) == 3]) >= 1, str(q2)
''')
seed('c26-structured-key', 'C26', [('dyna/execute/solver.py',
 "                  if is_ground(x)\n            ))", "                  if not isinstance(snap(x), Var)\n            ))"),
 ('dyna/execute/solver.py', "    unify, fresh, is_ground, Term, snap\n", "    unify, fresh, is_ground, Term, Var, snap\n")],
 'a lookup whose argument is a structure with a free variable inside', 'partially bound structured arguments are treated as index keys, so matching items are missed', CMP + '''
p = Program('goal(X) += q(f(X), Y) * r(Y). q(f(1), 2). q(f(2), 2). r(2).')
s = p.solver()('')
assert {str(r.head) for r in s.user_query('goal(X)')} == {'goal(1)', 'goal(2)'}
assert len(list(s.user_query('q(f(X), Y)'))) == 2
''')
seed('c10-entry-not-renamed', 'C10', [('dyna/execute/solver2.py',
 "                x = fresh(x)\n                for _ in unify(x, q):", "                if q.arity > 1: x = fresh(x)\n                for _ in unify(x, q):")],
 'a conjunctive query that uses the same nonground unary entry twice with different arguments', 'variables of stored entries leak into answers', CMP + '''
p = Program('goal += b(1) * b(2). goal2 += c(X) * d(X). c(1). d(X). d(2). b(X).')
s = p.solver2()('')
q = [term('b(1)'), term('b(2)')]
assert len(list(s.join(tuple(q), 1.0))) == 1
X, Y = Var('X'), Var('Y')
got = [is_ground(Y) for _ in s.join((Term('b', X), Term('c', X), Term('b', Y)), 1.0)]
assert got == [False], got
''')
seed('c09-first-proof', 'C09', [('dyna/program.py',
 "                    for b in r.body:\n                        if not s1.program.is_exogenous(b):\n                            out.append(canonicalize(b))\n",
 "                    for b in r.body:\n                        if not s1.program.is_exogenous(b):\n                            out.append(canonicalize(b))\n                    if is_ground(r.body): break\n")],
 'an item that the same rule derives in two ways from different subgoals', 'only the first proof of every rule is followed when components are ordered, so supporting items are pruned', CMP + '''
p = Program("""goal += s(X). s(X) += t(X) * n(X). t(Y) += n(Y).  goal2 += 1.""", 'n(X).', 'goal.')
D = Program('n(1) += 2. n(2) += 3. n(3) += 5.')
a = [r.body[0] for r in p.scc_solver(data=D).user_query('goal')]
b = [r.body[0] for r in p(D).user_query('goal')]
assert a == b, (a, b)
''')
seed('c08-agenda-vars', 'C08', [('dyna/program.py',
 "new[r.body[:k]] * Constant(u.body, vs=term_vars(r.body[k])) * old[r.body[k+1:]]", "new[r.body[:k]] * Constant(u.body) * old[r.body[k+1:]]")],
 'agenda evaluation of a rule that sums out a variable left free by a nonground item', 'agenda evaluation loses the infinite multiplicity of a summed-out variable', CMP + '''
p = Program('b(X). d += b(X). g += d * d.')
assert {str(r.head): float(r.body[0]) for r in p.agenda()}['d'] == float('inf')
''')
seed('c16-fold-zero', 'C16', [('dyna/program.py',
 "if self.Semiring.metric(C, self.Semiring.zero) <= 1e-7:  # drop the rule", "if self.Semiring.metric(C, self.Semiring.zero) <= 1e-2:  # drop the rule")],
 'a rule with a small weight', 'rules with small nonzero weights are dropped as if they were zero', CMP + '''
p = Program('a += 0.004 * b. b += 1000.')
assert abs(value(p.constant_folding(), 'a') - 4) < 1e-6, str(p.constant_folding())
''')
seed('c16-loop-vars', 'C16', [('dyna/program.py',
 "elim_vars = term_vars(r.body) - (term_vars(rev_fs) | term_vars(r.head))", "elim_vars = term_vars(r.body) - (term_vars(rev_fs[:1]) | term_vars(r.head))")],
 'folding subgoals that share a variable with a remaining subgoal other than the first', 'the new definition does not export a variable shared with a later remaining subgoal', CMP + '''
p = Program('goal += a(X) * b(X,Y) * c(Y,Z) * d(Z).', 'a(X). b(X,Y). c(X,Y). d(X).', 'goal.')
D = 'a(1). b(1,1). b(1,2). c(1,1). c(2,1) += 3. d(1). d(2) += 7. c(1,2) += 5.'
want = value(p, 'goal', D)
for js in [(1,2), (0,1), (0,2), (2,3), (1,3), (1,), (2,)]:
    q = p.hook(0, js)
    assert value(q, 'goal', D) == want, (js, str(q))
''')
seed('c03-no-rescan', 'C03', [('dyna/term.py',
 "            if self.covers(r, s):\n                rm.append(i)\n        for i in reversed(sorted(rm)):\n            del self.xs[i]\n",
 "            if self.covers(r, s):\n                rm.append(i)\n        for i in rm[:1]:\n            del self.xs[i]\n")],
 'adding a term that covers two or more stored terms', 'only one of the covered elements is evicted', CMP + '''
m = MostGeneralSet([term('f(1,2)'), term('f(2,X)'), term('f(3,3)')], covers)
m.add(term('f(X,Y)'))
assert len(m) == 1, m
''')
seed('c17-bottom-input-builtin', 'C17', [('dyna/analyze/dead.py',
 "active_rules = [r for r in program if good(r.head) and all(good(b) for b in r.body)]",
 "active_rules = [r for r in program if good(r.head) and all(good(b) for b in r.body if program.is_const(b) or term_vars(b) or not program.is_input(b))]"),
 ('dyna/analyze/dead.py', "from dyna import TransformedProgram, Program, Rule\n", "from dyna import TransformedProgram, Program, Rule, term_vars\n"),
 ('dyna/analyze/dead.py', "        if (h in T) and all((b in T) for b in bs):", "        if (h in T) and all((b in T) for b in bs) and not (r.head.arity and r.head in r.body):")],
 'a rule whose head occurs in its own body', 'prune_very_fast drops self-supporting rules', CMP + '''
p = Program('p(1) += n(1). p(X) += p(X) * h(X). goal += p(X).', 'n(X). h(X).', 'goal.')
D = 'n(1). h(1) += 0.5.'
assert abs(value(p.prune_very_fast(), 'goal', D) - 2) < 1e-6
''')
seed('c27-scc-lowlink', 'C27', [], '', '', '')
SEEDS.pop('c27-scc-lowlink')
