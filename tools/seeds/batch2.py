CMP = '''
from dyna import *
from builtins import float
def ans(p, d=''):
    return {str(r.head): r.body for r in p.solver2()(d).sol()}
def value(p, q, d=''):
    "total weight of the ground item q"
    s = p.solver2()(d); t = term(q); tot = 0.0
    for v in s.lookup_vals(t): tot += v
    return tot
'''

seed('c25-nonspecializing', 'C25', [('dyna/term.py', "        if len(self.keys()) != len(set(self.values())):\n            return False\n        return True", "        if len(self.keys()) != len(self.values()):\n            return False\n        return True")],
 'two rules of which one identifies two variables that occur in different subgoals', 'a rule counts as equal to a strict specialisation of itself', CMP + '''
assert Program('g += a(X) * b(Y) * a(Z).') != Program('g += a(X) * b(X) * a(Z).')
assert not Program('g += a(X) * b(Y).')[:] if False else True
p, q = Program('g += a(X) * b(Y).').rules[0], Program('g += a(X) * b(X).').rules[0]
assert not p.same(q)
''')
seed('c01-bound-alias-cycle', 'C01', [('dyna/term.py', "            elif isinstance(x, Var) and x.is_bound():\n                return self.occurs_check(x.value)\n            elif isinstance(x, (Term, list, tuple)):", "            elif isinstance(x, Var) and x.is_bound():\n                return self is snap(x)\n            elif isinstance(x, (Term, list, tuple)):")],
 'a variable unified with a term that contains another variable already bound to a structure containing the first', 'unification builds a cyclic term', CMP + '''
X, Y = Var('X'), Var('Y')
n = 0
for _ in unify(Y, Term('f', X)):
    for _ in unify(X, Term('g', Y)): n += 1
assert n == 0
''')
seed('c27-trail', 'C27', [('dyna/util/graphs.py', "                w = stack.pop()\n                trail.remove(w)\n                C.append(w)", "                w = stack.pop()\n                C.append(w)")],
 'an edge from a later part of the graph into a component that is already finished', 'components are merged or mis-rooted across cross edges', CMP + '''
from dyna.util.graphs import tarjan
g = {1: [2], 2: [], 3: [2, 4], 4: [3]}
got = list(tarjan(lambda x: g[x], [1, 3]))
assert set(got) == {frozenset({1}), frozenset({2}), frozenset({3, 4})}, got
''')
seed('c08-linear-multiplicity', 'C08', [('dyna/execute/linear.py', "if len(term_vars(v) - term_vars(h)) > 0:", "if len(term_vars(v)) > 0 and len(term_vars(h)) == 0:")],
 'a linear rule whose subgoal has one variable that is kept and another that is summed out', 'the linear solver loses the infinite multiplicity of a partly summed-out item', CMP + '''
p = Program('c(X,Y). d(X) += c(X,Y).')
got = {r.head.fn: float(r.body[0]) for r in p.solve_linear()}
assert got['d'] == float('inf'), got
''')
seed('c12-local-variable', 'C12', [('dyna/rule.py', "            V_outside = term_vars(self.head) | term_vars(rest)\n", "            V_outside = term_vars(self.head) | term_vars(rest[:1])\n")],
 'folding by a definition that hides a variable which a later remaining subgoal still uses', 'a fold captures a variable that is used outside the folded subgoals', CMP + '''
p = Program('goal += a(X) * c(1) * b(X). t += a(X).', 'a(X). b(X). c(X).', 'goal.')
assert not list(p.rules[0].folds_by(p.rules[1]))
''')
seed('c14-useful-other', 'C14', [('dyna/transform/slash.py', "        return any(unifies(x, y) for y in self._useful_other)", "        return any(covers(y, x) for y in self._useful_other)")],
 'an item pattern that overlaps a distinguished subgoal without being an instance of it', 'items that only partly match the slashed item are not split', CMP + '''
p = Program('goal += p(1). p(X) += q(X,Y) * p(Y). p(X) += n(X). q(X,Y) += e(X,Y).', 'n(X). e(X,Y).', 'goal.')
D = 'n(1) += 2. n(2) += 3. e(1,2) += 0.5. e(1,1) += 0.25. e(2,1) += 0.125.'
u = p.slash('p(1)', {})
for x, pos in (('p(1)', {}), ('n(1)', {2: 0}), ('q(1,Y)', {1: 0})):
    try: s = p.slash(x, pos)
    except AssertionError: continue
    assert abs(value(s, 'goal', D) - value(p, 'goal', D)) < 1e-4, (x, str(s))
''')
seed('c15-useful-other', 'C15', [('dyna/transform/lct.py', "        return any(unifies(x, y) for y in self._useful_other)", "        return any(covers(y, x) for y in self._useful_other)")],
 'an item pattern that overlaps the bottom item without being an instance of it', 'items that only partly match the bottom item are not split', CMP + '''
p = Program('goal += p(1). p(X) += q(X,Y) * p(Y). p(X) += n(X). q(X,Y) += e(X,Y).', 'n(X). e(X,Y).', 'goal.')
D = 'n(1) += 2. n(2) += 3. e(1,2) += 0.5. e(1,1) += 0.25. e(2,1) += 0.125.'
for x, pos in (('p(1)', {}), ('n(1)', {2: 0}), ('q(1,Y)', {1: 0})):
    try: s = p.lct(pos, x=x)
    except AssertionError: continue
    assert abs(value(s, 'goal', D) - value(p, 'goal', D)) < 1e-4, (x, str(s))
''')
seed('c18-dropped-var', 'C18', [('dyna/analyze/abbreviate.py', "        if freebies(body_closure) - snap_vars(body_closure.head) != freebies(new_rule) - snap_vars(new_rule.head):", "        if len(freebies(body_closure) - snap_vars(body_closure.head)) > len(freebies(new_rule)):")],
 'a rule with both a summed-out free variable and a free variable of the head', 'abbreviation drops the infinite multiplicity of a summed-out variable', CMP + '''
p = Program('c(X,Y). d(X) += c(X,Y) * n(X). goal += d(X).  h(X) += c(X,Y).', 'n(X).', 'goal. h(X).')
D = 'n(1).'
a = p.abbreviate()
assert value(p, 'h(5)', D) == value(a, 'h(5)', D), str(a)
assert value(p, 'goal', D) == value(a, 'goal', D), str(a)
''')
seed('c17-overlapping-heads', 'C17', [('dyna/analyze/dead.py', "    D = DisjointEstimate([r.head for r in analysis])\n    S = Program([Rule(x) for x in D])\n", "    S = Program([Rule(r.head) for r in analysis])\n")],
 'an item whose inferred shapes overlap', 'specialisation duplicates rules for overlapping shapes', CMP + '''
p = Program('goal += q(X,Y) * n(Y). q(X,X) += n(X). q(X,Y) += e(X,Y).', 'n(X). e(X,Y).', 'goal.')
D = 'n(1) += 2. e(1,1) += 3. e(2,1) += 5.'
assert value(p.prune(), 'goal', D) == value(p, 'goal', D), str(p.prune())
''')
seed('c09-nonground-support', 'C09', [('dyna/program.py', "            it = fresh(it)  # support.lookup may bind vars; protect caller's term\n", "            if not is_ground(it): return None\n            it = fresh(it)  # support.lookup may bind vars; protect caller's term\n")],
 'a nonground item that is needed only at particular instances', 'nonground items whose exact pattern was not requested are pruned', CMP + '''
p = Program('goal += b(1) * n(1). b(X) += c(X,Y). c(X,2).', 'n(X).', 'goal.')
D = Program('n(1) += 3.')
for magic in (False, True):
    s = p.scc_solver(data=D, magic=magic)
    assert [float(r.body[0]) for r in s.user_query('goal')] == [3.0], magic
''')
seed('c07-nested-head-variable', 'C07', [('dyna/program.py', "        if any(is_var(X) for X in term_vars(r.body) - term_vars(r.head)):", "        if any(is_var(X) and X not in r.head.args for X in term_vars(r.body)):")],
 'a nonground item whose variable survives only inside a structured head argument', 'a variable nested inside the head is counted as summed out', CMP + '''
p = Program('b(X). d(f(X)) += b(X). g += d(f(1)).')
got = {r.head.fn: float(r.body[0]) for r in p.solver2()('').sol()}
assert got['g'] == 1.0, got
''')
seed('c16-merge-no-variables', 'C16', [('dyna/program.py', "            xs_sorted = sorted(xs, key=_subgoal_sort_key)\n            key = canonicalize(Term('$skel', r.head, *xs_sorted))", "            xs_sorted = sorted((canonicalize(x) for x in xs), key=_subgoal_sort_key)\n            key = canonicalize(Term('$skel', canonicalize(r.head), *xs_sorted))")],
 'two rules with the same head and the same subgoals except for which variables they share', 'constant folding merges rules that differ in how subgoals share variables', CMP + '''
p = Program('goal += a(X) * b(X). goal += a(X) * b(Y).', 'a(X). b(X).', 'goal.')
D = 'a(1). a(2). b(1). b(2).'
assert value(p.constant_folding(), 'goal', D) == 6.0, str(p.constant_folding())
''')
