From dc0efe74373f9450ced50af36c1c9726cf498cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:23 +0000
Subject: [PATCH 01/31] fix: anti-unification reused one variable for different
 disagreement pairs

generalizer(f(a,a), f(b,c)) returned f(V,V), which does not cover f(b,c).
---
 dyna/term.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/dyna/term.py b/dyna/term.py
index a87f873..3d3f2ae 100644
--- a/dyna/term.py
+++ b/dyna/term.py
@@ -646,15 +646,13 @@ def generalizer(t1, t2, s1=Ellipsis, s2=Ellipsis):
             return Term(*(traverse(a, b) for a, b in zip(x, y)))
 
         else:
-            if x in s1:
-                return s1[x]
-            if y in s2:
-                return s2[y]
+            # Two positions may share a variable only if they disagree in the
+            # same way, i.e., on the same *pair* of subterms.
+            if (x, y) not in pairs:
+                pairs[x, y] = s1[x] = s2[y] = Var()
+            return pairs[x, y]
 
-            z = Var()
-            s1[x] = z
-            s2[y] = z
-            return z
+    pairs = {}
 
     return traverse(t1, t2)
 
-- 
2.43.0


From e95dbe293dae073d40a005197f6f445517a8d53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:57 +0000
Subject: [PATCH 02/31] fix: nonground solver double counted an item driving
 several subgoals of a rule

d(X). g += d(1)*d(2). gave g=2 because both drivers saw the updated chart.
---
 dyna/execute/solver2.py | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/dyna/execute/solver2.py b/dyna/execute/solver2.py
index 6b11942..85fc3aa 100644
--- a/dyna/execute/solver2.py
+++ b/dyna/execute/solver2.py
@@ -112,29 +112,42 @@ class Solver(BaseSolver):
             if self.approx_equal(new, old):
                 if self.debug: print(f'pop: {fresh(a)} ... no change')
                 continue
+            # Keep the chart from before the update; a nonground item may match
+            # several subgoals of a rule (even if they do not unify with each
+            # other), so `drive_rule` needs it to avoid double counting.
+            before = dict(self.chart)
             # update the chart with the Δ update
             self[a] = new
             self.pops1 += 1   # pop actually result in propagation
             if self.debug: print(f'pop: {a} += {Δ}', colors.magenta % f'(old: {old}, new: {new})')
             # ground out rules against the current chart
-            for s, v in self.drive_rules(fresh(a), old, Δ):
+            for s, v in self.drive_rules(fresh(a), before, Δ):
                 self.update(s.head, v)
         return self
 
-    def drive_rules(self, a, old, Δ):
+    def drive_rules(self, a, before, Δ):
         "Drive rules affected by item `a`."
         for r in self.program:
-            for v in self.drive_rule(r, a, old, Δ):
+            for v in self.drive_rule(r, a, before, Δ):
                 yield (r, v)
 
-    def drive_rule(self, r, a, old, Δ):
+    def drive_rule(self, r, a, before, Δ):
         for i, b in enumerate(r.body):    # TODO: use subgoal rule index
             for _ in unify(a, b):
                 bs = list(r.body); bs[i] = Δ   # replace subgoal i with Δ.
-                for v in self.join(bs, self.one):
+                for v in self.drive_join(bs, i, before, self.one):
                     yield v * self.program.multiple(r)
 
-    def lookup_vals(self, q):
+    def drive_join(self, xs, i, before, value):
+        "Like `join`, except that the first `i` subgoals are answered by the chart `before`."
+        if i == 0:
+            yield from self.join(xs, value)
+        else:
+            self.prefix_firings += 1
+            for v in self.lookup_vals(xs[0], before):
+                yield from self.drive_join(xs[1:], i-1, before, value * v)
+
+    def lookup_vals(self, q, chart=None):
         """
         Answer query `q` by matching it against the chart,
         returns a stream of bindings to `q` and emits contribs.
@@ -185,7 +198,8 @@ class Solver(BaseSolver):
             return
 
         else:
-            for x, v in self.chart.items():   # XXX: use indexing!!!
+            if chart is None: chart = self.chart
+            for x, v in chart.items():   # XXX: use indexing!!!
                 #assert iswrap(x), x
                 x = fresh(x)
                 for _ in unify(x, q):
-- 
2.43.0


From 9164fb0569314fc707b9adf97393184a0a8fbd45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:13 +0000
Subject: [PATCH 03/31] fix: merging a term into a disjoint partition could
 leave overlapping cells

---
 dyna/term.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dyna/term.py b/dyna/term.py
index 3d3f2ae..af42f5f 100644
--- a/dyna/term.py
+++ b/dyna/term.py
@@ -1022,10 +1022,13 @@ class DisjointEstimate:
         # actually merge.  Two freshenings maintain it: on entry, and after each `generalizer` (which
         # can re-inject the matched entry's vars).  O(#merges), not O(#entries), freshenings per add.
         r = fresh(r)
-        for i in reversed(range(len(self.xs))):
+        i = len(self.xs)
+        while i > 0:
+            i -= 1
             if unifies(r, self.xs[i]):   # overlaps
                 r = fresh(generalizer(r, self.xs[i]))
                 del self.xs[i]
+                i = len(self.xs)         # `r` grew: it may now overlap entries that were already passed over
         self.xs.append(canonicalize(r))
     def find_all(self, x):
         "Return the unique branch of the partition that x falls into (or throw an error)"
-- 
2.43.0


From 78d7a7f5743f0429c67f0da5547d1493c61965cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:08 +0000
Subject: [PATCH 04/31] fix: rule elimination was refused when two subgoals
 match the rule but not each other

---
 dyna/program.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dyna/program.py b/dyna/program.py
index 5e93a71..4cd4396 100644
--- a/dyna/program.py
+++ b/dyna/program.py
@@ -1834,6 +1834,8 @@ input/output declarations</summary>\
         Note: this should not be confused with the type of linearization done in Newton's
         algorithm or `solve_linear`.
         """
+        # the driver is an item set; its variables are not those of the rule that it came from.
+        if driver is not None: driver = fresh(driver)
         tmps = OrderedSet()
         for i, s in enumerate(self):
             #print('rule', s)
@@ -1843,7 +1845,8 @@ input/output declarations</summary>\
                 if self.is_builtin(x): continue
                 for k in range(j+1, len(s.body)):
                     y = s.body[k]
-                    if unifies(x, y):
+                    # subgoals overlap with each other, or (given a driver) both overlap with it.
+                    if unifies(y, x if driver is None else driver):
                         tmps.add((i,k))
 
         if not tmps:
-- 
2.43.0


From 2b48e58fec02cd4d72f052b50291ba423b4ed4d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:43 +0000
Subject: [PATCH 05/31] fix: fold/unfold safety ignored definitions that the
 folding program does not have

---
 dyna/transform/fold.py    |  2 +-
 dyna/transform/measure.py | 14 +++++++++++++-
 dyna/transform/unfold.py  |  2 +-
 3 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/dyna/transform/fold.py b/dyna/transform/fold.py
index f31d010..3b78c61 100644
--- a/dyna/transform/fold.py
+++ b/dyna/transform/fold.py
@@ -164,7 +164,7 @@ class Fold(TransformedProgram):
         # cannot verify against parent's existing definitions. Return an
         # unsafe measure rather than raising, so search/filter pipelines
         # using `m.safe` reject these candidates cleanly.
-        if M._freshness_violations(self.parent, self.defs):
+        if M._freshness_violations(self.parent, self.defs, self.r.body[self.j]):
             return M.zero_measure(self)
         m_new = [None]*len(self)
         m_parent = M(self.parent); m_defs = M(self.defs)
diff --git a/dyna/transform/measure.py b/dyna/transform/measure.py
index 0ab4fba..1c0e036 100644
--- a/dyna/transform/measure.py
+++ b/dyna/transform/measure.py
@@ -168,7 +168,7 @@ class Measure:
 #        safe = list(m_parent._safe)
 #        return measure_safety(m_new, new, safe)
 
-    def _freshness_violations(self, parent, defs):
+    def _freshness_violations(self, parent, defs, x):
         """For fold/unfold safety: every Define operation in `defs`'s lineage
         must also appear in `parent`'s lineage. Otherwise `defs` is carrying
         a rule (or rules) that `parent` never agreed to — a "sibling Define"
@@ -178,10 +178,22 @@ class Measure:
         For each foreign Define in `defs`'s lineage, we report a violation
         when any of its new rule heads unifies with any head in `parent`.
 
+        Conversely, `defs` must know every definition of the subgoal `x` that
+        is being introduced (fold) or replaced (unfold): a Define in `parent`'s
+        lineage that `defs` does not have gives `x` rules which `defs` lacks.
+
         Returns the list of (defs_rule, parent_head) pairs that violate..
         """
         parent_stage_ids = {id(s) for s in parent.lineage()}
+        defs_stage_ids = {id(s) for s in defs.lineage()}
         violations = []
+        for stage in parent.lineage():
+            if not isinstance(stage, Define) or id(stage) in defs_stage_ids:
+                continue
+            for idx in stage._new_ix:
+                head = fresh(stage.rules[idx].head)
+                if unifies(head, x):
+                    violations.append((None, head))
         for stage in defs.lineage():
             if not isinstance(stage, Define):
                 continue
diff --git a/dyna/transform/unfold.py b/dyna/transform/unfold.py
index 76c2baa..4142301 100644
--- a/dyna/transform/unfold.py
+++ b/dyna/transform/unfold.py
@@ -130,7 +130,7 @@ class Unfold(TransformedProgram):
         )
         # Freshness precondition (returns unsafe measure rather than raising;
         # see Fold.compute_measure for rationale).
-        if M._freshness_violations(self.parent, self.defs):
+        if M._freshness_violations(self.parent, self.defs, self.parent.rules[self.i].body[self.j]):
             return M.zero_measure(self)
 
         m_new = [None]*len(self)
-- 
2.43.0


From 9fd53940a9f2bdfb55024234bfc13ea5e51b175f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:26 +0000
Subject: [PATCH 06/31] fix: resolving equations and builtins early dropped the
 multiplicity of free variables

---
 dyna/program.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/dyna/program.py b/dyna/program.py
index 4cd4396..0ce8a6c 100644
--- a/dyna/program.py
+++ b/dyna/program.py
@@ -1472,9 +1472,15 @@ input/output declarations</summary>\
         new = self.spawn()
         for r in self:
             for ys in r.body.snap_unifications():
-                new.append(Rule(r.head, *ys))
+                new.append(self._keep_multiplicity(r, Rule(r.head, *ys)))
         return new
 
+    def _keep_multiplicity(self, r, s):
+        "Rule `s`, obtained by resolving builtins of `r`, stands for infinitely many copies if it has lost a free variable of `r`."
+        if term_vars(r) <= term_vars(s): return s
+        m = self.Semiring.multiple(inf)
+        return s if m == self.Semiring.one else Rule(s.head, *s.body, m)
+
     def run_builtins(self):
         R = self.spawn()
         for r0 in self:
@@ -1486,7 +1492,7 @@ input/output declarations</summary>\
                 new = self.spawn()
                 for r in old:
                     for ys in self._run_builtins(r.body):
-                        new.append(Rule(r.head, *ys))
+                        new.append(self._keep_multiplicity(r, Rule(r.head, *ys)))
                 if old == new: break
                 old = new
             R = R + old
-- 
2.43.0


From 8fab9f34ee9980fac83f7ab53ac91060be7a1c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:26 +0000
Subject: [PATCH 07/31] fix: snap_unifications and run_builtins failed on
 semiring constants in a rule body

---
 dyna/program.py | 2 +-
 dyna/term.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/dyna/program.py b/dyna/program.py
index 0ce8a6c..4f2bb8c 100644
--- a/dyna/program.py
+++ b/dyna/program.py
@@ -1509,7 +1509,7 @@ input/output declarations</summary>\
                         yield v * vs
             else:
                 for vs in self._run_builtins(ys[1:]):
-                    yield ys[0] * vs
+                    yield Product((ys[0],)) * vs
 
     #def rewrites(self, rewrites):
     #    "Apply rewrites to the bodies of all rules in this program."
diff --git a/dyna/term.py b/dyna/term.py
index af42f5f..96582a2 100644
--- a/dyna/term.py
+++ b/dyna/term.py
@@ -213,7 +213,7 @@ class Product(tuple):
                 yield from self[1:].snap_unifications()
         else:
             for ys in self[1:].snap_unifications():
-                yield x0 * ys
+                yield Product((x0,)) * ys
 
     def covers(self, ys, s=Ellipsis):
         """
-- 
2.43.0


From 6602ec7c8aec51f862d190c449f6e535071d4d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:54 +0000
Subject: [PATCH 08/31] fix: infinite multiplicities in the reals no longer
 stall or poison the solvers

Two equal infinities have no numerical distance (inf - inf is nan), so the
convergence tests of the solvers never recognised a chart holding inf as
converged; and the linear solver multiplied zeros of the coefficient matrix
with inf, which made every item nan.
---
 dyna/execute/base.py   |  6 +++++-
 dyna/execute/linear.py | 19 +++++++++++++++++--
 dyna/program.py        |  7 +++++--
 3 files changed, 27 insertions(+), 5 deletions(-)

diff --git a/dyna/execute/base.py b/dyna/execute/base.py
index e64b78f..b99a876 100644
--- a/dyna/execute/base.py
+++ b/dyna/execute/base.py
@@ -71,7 +71,11 @@ class BaseSolver:
         # being exact — important for LogVal, whose stock `__eq__` uses
         # `np.allclose` and would collapse small-but-distinct values,
         # causing premature fixpoint convergence here.
-        return self.Weight.metric(x, y) <= self.tol
+        #
+        # Equal infinities have no numerical distance (`inf - inf` is nan);
+        # they are nevertheless equal.
+        d = self.Weight.metric(x, y)
+        return d <= self.tol or (d != d and x == y)
 
     #___________________________________________________________________________
     # Inference methods
diff --git a/dyna/execute/linear.py b/dyna/execute/linear.py
index 5996e16..a2f2e46 100644
--- a/dyna/execute/linear.py
+++ b/dyna/execute/linear.py
@@ -3,6 +3,17 @@ from arsenal import Integerizer, colors
 from dyna import TransformedProgram, Rule, Term, term_vars, canonicalize
 
 
+def annihilating_times(semiring):
+    """
+    The semiring's product with `zero` annihilating every element - including
+    infinity, where floating-point arithmetic gives `0 * inf = nan`.
+    """
+    zero = semiring.zero
+    def times(x, y):
+        return zero if x == zero or y == zero else x * y
+    return times
+
+
 def kleene(A, semiring, reflexive=True):
     """
     Solve B = I + A B for B given a weighted binary relation A in semiring^{N
@@ -14,6 +25,7 @@ def kleene(A, semiring, reflexive=True):
     """
     # initialization
     [N,_] = A.shape; zero = semiring.zero; one = semiring.one
+    times = annihilating_times(semiring)
     new = A.copy(); old = A.copy()
     for j in range(N):
         new[:,:] = zero
@@ -21,7 +33,7 @@ def kleene(A, semiring, reflexive=True):
         for i in range(N):
             for k in range(N):
                 # i ➙ j ⇝ j ➙ k
-                new[i,k] = old[i,k] + old[i,j] * sjj * old[j,k]
+                new[i,k] = old[i,k] + times(times(old[i,j], sjj), old[j,k])
         old, new = new, old   # swap to repurpose space
     if reflexive:  # post processing fix-up: add the identity matrix
         for i in range(N): old[i,i] += one
@@ -84,7 +96,10 @@ class kleene_linsolve(TransformedProgram):
         #print(p)
         #print(pack)
 
-        sol = kleene(pack.MM, p.Semiring) @ pack.VV
+        K = kleene(pack.MM, p.Semiring)
+        times = annihilating_times(p.Semiring)
+        sol = [sum((times(k, v) for k, v in zip(K[i], pack.VV)), start=p.Semiring.zero)
+               for i in range(len(pack.ix))]
 
         Sol = [Rule(x, sol[i]) for i,x in enumerate(pack.ix)]
 
diff --git a/dyna/program.py b/dyna/program.py
index 4f2bb8c..10dc253 100644
--- a/dyna/program.py
+++ b/dyna/program.py
@@ -603,8 +603,11 @@ input/output declarations</summary>\
         if set(A_chart) != set(B_chart):
             chart_d = float('inf')
         else:
-            chart_d = max((sr.metric(A_chart[k], B_chart[k]) for k in A_chart),
-                          default=0)
+            # Equal infinities have no numerical distance (`inf - inf` is nan);
+            # they are nevertheless equal.
+            ds = [sr.metric(A_chart[k], B_chart[k]) for k in A_chart]
+            chart_d = max((0 if d != d and A_chart[k] == B_chart[k] else d
+                           for k, d in zip(A_chart, ds)), default=0)
         # Structural part: symbolic rules must match exactly. Use the
         # same bucketing / alignment as `Program.__eq__`.
         sym_d = 0 if Program._symbolic_equal(A_sym, B_sym) else float('inf')
-- 
2.43.0


From 4c229e808412bd6e8d8d5b89e43944b3d9e6b5d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:24 +0000
Subject: [PATCH 09/31] fix: rule equality no longer depends on the name of a
 variable head or bare-variable subgoal

Program('X += w(X).') == Program('Y += w(Y).') was False.
---
 dyna/rule.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dyna/rule.py b/dyna/rule.py
index 25d4cfc..263d992 100644
--- a/dyna/rule.py
+++ b/dyna/rule.py
@@ -12,7 +12,8 @@ def fn(x): return x.fn if isinstance(x, Term) else x
 #    return Term(x.fn, x.arity) if isinstance(x, Term) else Term("$const", x)
 def term_signature(x):
     # Need to wrap constants in term to use the right comparison operation...
-    return canonicalize(x) if isinstance(x, Term) else Term("$const", x)
+    # The name of a variable (head or bare subgoal) is not part of the signature.
+    return canonicalize(x) if isinstance(snap(x), (Term, Var)) else Term("$const", x)
 
 
 def is_const(x):
-- 
2.43.0


From 1c639bbda55fd8ed57e464fd322b5b52b96ab1e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:24 +0000
Subject: [PATCH 10/31] fix: adding to an item whose existing fact has an empty
 body

Program('a.').update(Term('a'), 2) raised ValueError.
---
 dyna/program.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dyna/program.py b/dyna/program.py
index 10dc253..fbdc61d 100644
--- a/dyna/program.py
+++ b/dyna/program.py
@@ -409,7 +409,7 @@ input/output declarations</summary>\
             return i
         else:
             s = self.rules[i]
-            [S] = s.body
+            S = self.get_const_rhs(s)   # note: the body may be empty, e.g., `a.`
             self.rules[i] = Rule(s.head, S + C)
             self._invalidate_caches()   # rules[i] changed in place; keep the if-branch invariant
             return i
-- 
2.43.0


From 6c5ff48b8ec2a9bfaf0df6773e399644176ad937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:24 +0000
Subject: [PATCH 11/31] fix: the rule index with rules whose head is a variable

The index loop shadowed the requested functor, so the first lookup answered
for another functor; functors that appear nowhere missed the rule; and adding
a rule whose head is a variable to an indexed program failed.
---
 dyna/program.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/dyna/program.py b/dyna/program.py
index fbdc61d..52fd6ac 100644
--- a/dyna/program.py
+++ b/dyna/program.py
@@ -464,7 +464,11 @@ input/output declarations</summary>\
         i = len(self.rules)
         self.rules.append(r)
         if self._cache_f2r is not None:
-            self._cache_f2r[r.head.fn].append(i)
+            if isinstance(r.head, Term):
+                wild = self._cache_f2r[None]
+                self._cache_f2r.setdefault(r.head.fn, list(wild)).append(i)
+            else:
+                for ix in self._cache_f2r.values(): ix.append(i)
         self._invalidate_caches()
         return i
 
@@ -1382,17 +1386,17 @@ input/output declarations</summary>\
     def f2r(self, f):
         if self._cache_f2r is None:
             # Rule indexing by head functor
-            syms = self.syms
-            f2r = defaultdict(list)
+            f2r = {r.head.fn: [] for r in self if isinstance(r.head, Term)}
+            f2r[None] = []   # any other functor only matches the wild rules (the head is a variable)
             for i, r in enumerate(self):
                 if isinstance(r.head,  Term):
                     f2r[r.head.fn].append(i)
                 else:
-                    # head is a variable
                     assert isinstance(r.head, Var), r
-                    for f in syms: f2r[f].append(i)   # every functor uses matches the wild rule.
+                    for ix in f2r.values(): ix.append(i)   # every functor matches the wild rule.
             self._cache_f2r = f2r
-        return self._cache_f2r.get(f, [])
+        ix = self._cache_f2r.get(f)
+        return self._cache_f2r[None] if ix is None else ix
 
     #___________________________________________________________________________
     # Symbol management
-- 
2.43.0


From 06142e8733d69d0baeff4cd08ea481564755c8ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:24 +0000
Subject: [PATCH 12/31] fix: declaring inputs or outputs drops the cached
 prunings

p.prune(); p.set_output_types(...); p.prune() returned the old result.
---
 dyna/program.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dyna/program.py b/dyna/program.py
index 52fd6ac..28b0f0d 100644
--- a/dyna/program.py
+++ b/dyna/program.py
@@ -101,11 +101,11 @@ class Program:
         self.rules = list(rules)
         assert all(isinstance(r, Rule) for r in rules), rules
 
+        self._caches = {}
+
         self.set_input_types(inputs)
         self.set_output_types(outputs)
 
-        self._caches = {}
-
         self.semiring = semiring
         self.has_builtins = has_builtins
 
@@ -119,12 +119,14 @@ class Program:
         if isinstance(inputs, str): inputs = Program(inputs)
         assert inputs is None or isinstance(inputs, Program), inputs
         self.inputs = inputs
+        self._caches.clear()   # prune*, ... depend on the declarations
         return self
 
     def set_output_types(self, outputs):
         if isinstance(outputs, str): outputs = Program(outputs)
         assert outputs is None or isinstance(outputs, Program), outputs
         self.outputs = outputs
+        self._caches.clear()   # prune*, ... depend on the declarations
         return self
 
     def spawn(self, rules=''):
-- 
2.43.0


From d6b57b6bb92ea69d85f54643d47a3d871dbd68be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:16 +0000
Subject: [PATCH 13/31] fix: parser reads inf, escapes in strings, postfix
 operators and equal-priority operators as documented

`inf` was read as an atom, an escaped backslash or newline in a string was not
decoded, a postfix `!` swapped operator and operand, operators of equal
priority and associativity had distinct binding strengths (so the printed
`S / H \ C / D` read back differently), and a prefix `*` was flattened as if it
were a product.
---
 dyna/syntax.py | 50 ++++++++++++++++++++++++++++++++++++--------------
 dyna/term.py   |  2 +-
 2 files changed, 37 insertions(+), 15 deletions(-)

diff --git a/dyna/syntax.py b/dyna/syntax.py
index 10c30b2..2ceaad7 100644
--- a/dyna/syntax.py
+++ b/dyna/syntax.py
@@ -1,3 +1,6 @@
+import re
+from itertools import groupby
+
 from lark.lark import Lark
 from lark.visitors import Transformer
 from lark.exceptions import LarkError
@@ -9,6 +12,11 @@ from dyna.term import Term, Var, fresh, flatten, flatten_op
 from dyna.rule import Rule
 
 
+# Characters that are escaped in strings
+escapes = {'\\': '\\\\', '"': '\\"', '\n': '\\n'}
+unescape = {y: x for x, y in escapes.items()}
+
+
 # TODO: we need an option to specify the semiring in the source code.
 class DynaTransformer(Transformer):
 
@@ -72,6 +80,10 @@ class DynaTransformer(Transformer):
         [op, a] = x
         return Term(str(op), a)
 
+    def postfix_op(self, x):
+        [a, op] = x
+        return Term(str(op), a)
+
     def noop(self, x):
         [x] = x
         return x
@@ -81,7 +93,7 @@ class DynaTransformer(Transformer):
 
     def rule(self, x):
         [a, _] = x
-        if isinstance(a, Term) and (a.fn in AGGRS):
+        if isinstance(a, Term) and (a.fn in AGGRS) and a.arity == 2:
             [_, head, value] = a
             return fresh(Rule(head, *(bb for b in flatten(value) for bb in flatten_op(b, '*'))))
         else:
@@ -144,7 +156,8 @@ class DynaTransformer(Transformer):
 
     def string(self, x):
         [s] = x
-        return s[1:-1].replace('\\"', '"')   # remove outer quotes and escaped quotes
+        # remove outer quotes and escapes (unknown escapes are kept as they are)
+        return re.sub(r'\\.', lambda m: unescape.get(m.group(), m.group()), s[1:-1])
 
     def float(self, x):
         [a] = x
@@ -234,7 +247,7 @@ literal: ESCAPED_STRING -> string
        | "true"         -> true
        | "false"        -> false
        | list           -> noop
-       | /inf/          -> inf
+       | "inf"          -> inf
        | /∞/            -> inf
 
 variable: VAR  -> variable
@@ -300,7 +313,7 @@ class UnaryOp(Op):
     def __init__(self, op, priority, position='prefix', callback=None, evaluation=None):
         assert position in {prefix, postfix}
         self.position = position
-        if callback is None: callback = 'unary_op'
+        if callback is None: callback = 'unary_op' if position == 'prefix' else 'postfix_op'
         super().__init__(op=op, arity=1, priority=priority, evaluation=evaluation, callback=callback)
 
     def render(self, OP, i):
@@ -339,7 +352,17 @@ def add_ops(ops):
 
     G = []
     expr1 = expr2 = expr3 = None
-    for i, z in enumerate(sorted(ops, key=lambda x: -x.priority), start=1):
+
+    # Left- (or right-) associative operators of equal priority share a level
+    def group(j_z):
+        [j, z] = j_z
+        assoc = getattr(z, 'assoc', N)
+        return (z.priority, assoc) if assoc != N else j
+
+    by_priority = enumerate(sorted(ops, key=lambda x: -x.priority))
+    for i, [_, zs] in enumerate(groupby(by_priority, key=group), start=1):
+        zs = [z for _, z in zs]
+        for z in zs: z.level = i
 
         # Figure out where these special positions are:
         #  - expr1: most general context
@@ -349,16 +372,15 @@ def add_ops(ops):
         if z.op == ',': expr2 = i-1
         expr1 = i
 
-        if z.op is not None:
-            if z.op in Sym2Lex:      # avoid lexer conflicts on '='
-                OP = Sym2Lex[z.op]
-            else:
-                G.append(f'OP{i}: "{z.op}"')
-                Sym2Lex[z.op] = OP = f'OP{i}'
-        else:
-            OP = None
+        OPs = []
+        for z in zs:
+            if z.op is None: continue
+            if z.op not in Sym2Lex:      # avoid lexer conflicts on '='
+                Sym2Lex[z.op] = f'OP{len(Sym2Lex)}'
+                G.append(f'{Sym2Lex[z.op]}: "{z.op}"')
+            OPs.append(Sym2Lex[z.op])
 
-        G.append(z.render(OP, i))
+        G.append(z.render(f'({" | ".join(OPs)})', i))
 
     G.extend([
         f'?expr1: p{expr1}',
diff --git a/dyna/term.py b/dyna/term.py
index 96582a2..7a10122 100644
--- a/dyna/term.py
+++ b/dyna/term.py
@@ -90,7 +90,7 @@ def flatten(x):
 def flatten_op(x, op):
     "Flatten the nested conjunctions."
     x = snap(x)
-    if isinstance(x, Term) and x.fn == op:
+    if isinstance(x, Term) and x.fn == op and x.arity == 2:
         for y in x.args:
             yield from flatten_op(y, op)
     else:
-- 
2.43.0


From fab345aa03e308ddb6ba41358c6a98da1f2ed171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:16 +0000
Subject: [PATCH 14/31] fix: printed programs parse back to the same program

Parenthesise operators by their level in the grammar (arguments, list elements,
nested prefix operators, numbers under a sign, and a rule body), quote functors
and strings as the parser reads them, and never reuse a variable's display name.
---
 dyna/pretty.py | 99 ++++++++++++++++++++++++++++++++++----------------
 1 file changed, 68 insertions(+), 31 deletions(-)

diff --git a/dyna/pretty.py b/dyna/pretty.py
index 77c59b7..b086f3c 100644
--- a/dyna/pretty.py
+++ b/dyna/pretty.py
@@ -7,24 +7,32 @@ Pretty printer for term (term, var, rule, constants, etc)
 import re
 from dyna.term import Var, Term, NIL, snap, term_vars, OrderedSet
 from dyna.rule import Rule
-from dyna.syntax import ops, ChainedCompare, BinOp, UnaryOp
+from dyna.syntax import ops, grammar, escapes, ChainedCompare, BinOp, NullOp, UnaryOp
 #from arsenal import colors
 
 
 # TODO: tie in with the parser to see how whether the current functor is a known binop.
-binops = {f.op: f for f in ops if isinstance(f, BinOp)}
+# (`x for y` is sugar for `y, x`; `x ! y` does not parse, as `!` is a postfix operator)
+binops = {f.op: f for f in ops if isinstance(f, BinOp) and f.op not in {'for', '!'}}
+
+# Functors that do not need quotes: those that the front-end parser reads as
+# `FUNCTOR1`, except for its keywords.
+FUNCTOR = re.compile(re.search('^FUNCTOR1: /(.*)/$', grammar, re.MULTILINE).group(1))
+KEYWORDS = {'true', 'false', 'inf'} | {f.op for f in ops if f.op and f.op.isidentifier()}
 
 # [2022-01-02 Sun] Below, we patch the binop table to ordering relations, which
 # are parsed specially to allow for operator chaining.
 binops['<'] = \
 binops['>'] = \
 binops['>='] = \
-binops['<='] = ChainedCompare(5)
+binops['<='] = next(f for f in ops if isinstance(f, ChainedCompare))
 
 binops['\\'] = binops['\\\\']   # annoying patch
 
-unaryops = {str(f.op) for f in ops if isinstance(f, UnaryOp)}
+unaryops = {f.op: f for f in ops if isinstance(f, UnaryOp) and f.position == 'prefix'}
+
 
+nullops = {f.op for f in ops if isinstance(f, NullOp)}
 
 AGG = {'+=', '=', '->', 'max=', 'min=', 'set=', 'bag=', ':-', ':=', '*=', '&=',
        '|=', '?='}
@@ -37,12 +45,22 @@ def binop(x):
         return binops.get(snap(x.fn))
 
 
+def is_nullop(x):
+    x = snap(x)
+    return isinstance(x, Term) and x.arity == 0 and snap(x.fn) in nullops
+
+
 def priority(x):
     return float('inf') if x is None else x.priority
 
 
+def level(x):
+    "level of the operator in the grammar; tighter operators are lower"
+    return 0 if x is None else x.level
+
+
 def assoc(x):
-    return None if x is None else x.assoc
+    return getattr(x, 'assoc', None)
 
 
 class parens:
@@ -153,12 +171,14 @@ class PrettyPrinter:
             # but is it actually the *same* variable?
             if id(x) not in self.vs[x.name]:   # has a rename
                 dups = len(self.vs[x.name])
-                if dups == 0:
-                    # first instance keeps the nice name
-                    self.vs[x.name][id(x)] = x.name
-                else:
-                    # later instance get an ugly auto-generated name
-                    self.vs[x.name][id(x)] = f'${x.name}{dups}'
+                # first instance keeps the nice name (unless it is taken)
+                name = x.name if dups == 0 else f'${x.name}{dups}'
+                # later instance get an ugly auto-generated name
+                taken = {y for ys in self.vs.values() for y in ys.values()}
+                while name in taken:
+                    dups += 1
+                    name = f'${x.name}{dups}'
+                self.vs[x.name][id(x)] = name
 
             return self.var_color.get(id(x), '%s') % self.vs[x.name][id(x)]
 
@@ -166,9 +186,8 @@ class PrettyPrinter:
             return str(x).lower()   # booleans and null are lower case
 
         elif isinstance(x, str):
-            x = repr(x)    # should be a double-quoted string, unlike Python
-            x = f'"{x[1:-1]}"'   # TODO: need to redo escapes
-            return x
+            # double-quoted string, unlike Python; see `syntax.escapes`
+            return '"' + ''.join(escapes.get(c, c) for c in x) + '"'
 
         elif isinstance(x, Rule):
 
@@ -198,6 +217,7 @@ class PrettyPrinter:
 
                 def wrap(z):
                     if isinstance(z, Rule): return parens(z)
+                    if isinstance(z, (str, bool)): return z
                     if not isinstance(z, (Var, Term)):
 #                        if hasattr(z, 'fsa'):
 #                            return Escape(f'<div style="display: inline; border:thin solid red;">{z.fsa.min()._repr_html_()}</div>')
@@ -216,6 +236,9 @@ class PrettyPrinter:
 
                 aggr = self.color.aggregator % '+='
 
+                # keep the aggregator as the main operator
+                if level(binop(B)) >= level(binops['+=']): B = parens(B)
+
                 return f'{pre}{h} {aggr} {self(B)}'
             else:
                 return f'{pre}{h}'
@@ -241,7 +264,7 @@ class PrettyPrinter:
         fn = snap(x.fn)
         f = color % (self.pp_functor(fn) if isinstance(fn, str) else self(fn))
         if x.args:
-            return f'{f}({",".join(self(a) for a in x.args)})'
+            return f'{f}({",".join(self.pp_arg(a) for a in x.args)})'
         return f
 
     def pp_term(self, x):
@@ -260,7 +283,7 @@ class PrettyPrinter:
         elif x.arity == 0:
             if x == NIL:
                 return self.pp_list(x)
-            elif fn in {'?', '!', '*'}:
+            elif fn in nullops:
                 return fn
             else:
                 return self.pp_functor(fn)
@@ -273,8 +296,14 @@ class PrettyPrinter:
                 [y] = x.args
 
                 # XXX: remove parens when precedence is clear.
+                # (Parens around numbers keep the operator from being read as a sign.)
+                y = snap(y)
                 if isinstance(y, Term) and y.arity == 2 and y.fn in binops:
                     return f'{fn}({self(y)})'
+                if isinstance(y, Term) and y.arity == 1 and y.fn in unaryops and level(unaryops[y.fn]) > level(unaryops[x.fn]):
+                    return f'{fn}({self(y)})'
+                if isinstance(y, (int, float)) or is_nullop(y):
+                    return f'{fn}({self(y)})'
                 return f'{fn}{self(y)}'
 
             else:
@@ -311,12 +340,11 @@ class PrettyPrinter:
             '>=': ' >= ',
             '<=': ' <= ',
             '<': ' < ',
-            '==>': ' ==> ',
             ':-': ' :- ',
             '->': ' -> ',
         }.get(fn)
 
-        if (fn in binops) or (infix is not None):
+        if fn in binops:
             # The default display is spaces around the infix operator
             infix = infix or f' {fn} '
             [_, a, b] = x
@@ -340,36 +368,45 @@ class PrettyPrinter:
 
             A = self(a); B = self(b)
 
+            # an operator that stands for itself is not to be read as a prefix operator
+            if is_nullop(a): A = f'({A})'
+            if is_nullop(b): B = f'({B})'
+
             if priority(binop(a)) <= priority(binop(x)):
                 if (priority(binop(a)) == priority(binop(x))
-                    and assoc(binop(a)) == 'L'):
+                    and assoc(binop(a)) == 'L'
+                    and level(binop(a)) <= level(binop(x))):
                     pass
                 else:
                     A = f'({A})'
 
             if priority(binop(b)) <= priority(binop(x)):
                 if (priority(binop(b)) == priority(binop(x))
-                    and assoc(binop(b)) == 'R'):
+                    and assoc(binop(b)) == 'R'
+                    and level(binop(b)) <= level(binop(x))):
                     pass
                 else:
                     B = f'({B})'
 
+            # keep operators apart, e.g., `a: -1` rather than the aggregator `:-`
+            if infix == ':' and not B[0].isalnum(): infix = ': '
+
             return f'{A}{infix}{B}'
 
+    def pp_arg(self, x, sep=','):
+        "Print `x` as an argument; operators as loose as the separator need parens."
+        if level(binop(x)) >= level(binops[sep]):
+            return f'({self(x)})'
+        return self(x)
+
     def pp_term_default(self, x):
         [fn, *args] = snap(x)
         fn = snap(fn)
-        return f'{self.pp_functor(fn)}({",".join(self(a) for a in args)})'
+        return f'{self.pp_functor(fn)}({",".join(self.pp_arg(a) for a in args)})'
 
     def pp_functor(self, x):
         y = str(x)
-        # the pattern below should match the pattern for `FUNCTOR1` in the
-        # front-end parser.
-        #
-        # TODO: The patterm below is going to be perpetually out of date with
-        # the functor pattern in the grammar.  Figure out how to keep them in
-        # sync to avoid the headache.
-        if not re.match("^([$_]*['\"a-zαβγδεζηθικλμνξο∂πρστυφχψωϯ☐¿$♦]['\"a-zA-Z0-9_αβγδεζηθικλ∂μνξοπρστυφχψω∘ϯ♦$☐˽ΑΒΓΔΕΖΗΘΙΚΛΜΝΞΟΠΡΣΤΥΦΧΨΩ₀₁₂₃₄₅₆₇₈₉]*)$", y):
+        if not FUNCTOR.fullmatch(y) or y in KEYWORDS:
             y = f"'{y}'"
         return y
 
@@ -379,9 +416,9 @@ class PrettyPrinter:
         while True:
             y = snap(y)
             if isinstance(y, Term) and y == NIL and y.arity == 0:
-                return f'[{",".join(self(x) for x in xs)}]'
-            elif isinstance(y, Term) and y.fargs[0] == '$cons':
+                return f'[{",".join(self.pp_arg(x, "|") for x in xs)}]'
+            elif isinstance(y, Term) and y.fargs[0] == '$cons' and y.arity == 2:
                 [_,a,y] = y.fargs
                 xs.append(a)
             else:
-                return f'[{",".join(self(x) for x in xs)}|{self(y)}]'
+                return f'[{",".join(self.pp_arg(x, "|") for x in xs)}|{self.pp_arg(y, "|")}]'
-- 
2.43.0


From 93766dafb6ea9da3beeb81d33a9d0c70c7f73dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:42 +0000
Subject: [PATCH 15/31] fix: builtins neither divide by zero nor invent
 solutions

---
 dyna/builtin.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/dyna/builtin.py b/dyna/builtin.py
index 78d4b88..543db95 100644
--- a/dyna/builtin.py
+++ b/dyna/builtin.py
@@ -215,6 +215,7 @@ class Builtins:
                         yield from unify(X, abs(Y))
                         return
                     if isnum(X):
+                        if X < 0: return
                         for y in {+X, -X}:
                             yield from unify(Y, y)
                         return
@@ -296,6 +297,8 @@ class Builtins:
                             yield from unify(X, Y * Z)
                             return
                         # TODO: we can solve for K in some cases, e.g., `"aaaaa" is "a" * K`.
+                        if isvar(Z):
+                            raise InstFault(f'query `{q}` is not supported in this mode')
                         # Can't multiply string by anything other than an int.
                         raise TypeError(q)
 
@@ -304,13 +307,17 @@ class Builtins:
                         if isnum(Y) and isnum(Z):
                             yield from unify(X, Y * Z)
                             return
-                        if isnum(X) and isnum(Y):
+                        if isnum(X) and isnum(Y) and Y != 0:
                             yield from unify(Z, X / Y)
                             return
-                        if isnum(X) and isnum(Z):
+                        if isnum(X) and isnum(Z) and Z != 0:
                             yield from unify(Y, X / Z)
                             return
 
+                        # nothing but zero is a multiple of zero
+                        if isnum(X) and X != 0 and (isnum(Y) or isnum(Z)):
+                            return
+
                         # identity elements
                         if isnum(Y) and Y == 1:
                             yield from unify(X, Z)
@@ -351,7 +358,13 @@ class Builtins:
                         return
 
                 elif k.fn == '/':
-                    # Just rewrites `X is Y / Z` ==> Y is X * Z =
+                    # Just rewrites `X is Y / Z` ==> Y is X * Z for nonzero Z
+                    if isnum(Z) and Z == 0:
+                        return
+                    if isnum(X) and X != 0 and isnum(Y) and Y == 0:
+                        return
+                    if isvar(Y) and isvar(Z):
+                        raise InstFault(f'query `{q}` is not supported in this mode')
                     yield from self(Term('is', Y, Term('*', X, Z)))
                     return
 
-- 
2.43.0


From 90a045c3c9c30768b24c6d555c8983e17084199d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:42 +0000
Subject: [PATCH 16/31] fix: derivation enumeration with recursive and
 overlapping rules

---
 dyna/derivations.py | 68 +++++++++++++++++++++++----------------------
 1 file changed, 35 insertions(+), 33 deletions(-)

diff --git a/dyna/derivations.py b/dyna/derivations.py
index 76c91a3..4f58843 100644
--- a/dyna/derivations.py
+++ b/dyna/derivations.py
@@ -7,10 +7,10 @@ from arsenal import colors, iterview
 from IPython.display import HTML
 from io import StringIO
 
-from dyna.term import covers, fresh, Product, unify
+from dyna.term import covers, fresh, Product, unify, Subst, FAIL
 from dyna.util import escape_str, escape_html, dot2svg, tikz, latex
 from dyna.rule import Rule, is_const
-from dyna import PrettyPrinter
+from dyna import PrettyPrinter, syntax
 
 
 class Derivation(Rule):
@@ -396,7 +396,8 @@ def agenda(p):
 
         new.update(driver, value)
 
-        for i, r in enumerate(p):
+        for i, _r in enumerate(p):
+            r = fresh(_r)
             for k in range(len(r.body)):
                 for _ in unify(driver, r.body[k]):
 
@@ -417,12 +418,18 @@ def peel(ds):
     return dds
 
 
+def lookup(chart, x):
+    "The derivations of `x` in `chart` (the chart is not aggregated: equal derivations stay separate)."
+    if isinstance(x, str): x = syntax.term(x)
+    return Derivations(peel([fresh(r) for r in chart.lookup(x)]))
+
+
 def Naive(p, T, x):
-    return Derivations(peel(naive(p, T=T).user_lookup(x)))
+    return lookup(naive(p, T=T), x)
 
 
 def Seminaive(p, T, x, verbose=False):
-    return Derivations(peel(seminaive(p, T=T, verbose=verbose).user_lookup(x)))
+    return lookup(seminaive(p, T=T, verbose=verbose), x)
 
 
 def sld(p, x):
@@ -458,34 +465,29 @@ def reorder_subgoals(D, r, R):
     `D`'s instantiated top rule)
     """
 
-    possible = r.folds_by(R)
-    if not possible:    # pragma: no cover
-        msg = (f"""
-        failed to re-order subgoal order:
-        want: {R}
-        have: {r}
-        """)
-
-        if Derivation.SAFE:
-            raise AssertionError(msg)
-        else:
-            return D.body
-
-    [t] = possible
-
-    assert not t.remaining, [R, r, t]  # we shouldn't have any more fuzzy matches
-    # permute subgoals to match the rule
-    bs = [D.body[j] for i,j in sorted(t.align.items())]
-    # check that the permutation did the trick
-    if not covers(R, Rule(r.head, *[r.body[j] for i,j in sorted(t.align.items())])):  # pragma: no cover
-        if Derivation.SAFE:
-            raise AssertionError(f"""
-            failed to re-order subgoals:
-            want: {R}
-            have: {r}
-            ====> {Rule(r.head, *[r.body[j] for i,j in sorted(t.align.items())])}
-            """)
-    return bs
+    # the rule's head and subgoals must cover the derivation's head and (permuted) children
+    def alignments(i, js, s):
+        if s == FAIL or len(R.body) - i != len(js): return
+        if i == len(R.body):
+            yield []
+            return
+        for j in sorted(js):
+            for rest in alignments(i+1, js - {j}, s.copy().cover(R.body[i], r.body[j])):
+                yield [j, *rest]
+
+    for align in alignments(0, frozenset(range(len(r.body))), Subst().cover(R.head, r.head)):
+        return [D.body[j] for j in align]
+
+    msg = (f"""
+    failed to re-order subgoal order:
+    want: {R}
+    have: {r}
+    """)
+
+    if Derivation.SAFE:
+        raise AssertionError(msg)
+    else:    # pragma: no cover
+        return D.body
 
 
 #from contextlib import contextmanager
-- 
2.43.0


From 73f9c6585dd81784f8aaac08ccc4dee523c37a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:45 +0000
Subject: [PATCH 17/31] fix: fold and unfold map derivations to the right rules

---
 dyna/transform/fold.py   | 73 +++++++++++++++++++++++-----------------
 dyna/transform/unfold.py |  4 +--
 2 files changed, 45 insertions(+), 32 deletions(-)

diff --git a/dyna/transform/fold.py b/dyna/transform/fold.py
index 3b78c61..495f949 100644
--- a/dyna/transform/fold.py
+++ b/dyna/transform/fold.py
@@ -54,21 +54,27 @@ class Fold(TransformedProgram):
 
     @cached_property
     def par2def(self):
-        "Alignment: `self.parent` to `self.undo`."
+        "Alignment: `self.parent` to the definitions used by `self.undo`."
         return {P: D for D,P in self.def2par.items()}
 
     @cached_property
     def def2par(self):
-        "Alignment: `self.undo` to `self.parent`."
-        [def2par, _] = self.__align_to_parent
+        "Alignment: the definitions used by `self.undo` to `self.parent`."
+        [def2par, _, _] = self.__align_to_parent
         return def2par
 
     @cached_property
     def bookkeeping(self):
         "Additional information about the alignment `self.parent` to `self.undo`"
-        [_, bookkeeping] = self.__align_to_parent
+        [_, bookkeeping, _] = self.__align_to_parent
         return bookkeeping
 
+    @cached_property
+    def par2rev(self):
+        "Alignment: `self.parent` to `self.undo` (only the rules replaced by the fold)."
+        [_, _, par2rev] = self.__align_to_parent
+        return par2rev
+
     @cached_property
     def __align_to_parent(self):
         """
@@ -87,56 +93,63 @@ class Fold(TransformedProgram):
         #     parent == new.unfold(i, j, defs) == rev
         rev2par = dict(rev.align(self.parent))
 
-        bookkeeping = {}; def2par = {}
+        bookkeeping = {}; def2par = {}; par2rev = {}
         for D,R in def2rev.items():   # note: unfold.new2def is def2new for us
             P = rev2par[R]
             # NOTE: R and P are [deep] equal, but R may have reorder subgoals.
             # crude version parent.folds_by(...)
-            for t in self.parent.rules[P].folds_by(self.defs.rules[D]):
+            for t in self.parent.rules[P].folds_by(rev.defs.rules[D]):
                 bookkeeping[P] = t
             #assert self.parent[P].same(rev[R])
             #assert D not in def2par   # test should actually be for bijection this is just one side
             def2par[D] = P
+            par2rev[P] = R
 
-        return (def2par, bookkeeping)
+        return (def2par, bookkeeping, par2rev)
 
     def transform(self, d):
         def node(n):
+            assert n.p == self.parent
             if n.i not in self.S:              # top rule was copied to new program
-                assert n.p == self.parent
-                I = self.rules.index(n.R)   # the index of the copied rule in the new program
+                # the copied rules follow the folded rule in their original order
+                I = 1 + n.i - sum(1 for i in self.S if i < n.i)
                 return self.d(I)(n.head, *self.transform(n.body))
-            # rules that were replaced by the fold
-            assert n.p == self.parent
 
-            if not self.partially_safe:
-                return self.rev.Transform(self.Transform(n, self.rev), self.rev.undo)
+            # The rule was replaced by the fold.  The undo program has an equal rule
+            #
+            #    head += left * [body of the defining rule] * right
+            #
+            # (possibly with a different subgoal order), so rearranging the
+            # subgoals to match that rule tells us which ones are folded.
+            u = self.undo.d(self.par2rev[n.i])(n.head, *n.body)
 
-            # We have recorded that the top rule P of this derivation maps
-            # [via par2def] to a defining rule D.
+            defs = self.undo.defs
             def_rule_ix = self.par2def[n.i]
-            def_rule = self.defs.rules[def_rule_ix]
+            def_rule = defs.rules[def_rule_ix]
 
-            # Use our recorded alignment of P's subgoals to D's subgoals
-            bookkeeping = self.bookkeeping[n.i]
-
-            # Note: Splitting uses some guess work to determined left vs. right
-            d_left = n.body[[i for i in bookkeeping.remaining if i <= self.j]]
-            d_middle = n.body[list(sorted(bookkeeping.align))]
-            d_right = n.body[[i for i in bookkeeping.remaining if i > self.j]]
+            d_left = u.body[:self.j]
+            d_middle = u.body[self.j:self.j+len(def_rule.body)]
+            d_right = u.body[self.j+len(def_rule.body):]
 
             # determine the unique substitution that makes the body of the
             # derivation match the body of def_rule
             θ = Subst()
-            for i, j in bookkeeping.align.items():
-                θ.cover(def_rule.body[j], n.r.body[i])
+            for x, y in zip(def_rule.body, d_middle):
+                θ.cover(x, y.head if isinstance(y, Derivation) else y)
+            head = θ(def_rule.head)
 
             # The middle is where all the action happens
-            d_middle_new = self.defs.Transform(self.defs.d(def_rule_ix)(
-                θ(def_rule.head), *self.Transform(d_middle, self.defs)
-            ), self.parent)
-
-            return self.d(self.i)(n.head, *self.transform(d_left * d_middle_new * d_right))
+            if self.partially_safe:
+                d_middle_new = self.transform(defs.Transform(
+                    defs.d(def_rule_ix)(head, *self.Transform(d_middle, defs)),
+                    self.parent
+                ))
+            else:   # the definitions are the rules of the new program
+                d_middle_new = self.d(def_rule_ix)(head, *self.transform(d_middle))
+
+            return self.d(self.i)(
+                n.head, *self.transform(d_left), d_middle_new, *self.transform(d_right)
+            )
         return Derivation.map(d, node)
 
     def untransform(self, d):
diff --git a/dyna/transform/unfold.py b/dyna/transform/unfold.py
index 4142301..289c6a9 100644
--- a/dyna/transform/unfold.py
+++ b/dyna/transform/unfold.py
@@ -51,7 +51,7 @@ class Unfold(TransformedProgram):
             # keep the the revised RHS in the same order.
 
             new = list(program.rules)
-            new.remove(r)
+            new.pop(i)
 
             assert defs.safe_inline(r.body[j]), f"unsafe to unfold `{r.body[j]}` at ({i},{j}) against definitions {self.defs}."
 
@@ -90,7 +90,7 @@ class Unfold(TransformedProgram):
                 new_rule_ix = self.def2new[d_middle_defs.i]
                 return self.d(new_rule_ix)(n.head, *self.transform(d_left * d_middle_new * d_right))
             assert n.p == self.parent
-            I = self.rules.index(n.R)   # the index of the copied rule in the new program
+            I = n.i if n.i < self.i else n.i - 1   # the index of the copied rule in the new program
             return self.d(I)(n.head, *self.transform(n.body))
         return Derivation.map(d, node)
 
-- 
2.43.0


From 0556a841d0bd36297e5f8e70757c3f85972d5324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:45 +0000
Subject: [PATCH 18/31] fix: Program.Transform compares programs by identity

---
 dyna/program.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/dyna/program.py b/dyna/program.py
index 28b0f0d..4262e49 100644
--- a/dyna/program.py
+++ b/dyna/program.py
@@ -2177,11 +2177,6 @@ input/output declarations</summary>\
 
         assert target.root == source.root
 
-        # We can find a path for source to target by going through their common root node
-        # (which exists by assumption).
-        if target not in set(source.transforms()) and source not in set(target.transforms()):
-            return source.root.Transform(source.Transform(d, source.root), target)
-
         if source is target:   # exactly the same program
             return d
 
@@ -2195,18 +2190,29 @@ input/output declarations</summary>\
                 *[source.Transform(y, target) for y in d.body]
             )
 
-        elif source in set(target.transforms()):
-            if source == target.parent:
+        # Note: programs in the network are compared by identity below because a
+        # transformation sequence may visit (superficially different versions of)
+        # the same program several times.
+        elif any(source is p for p in target.transforms()):
+            if source is target.parent:
                 return target.transform(d)
             else:
                 return target.parent.Transform(source.Transform(d, target.parent), target)
 
-        else:
-            if source.parent == target:
+        elif any(target is p for p in source.transforms()):
+            if source.parent is target:
                 return source.untransform(d)
             else:
                 return source.parent.Transform(source.Transform(d, source.parent), target)
 
+        # We can find a path for source to target by going through their common root node
+        # (which exists by assumption).
+        elif source is source.root:     # the roots are equal, but not the same
+            return target.root.Transform(source.Transform(d, target.root), target)
+
+        else:
+            return source.root.Transform(source.Transform(d, source.root), target)
+
 
 class TransformedProgram(Program):
     def __init__(self, name, parent, program):
-- 
2.43.0


From dc6fc9b7832471a3ff9e29fa6695fa6817a167f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:45 +0000
Subject: [PATCH 19/31] fix: slash and left-corner transforms map derivations
 of unslashed items

---
 dyna/transform/lct.py   |  90 +++++++++++++++++++--------------
 dyna/transform/slash.py | 107 +++++++++++++++-------------------------
 2 files changed, 93 insertions(+), 104 deletions(-)

diff --git a/dyna/transform/lct.py b/dyna/transform/lct.py
index e0775b6..2523a23 100644
--- a/dyna/transform/lct.py
+++ b/dyna/transform/lct.py
@@ -1,6 +1,6 @@
 from dyna import TransformedProgram, Derivation, Rule, Product, Term, fresh, covers, Var, unifies, unify
 from dyna import syntax
-from dyna.transform.slash import not_matches3
+from dyna.transform.slash import not_matches3, recover_other
 
 
 class LCT(TransformedProgram):
@@ -139,45 +139,59 @@ class LCT(TransformedProgram):
         return any(unifies(x, y) for y in self._useful_other)
 
     def transform(self, d):
-        def node(n):
-            j = self.positions.get(n.i)
-            coarsen = self._parent_nodes.root
-            if j is None:
-                # handle cases of useless others
-                if self._is_useful_other(n.head):
-                    other = self.d(self.o[n.i]._index)(self._other(n.head), *self.transform(n.body))
-                    return self.d(None)(n.head, other)
-                return self.d(None)(n.head, *self.transform(n.body))
-
-            if not unifies(n.head, self.x):
-                return self.d(None)(n.head, *self.transform(n.body))
-
-            x, spine = self.transform_spine(n, n, callback=lambda x: x)
-            # Apply recovery rules to promote spine into an actual derivation of n.head
-            if self.is_const(x):
-                other = x
-                [xxx] = x
-            else:
-                other = self.d(self.o[x.i]._index)(self._other(x.head), *self.transform(x.body))
-                [xxx] = other.head.args
-            return self.d(self.rso[coarsen(n.head), coarsen(xxx)]._index)(n.head, spine, other)
-        return Derivation.map(d, node)
+        return Derivation.map(d, self._transform_node)
+
+    def _transform_node(self, d):
+
+        # Follow the slashed positions down to the bottom of `d`'s spine.
+        spine = [d]
+        while True:
+            j = self.positions.get(spine[-1].i)
+            if j is None or Derivation.base(spine[-1].body[j]): break
+            spine.append(spine[-1].body[j])
+
+        def siblings(n):
+            j = self.positions[n.i]
+            return self.transform(n.body[:j]), self.transform(n.body[j+1:])
+
+        def frozen(n, rules, *body):
+            # Note: it's the rule, rather than this instance of it, that
+            # determines if its head has been frozen.
+            head = Term(self.other_fn, n.head) if self._is_useful_other(n.R.head) else n.head
+            return self.d(rules[n.i]._index)(head, *body)
 
-    def transform_spine(self, d, y, callback):
-        j = self.positions.get(d.i) if not Derivation.base(d) else None
+        def slashed(n, x, s):
+            left, right = siblings(n)
+            return self.d(self.ss[n.i]._index)(self._slash(d.head, x), *left, *right, s)
+
+        # Freeze the spine from the bottom up to the first (i.e., deepest) `x` item
+        bottom = spine[-1]; k = len(spine) - 1; x = None
         if j is None:
-            x = d
-            return x, callback(self.d(self.base._index)(self._slash(y.head, y.head)))
-
-        def callback1(xxx):
-            return self.d(self.ss[d.i]._index)(
-                self._slash(y.head, d.body[j].head if isinstance(d.body[j], Derivation) else d.body[j]),
-                *self.transform(d.body[:j]),
-                *self.transform(d.body[j+1:]),
-                callback(xxx),
-            )
-
-        return self.transform_spine(d.body[j], y, callback1)
+            o = frozen(bottom, self.o, *self.transform(bottom.body))
+        else:
+            o = bottom.body[j]
+            if unifies(o, self.x):
+                x = o; k += 1
+            else:
+                left, right = siblings(bottom)
+                o = frozen(bottom, self.oo, *left, o, *right)
+
+        while x is None:
+            if unifies(spine[k].head, self.x):
+                x = spine[k].head
+            elif k == 0:       # there are no `x` items along the spine
+                return recover_other(self, d.head, o) if self._is_useful_other(d.R.head) else o
+            else:
+                k -= 1
+                left, right = siblings(spine[k])
+                o = frozen(spine[k], self.oo, *left, o, *right)
+
+        # The part of the spine above the `x` item is built from the top down
+        s = self.d(self.base._index)(self._slash(d.head, d.head))
+        for m in range(k):
+            s = slashed(spine[m], spine[m+1].head if m+1 < len(spine) else x, s)
+
+        return self.d(None)(d.head, o, s)
 
     def compute_measure(self, M):
         "Fold-unfold safety measure for the left-corner transform. `M` is the Measure context."
diff --git a/dyna/transform/slash.py b/dyna/transform/slash.py
index 9160717..320ba54 100644
--- a/dyna/transform/slash.py
+++ b/dyna/transform/slash.py
@@ -1,8 +1,20 @@
 
 from dyna import (
     syntax, Derivation, Rule, Product, Term, TransformedProgram,
-    fresh, covers, unifies, unify, not_matches3
+    fresh, covers, unifies, unify, not_matches3, Subst
 )
+from dyna.term import FAIL
+
+
+def recover_other(q, head, o):
+    "Apply `q`'s rule `head += $other(head) * conditions` to the derivation `o` of `$other(head)`."
+    for r in q.ro.values():
+        s = Subst().cover(r.head, head)
+        if s is FAIL: continue
+        # the conditions (if any) are builtins
+        cs = [Derivation(Rule(s(c), q.Semiring.one), p=None, I=None) for c in r.body[1:]]
+        return q.d(r._index)(head, o, *cs)
+    assert False, f'no recovery rule for {head}'    # pragma: no cover
 
 
 class Slash(TransformedProgram):
@@ -147,84 +159,47 @@ class Slash(TransformedProgram):
         return Derivation.map(d, self._transform_node)
 
     def _transform_node(self, d):   # `d` is a single rule node (Derivation.map handled Product/base)
-        #tree = self.d(None)
-        coarsen = self._parent_nodes.root
         slash = self._slash
-        frozen = self._other
+        D_base = self.d(self.base._index)
         is_frozen = lambda x: isinstance(x, Term) and x.fn == self.other_fn
-
+        is_slash = lambda s: isinstance(s, Derivation) and s.head.fn == self.slash_fn
         getx = lambda o: (o.head.args[0] if is_frozen(o.head) else o.head) if isinstance(o, Derivation) else o
-
-        D_ro = lambda head, *body: self.d(self.ro[coarsen(head)]._index)(head, *body)
-        D_ro = lambda head, *body: self.d(None)(head, *body)
-        D_rso = lambda head, o, *body: self.d(self.rso[coarsen(head), coarsen(o.head.args[0]) if isinstance(o, Term) else o]._index)(head, o, *body)
         D_rso = lambda head, o, *body: self.d(None)(head, o, *body)
-        D_ss = lambda d: self.d(self.ss[d.i]._index)
-        D_oo = lambda d: self.d(self.oo[d.i]._index)
-        D_base = self.d(self.base._index)
-        D_o = lambda d: self.d(self.o[d.i]._index)
-
-        j = self.positions.get(d.i)
-
-        if j is None:   # base of spine
 
-            rest = self.transform(d.body)
+        def frozen_spine(d, rules, *body):
+            "bottommost element of the spine: `d`'s rule doesn't have anything to slash (in this derivation)"
+            # Note: it's the rule, rather than this instance of it, that
+            # determines if its head has been frozen.
+            if not self._is_useful_other(d.R.head):
+                return self.d(rules[d.i]._index)(d.head, *body)
+            o = self.d(rules[d.i]._index)(Term(self.other_fn, d.head), *body)
             if unifies(d.head, self.x):
-                return D_rso(d.head, D_o(d)(frozen(d.head), *rest), D_base(slash(d.head, d.head)))
-
+                return D_rso(d.head, o, D_base(slash(d.head, d.head)))
             else:
-                if self._is_useful_other(d.head):
-                    return D_ro(d.head, D_o(d)(frozen(d.head), *rest))
-                else:
-                    return D_o(d)(d.head, *rest)
+                return recover_other(self, d.head, o)
 
-        else:
+        j = self.positions.get(d.i)
 
-            dd = self.transform(d.body[j])
-            left = self.transform(d.body[:j])
-            right = self.transform(d.body[j+1:])
+        if j is None:   # base of spine
+            return frozen_spine(d, self.o, *self.transform(d.body))
 
-            if Derivation.base(dd):
-                o = dd
+        dd = self.transform(d.body[j])
+        left = self.transform(d.body[:j])
+        right = self.transform(d.body[j+1:])
 
-                if unifies(o, self.x):
-                    s = D_base(slash(o, o))
-                    name = getx(o)
-                    return D_rso(d.head, o, D_ss(d)(slash(d.head, name), *left, s, *right))
+        if Derivation.base(dd):
+            o = dd
+            if not unifies(o, self.x):
+                return frozen_spine(d, self.oo, *left, o, *right)
+            s = D_base(slash(o, o))
 
-                else:
-                    o = dd
-                    # slash base case; this is the bottommost element of Xs along the spine.
-                    if unifies(d.head, self.x):
-                        return D_rso(d.head, D_oo(d)(frozen(d.head), *left, o, *right), D_base(slash(d.head, d.head)))
-                    else:
-                        if self._is_useful_other(d.head):
-                            return D_ro(d.head, D_oo(d)(frozen(d.head), *left, o, *right))
-                        else:
-                            return D_oo(d)(d.head, *left, o, *right)
-
-            elif len(dd.body) == 1:   # frozen
-
-                # XXX: The condition above might not be a perfect test anymore
-                # because of the special handling for useless others - need to
-                # double check...this worry might be ruled out by other factors
-
-                [o] = dd.body
-                assert o.head.fn == self.other_fn
-
-                # slash base case; this is the bottommost element of Xs along the spine.
-                if unifies(d.head, self.x):
-                    return D_rso(d.head, D_oo(frozen(d.head), *left, o, *right), D_base(slash(d.head, d.head)))
-                else:
-                    if self._is_useful_other(d.head):
-                        return D_ro(d.head, D_oo(d)(frozen(d.head), *left, o, *right))
-                    else:
-                        return D_oo(d)(d.head, *left, o, *right)
+        elif is_slash(dd.body[-1]):
+            [o, s] = dd.body
 
-            else:
-                [o, s] = dd.body
-                name = getx(o)
-                return D_rso(d.head, o, D_ss(d)(slash(d.head, name), *left, s, *right))
+        else:   # frozen
+            return frozen_spine(d, self.oo, *left, dd.body[0], *right)
+
+        return D_rso(d.head, o, self.d(self.ss[d.i]._index)(slash(d.head, getx(o)), *left, s, *right))
 
     def compute_measure(self, M):
         "Fold-unfold safety measure for the slash transform. `M` is the Measure context."
-- 
2.43.0


From 2fc5ceeacbf5ce088cb29c797dbd9bde2b208d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:54 +0000
Subject: [PATCH 20/31] fix: coarse graph handles builtins in
 possibly_expansive and nonground inputs in split_input_dependent

---
 dyna/analyze/coarse_graph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dyna/analyze/coarse_graph.py b/dyna/analyze/coarse_graph.py
index 457ba76..2724222 100644
--- a/dyna/analyze/coarse_graph.py
+++ b/dyna/analyze/coarse_graph.py
@@ -55,7 +55,7 @@ class CoarseGraph:
         g = self.g
         T = g.transitive_closure(reflexive=True)
 
-        inputs = set(p.inputs.just_heads() if p.inputs is not None else [])
+        inputs = {self.nodes.root(x) for x in p.inputs.just_heads()}
 
         I = []; D = []
         for r in p:
@@ -116,7 +116,7 @@ class CoarseGraph:
             x = self.nodes.root(r.head)
             count = 0
             for y in r.body:   # can we reach x in more than one way?
-                if p.is_const(y): continue
+                if p.is_const(y) or p.is_builtin(y): continue
                 y = self.nodes.root(y)
                 count += (x in T.outgoing[y])
                 if count > 1: return True
-- 
2.43.0


From 5b136de2bf7169ef3a6b9b3b4a8809aaf69c51cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:18 +0000
Subject: [PATCH 21/31] fix: type analysis does not call unconstrained
 variables free

---
 dyna/analyze/types.py | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/dyna/analyze/types.py b/dyna/analyze/types.py
index c88fa23..7b9fbfd 100644
--- a/dyna/analyze/types.py
+++ b/dyna/analyze/types.py
@@ -49,6 +49,13 @@ def to_type_program(p):
     q.semiring = Boolean
     return q
 
+def any_constraints(r):
+    """
+    Mark the variables that a simple type says nothing about; as these might be
+    bound, any variable that is unified with them isn't known to be free.
+    """
+    return [Term('$any', v) for v in term_vars(r.head) - term_vars(r.body)]
+
 def truncate_term(x, D):
     """
     Return a term that covers `x` if we exceed a representational depth limit.
@@ -85,7 +92,7 @@ class TypeAnalyzer:
         self.program = to_type_program(program + input_type)
         self.inputs = (
             (input_type.inputs or Program([]))      # user type parameters
-            + Program('$free(_). $bound(_).')       # "builtin" type parameters
+            + Program('$free(_). $bound(_). $any(_).')       # "builtin" type parameters
         )
         self.outputs = program.outputs
         self.program.set_input_types(self.inputs)
@@ -146,6 +153,7 @@ class TypeAnalyzer:
         agenda = list(self.step())
         _chart = MostGeneralSet(agenda, self.rewrites.covers)
         self.chart = self.program.spawn(_chart.xs)
+        known = self._known()
         while agenda:
             driver = fresh(agenda.pop(0))
             if self.DEBUG > 0: print(colors.light.yellow % "pop", _pp(driver, color=False))
@@ -155,9 +163,9 @@ class TypeAnalyzer:
                 for k in range(len(r.body)):
                     # better to have an outer loop over change to improve the number of "prefix firings"
                     for _ in unify(r.body[k], driver.head):
-                        for constraints in self.chart.join(*r.body[:k], *r.body[k+1:]):
+                        for constraints in known.join(*r.body[:k], *r.body[k+1:]):
                             if self.DEBUG > 0: print(colors.dark.magenta % '  ', _pp(r, color=False))
-                            for x in self._relax(Rule(r.head, *constraints, *driver.body)):
+                            for x in self._relax(Rule(r.head, *constraints, *driver.body, *any_constraints(driver))):
                                 x = fresh(x)
                                 if _chart.add(x):    # duplicate
                                     if self.DEBUG > 1: print(colors.dark.yellow % '      duplicate', _pp(x, color=False))
@@ -165,6 +173,7 @@ class TypeAnalyzer:
                                     if self.DEBUG > 0: print(colors.light.yellow % '      push: ', _pp(x, color=False))
                                     agenda.append(x)
                                     self.chart = self.program.spawn(_chart.xs)
+                                    known = self._known()
         return self
 
     def _run_generalizing(self):
@@ -195,7 +204,11 @@ class TypeAnalyzer:
 
     def step(self):
         "Expand the program rules against the chart, returns a Program."
-        return self.rewrites.dedup(self.relax(self.program.step(self.chart)))
+        return self.rewrites.dedup(self.relax(self.program.step(self._known())))
+
+    def _known(self):
+        "The current chart, including which variables it has no information about."
+        return self.program.spawn([Rule(x.head, *x.body, *any_constraints(x)) for x in self.chart])
 
     def relax(self, S):
         return self.program.spawn([t for s in S for t in self._relax(s)])
@@ -211,7 +224,7 @@ class TypeAnalyzer:
             print(colors.red % f'[truncate]  -> {h}')
         # Drop any constraint that mentions local variables.
         head_vars = term_vars(h)
-        s = Rule(h, *{x for x in r.body if term_vars(x) <= head_vars and term_vars(x)})
+        s = Rule(h, *{x for x in r.body if x.fn != '$any' and term_vars(x) <= head_vars and term_vars(x)})
         if self.DEBUG > 1:
             print(colors.yellow % '      init: ', _pp(_r, color=False))
             print(colors.yellow % '      prop: ', _pp(r, color=False))
-- 
2.43.0


From 90daa5e593df5271fc1a8c0ba898448f25ebc290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:18 +0000
Subject: [PATCH 22/31] fix: equality constraints are solved by unification

---
 dyna/analyze/rewrites.py |  6 +++++-
 dyna/propagate.py        | 11 +++++++++--
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/dyna/analyze/rewrites.py b/dyna/analyze/rewrites.py
index c728230..d942080 100644
--- a/dyna/analyze/rewrites.py
+++ b/dyna/analyze/rewrites.py
@@ -70,7 +70,11 @@ class Rewrites:
         chart = cp(R.body)
         if chart is None: return
 
-        subst = Subst({x: y for _,x,y in cp.bindings})
+        # solve the equality constraints
+        subst = Subst()
+        for _,x,y in cp.bindings:
+            subst = subst.mgu(x, y)
+            if subst is Subst.FAIL: return
         chart = {subst(x) for x in chart if isinstance(x, Term) and x.fn != '='}
 
         assert all(isinstance(x, Term) for x in chart)
diff --git a/dyna/propagate.py b/dyna/propagate.py
index 106822a..675373b 100644
--- a/dyna/propagate.py
+++ b/dyna/propagate.py
@@ -210,7 +210,13 @@ class ConstraintPropagation:
                 X,Y = driver.args
 
                 # check for a contradiction
-                if not isinstance(X, Var) and not isinstance(Y, Var) and X != Y: return
+                subst0 = Subst().mgu(X, Y)
+                if subst0 is Subst.FAIL: return
+
+                # equality of structured terms is equality of their components
+                if not isinstance(X, Var) and not isinstance(Y, Var):
+                    for k,v in subst0.items():
+                        update(Term('=',k,v))
 
                 # Release the equality constraint now that it has be
                 # successfully applied.
@@ -224,7 +230,8 @@ class ConstraintPropagation:
                             self.update(replace_in_expr(x, X, Y))
                             self.update(replace_in_expr(x, Y, X))
 
-                self.bindings.append(driver)  # keep a record of the substitution
+                if X != Y:
+                    self.bindings.append(driver)  # keep a record of the substitution
 
                 # If there was a change (i.e., a variable is more instantiated),
                 # we might want to try re-evaluating pending constraint that
-- 
2.43.0


From 9a26370306a127b22cf69148383525b48895ba5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:09 +0000
Subject: [PATCH 23/31] fix: Rewrites propagates the instantiated constraints
 after solving equalities

---
 dyna/analyze/rewrites.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/dyna/analyze/rewrites.py b/dyna/analyze/rewrites.py
index d942080..0ba5146 100644
--- a/dyna/analyze/rewrites.py
+++ b/dyna/analyze/rewrites.py
@@ -70,12 +70,19 @@ class Rewrites:
         chart = cp(R.body)
         if chart is None: return
 
-        # solve the equality constraints
+        # solve the equality constraints, and propagate the instantiated
+        # constraints until there are no equalities left to solve.
         subst = Subst()
-        for _,x,y in cp.bindings:
-            subst = subst.mgu(x, y)
-            if subst is Subst.FAIL: return
-        chart = {subst(x) for x in chart if isinstance(x, Term) and x.fn != '='}
+        bindings = []
+        while True:
+            bindings.extend(cp.bindings)
+            for _,x,y in cp.bindings:
+                subst = subst.mgu(x, y)
+                if subst is Subst.FAIL: return
+            chart = {subst(x) for x in chart if isinstance(x, Term) and x.fn != '='}
+            if not cp.bindings: break
+            chart = cp(chart)
+            if chart is None: return
 
         assert all(isinstance(x, Term) for x in chart)
 
@@ -118,7 +125,7 @@ class Rewrites:
                 if free_vars & got_bound: return
 
                 # We have a problem if there is more than 1 variable equal to `X`.
-                if any(sum((X == A or X == B) for [_,A,B] in cp.bindings) > 1 for X in free_vars):
+                if any(sum((X == A or X == B) for [_,A,B] in bindings) > 1 for X in free_vars):
                     return
 
                 if not all((y.fn == '$free' or X not in term_vars(y)) for y in chart for X in free_vars):
-- 
2.43.0


From b288efc9b5d83f9b7cbf2422d9bd5ec8b99eb7ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:35 +0000
Subject: [PATCH 24/31] fix: the budget alarm of a solver is disarmed however
 the call ends

---
 dyna/execute/base.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dyna/execute/base.py b/dyna/execute/base.py
index b99a876..7e8746d 100644
--- a/dyna/execute/base.py
+++ b/dyna/execute/base.py
@@ -1,3 +1,5 @@
+import signal
+
 from dyna import Program, Rule, term, fresh, Product
 from dyna.builtin import Builtins
 from arsenal.robust import timelimit, Timeout
@@ -94,6 +96,9 @@ class BaseSolver:
             self.interrupted = True
             #print('timed out')
             if throw: raise e   # pragma: no cover
+        finally:
+            # `timelimit` only disarms its alarm when the block runs to completion
+            if budget is not None: signal.setitimer(signal.ITIMER_REAL, 0)
         return self
 
     forward_chaining = __call__
-- 
2.43.0


From 6b98d4e39e601913fac5c920bc7e4d977fa349a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:35 +0000
Subject: [PATCH 25/31] fix: querying an interrupted solver does not crash on
 an indexed item without a value

---
 dyna/execute/solver.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dyna/execute/solver.py b/dyna/execute/solver.py
index 151431b..146681b 100644
--- a/dyna/execute/solver.py
+++ b/dyna/execute/solver.py
@@ -201,7 +201,8 @@ class Chart:
 
         for x in xs:
             for _ in unify(x, q):
-                yield self.chart[q]
+                # an interrupted update may have indexed an item without a value
+                if q in self.chart: yield self.chart[q]
 
     def _build_index(self, fa, m):
         f,a = fa
-- 
2.43.0


From c09db8ad48d5cde928a8b6ff67963070e76b4607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:35 +0000
Subject: [PATCH 26/31] fix: join_f accepts semiring values (abbreviate crashed
 on weighted semirings)

---
 dyna/term.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dyna/term.py b/dyna/term.py
index 7a10122..ba2f0cc 100644
--- a/dyna/term.py
+++ b/dyna/term.py
@@ -53,7 +53,7 @@ def join_f(f, *xs):
     else:
         for d1 in f(xs[0]):
             for d2 in join_f(f, *xs[1:]):
-                yield d1 * d2
+                yield Product() * d1 * d2   # (`d1` may be a semiring value)
 
 #def join(f, xs):
 #    assert isinstance(xs, tuple), xs
-- 
2.43.0


From b60bdecb51bb6a7c859696c7120dbd632493a1bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:43 +0000
Subject: [PATCH 27/31] fix: an empty conjunction is the empty product
 (seminaive and Newton crashed with semirings whose one does not absorb)

---
 dyna/program.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dyna/program.py b/dyna/program.py
index 4262e49..e74d8cd 100644
--- a/dyna/program.py
+++ b/dyna/program.py
@@ -1241,7 +1241,7 @@ input/output declarations</summary>\
         if not isinstance(xs, tuple):
             return ResultStream(self.lookup_vals, xs)
         elif len(xs) == 0:
-            return Constant(self.Semiring.one)
+            return Constant(Product())
         elif len(xs) == 1:   # special case to avoid extra semiones
             return self[xs[0]]
         else:
-- 
2.43.0


From 4631d462d54ebdb369abc5279d9885033fbb95fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:28 +0000
Subject: [PATCH 28/31] fix: the safety measure rejects folds it cannot justify
 instead of failing an assertion (crash of the search with reversible folds)

---
 dyna/transform/fold.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dyna/transform/fold.py b/dyna/transform/fold.py
index 495f949..85f53a1 100644
--- a/dyna/transform/fold.py
+++ b/dyna/transform/fold.py
@@ -158,7 +158,9 @@ class Fold(TransformedProgram):
 
     def compute_measure(self, M):
         "Fold-unfold safety measure for this (generalized) fold. `M` is the Measure context."
-        assert self.partially_safe
+        # The measure says nothing about folds that use the folded program's own
+        # rules as definitions (they can only be justified by reversibility).
+        if not self.partially_safe: return M.zero_measure(self)
         # Common-ancestor precondition. The fold's rule-measure relations only
         # make sense if `parent` and `defs` descend from the same root program
         # (so their measure variables were allocated against a shared rule-index
-- 
2.43.0


From 9b5c8ad77f11672579d4385e8ec5eb0651d5b992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:28 +0000
Subject: [PATCH 29/31] fix: search with left-corner moves passed the arguments
 of lct in the wrong order

---
 dyna/search/search.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dyna/search/search.py b/dyna/search/search.py
index e7ccc9e..2d26bf4 100644
--- a/dyna/search/search.py
+++ b/dyna/search/search.py
@@ -367,7 +367,7 @@ class AgendaBasedSearch:
                 pos1 = pos.copy()
                 pos1[r] = j
 
-                q = ref.lct(x, {ref.rules.index(r): j for r,j in pos1.items()})
+                q = ref.lct({ref.rules.index(r): j for r,j in pos1.items()}, x=x)
                 new = q.prune().abbreviate().prune().reset_transform_history()
 
                 if 1:
-- 
2.43.0


From c766ef5f2d09d7e672b5c146292b11abb56ab54e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:28 +0000
Subject: [PATCH 30/31] fix: optimizing a rule in isolation does not declare
 its builtins as inputs

---
 dyna/search/old.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dyna/search/old.py b/dyna/search/old.py
index 539fd11..b57ba7b 100644
--- a/dyna/search/old.py
+++ b/dyna/search/old.py
@@ -251,7 +251,7 @@ class MacroFold(Action):
         if key not in rule_states:
             init = Program(
                 [r],
-                inputs = Program([Rule(fresh(x)) for x in r.body if not is_const(x)]),
+                inputs = Program([Rule(fresh(x)) for x in r.body if not program.is_const(x) and not program.is_builtin(x)]),
                 outputs = Program([Rule(fresh(r.head))]),
             )
             rule_states[key] = init.beam(100_000, 100, verbosity=0, kill=True, cost=self.graph.cost, TRANSFORMS=['fold']).best
-- 
2.43.0


From 87f27d3dd138e94032eac8d3f4b44604cdd6cce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:28 +0000
Subject: [PATCH 31/31] fix: abbreviate declares only the user's type
 parameters as inputs

---
 dyna/analyze/abbreviate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dyna/analyze/abbreviate.py b/dyna/analyze/abbreviate.py
index 80a2c41..51df782 100644
--- a/dyna/analyze/abbreviate.py
+++ b/dyna/analyze/abbreviate.py
@@ -102,7 +102,7 @@ class Abbreviate(TransformedProgram):
 
         super().__init__('specialize', program, new_rules)
         # the user's type parameter are now required as input
-        self.set_input_types(self.inputs + self.types._input_type.inputs)
+        self.set_input_types(self.inputs + [r for r in self.types._input_type.inputs if not self.is_builtin(r.head)])
 
     def __dropped_var_correction(self, body_closure, new_rule, debug):
         # apply the multiplicity correction if a free local variable is lost
-- 
2.43.0

