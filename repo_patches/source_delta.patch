From 54bc06322af25bec58fd28edc94499660f0a5592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:33 +0000
Subject: [PATCH 01/43] fix: names such as e0 or e12 are not floating-point
 literals

---
 dyna/syntax.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dyna/syntax.py b/dyna/syntax.py
index 10c30b2..5d18613 100644
--- a/dyna/syntax.py
+++ b/dyna/syntax.py
@@ -197,7 +197,7 @@ params: PARAMS expr1 EOR
 
 AGG.100000: ( /[+]=/ | /:-/ )
 
-FLOAT.10000000: /[\-+]?[0-9]*((\.[0-9]+(e[\-+]?[0-9]+)?)|(e[\-+]?[0-9]+))/    // 1e5 and 1.0 and -1.0e+5
+FLOAT.10000000: /[\-+]?([0-9]*\.[0-9]+(e[\-+]?[0-9]+)?|[0-9]+e[\-+]?[0-9]+)/    // 1e5 and 1.0 and -1.0e+5 (but not e5, which is a name)
 
 INT: /[\-+]?[0-9]+/
 
-- 
2.43.0


From 27d2c9216bf7286833c9c457b38630ee5d2db417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:53 +0000
Subject: [PATCH 02/43] fix: non-ground solver counts an item matching several
 subgoals once

---
 dyna/execute/solver2.py | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/dyna/execute/solver2.py b/dyna/execute/solver2.py
index 6b11942..fd543bb 100644
--- a/dyna/execute/solver2.py
+++ b/dyna/execute/solver2.py
@@ -128,16 +128,30 @@ class Solver(BaseSolver):
                 yield (r, v)
 
     def drive_rule(self, r, a, old, Δ):
+        # A nonground item can match several subgoals of the rule, even when they
+        # do not unify with each other, e.g., `f(X)` in `goal += f(1) * f(2)`.
+        # To avoid double counting, subgoals to the left of the driver see the
+        # old value of the item.
+        was = (canonicalize(a), old)
         for i, b in enumerate(r.body):    # TODO: use subgoal rule index
             for _ in unify(a, b):
-                bs = list(r.body); bs[i] = Δ   # replace subgoal i with Δ.
-                for v in self.join(bs, self.one):
-                    yield v * self.program.multiple(r)
+                for u in self.join(r.body[:i], self.one, was=was):
+                    for v in self.join(r.body[i+1:], u * Δ):
+                        yield v * self.program.multiple(r)
+
+    def join(self, xs, value, was=None):
+        self.prefix_firings += 1
+        if len(xs) == 0:
+            yield value
+        else:
+            for v in self.lookup_vals(xs[0], was=was):
+                yield from self.join(xs[1:], value * v, was=was)
 
-    def lookup_vals(self, q):
+    def lookup_vals(self, q, was=None):
         """
         Answer query `q` by matching it against the chart,
         returns a stream of bindings to `q` and emits contribs.
+        If `was=(item, value)` is given, `item` is looked up at that value.
         """
         q = snap(q)
 
@@ -187,6 +201,9 @@ class Solver(BaseSolver):
         else:
             for x, v in self.chart.items():   # XXX: use indexing!!!
                 #assert iswrap(x), x
+                if was is not None and x == was[0]:
+                    v = was[1]
+                    if v == self.zero: continue
                 x = fresh(x)
                 for _ in unify(x, q):
                     yield v
-- 
2.43.0


From 90e9be590d4391cb88bbb5b03ca64601fcac4f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:11 +0000
Subject: [PATCH 03/43] fix: fc(max_iter=0) returns the initial chart instead
 of raising

---
 dyna/program.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dyna/program.py b/dyna/program.py
index 5e93a71..c616eda 100644
--- a/dyna/program.py
+++ b/dyna/program.py
@@ -883,6 +883,7 @@ input/output declarations</summary>\
     def fc(self, *, max_iter=None, chart=None, verbose=False, proj=lambda p: p):
         "Naive forward chaining (possibly with delayed constraints)"
         old = Program([], Program([]), Program([]), semiring=self.Semiring) if chart is None else chart
+        new = old
         for m in (range(max_iter) if max_iter is not None else count()):
             if verbose: print('Iter', m, old)
             new = proj(self.step(old))
-- 
2.43.0


From c77f33f3fd32e64882ee22dfd1a82f2d20205c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:47 +0000
Subject: [PATCH 04/43] fix: semiring constants in bodies survive run_builtins
 and snap_unifications

---
 dyna/program.py | 2 +-
 dyna/term.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/dyna/program.py b/dyna/program.py
index c616eda..248b80b 100644
--- a/dyna/program.py
+++ b/dyna/program.py
@@ -1504,7 +1504,7 @@ input/output declarations</summary>\
                         yield v * vs
             else:
                 for vs in self._run_builtins(ys[1:]):
-                    yield ys[0] * vs
+                    yield Product((ys[0], *vs))
 
     #def rewrites(self, rewrites):
     #    "Apply rewrites to the bodies of all rules in this program."
diff --git a/dyna/term.py b/dyna/term.py
index a87f873..d30157d 100644
--- a/dyna/term.py
+++ b/dyna/term.py
@@ -213,7 +213,7 @@ class Product(tuple):
                 yield from self[1:].snap_unifications()
         else:
             for ys in self[1:].snap_unifications():
-                yield x0 * ys
+                yield Product((x0, *ys))
 
     def covers(self, ys, s=Ellipsis):
         """
-- 
2.43.0


From ab7e46b3af8a864054b59f59bf7ee7d945d8e80a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:55 +0000
Subject: [PATCH 05/43] fix: rules whose head is a variable match every functor

---
 dyna/program.py | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/dyna/program.py b/dyna/program.py
index 248b80b..79d6a92 100644
--- a/dyna/program.py
+++ b/dyna/program.py
@@ -464,7 +464,7 @@ input/output declarations</summary>\
         i = len(self.rules)
         self.rules.append(r)
         if self._cache_f2r is not None:
-            self._cache_f2r[r.head.fn].append(i)
+            self._index_rule(i, r)
         self._invalidate_caches()
         return i
 
@@ -1379,18 +1379,24 @@ input/output declarations</summary>\
     # the index at all.
     def f2r(self, f):
         if self._cache_f2r is None:
-            # Rule indexing by head functor
-            syms = self.syms
-            f2r = defaultdict(list)
+            # Rule indexing by head functor; the wild rules (those whose head is
+            # a variable) match every functor, and are listed under None.
+            self._cache_f2r = {None: []}
             for i, r in enumerate(self):
-                if isinstance(r.head,  Term):
-                    f2r[r.head.fn].append(i)
-                else:
-                    # head is a variable
-                    assert isinstance(r.head, Var), r
-                    for f in syms: f2r[f].append(i)   # every functor uses matches the wild rule.
-            self._cache_f2r = f2r
-        return self._cache_f2r.get(f, [])
+                self._index_rule(i, r)
+        f2r = self._cache_f2r
+        return f2r[f] if f in f2r else f2r[None]
+
+    def _index_rule(self, i, r):
+        "Add rule `r`, which has the largest index so far, `i`, to the index."
+        f2r = self._cache_f2r
+        if isinstance(r.head, Term):
+            if r.head.fn not in f2r: f2r[r.head.fn] = list(f2r[None])
+            f2r[r.head.fn].append(i)
+        else:
+            # head is a variable
+            assert isinstance(r.head, Var), r
+            for ix in f2r.values(): ix.append(i)
 
     #___________________________________________________________________________
     # Symbol management
-- 
2.43.0


From ed86320c65d2420b0118d8bdecec0d27e5138308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:55 +0000
Subject: [PATCH 06/43] fix: a delayed comparison is not also looked up among
 the rules

---
 dyna/program.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dyna/program.py b/dyna/program.py
index 79d6a92..84a73c5 100644
--- a/dyna/program.py
+++ b/dyna/program.py
@@ -1329,6 +1329,7 @@ input/output declarations</summary>\
                     r = Rule(q, q)    # delayed
                     r.i = None
                     yield r
+                    return
 
             if q.fn == '=' and q.arity == 2:
                 [X,Y] = q.args
-- 
2.43.0


From 668e5efc2f12c588b28fce2f03e2bf25f7ab0249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:55 +0000
Subject: [PATCH 07/43] fix: generalizer gives distinct variables to distinct
 pairs of subterms

---
 dyna/term.py | 78 ++++++++++++++++++++++------------------------------
 1 file changed, 33 insertions(+), 45 deletions(-)

diff --git a/dyna/term.py b/dyna/term.py
index d30157d..a1de250 100644
--- a/dyna/term.py
+++ b/dyna/term.py
@@ -603,58 +603,46 @@ def fresh(z, nice_name=True):
 # Anti-unification
 
 def generalizer(t1, t2, s1=Ellipsis, s2=Ellipsis):
-    "Anti-unification algorithm"
+    """
+    Anti-unification algorithm.
+
+    The optional arguments `s1` and `s2` are filled in with the substitutions
+    that turn the generalizer back into `t1` and `t2`, respectively.
+    """
 
     if s1 is Ellipsis: s1 = {}
     if s2 is Ellipsis: s2 = {}
 
-    def traverse(x, y):
-
-        if x == y:
-            return x
-
-        elif isinstance(x, Var):   # x != y and x is a variable
-
-            if x.occurs_check(y):
-                if x not in s1:
-                    s1[x] = Var()
-                return s1[x]
-
-            if x in s1:             # already have an subst for `x`, it must match.
-                if s1[x] != y:
-                    s1[x] = Var()
-                    return s1[x]
-            else:
-                s1[x] = y            # Note: we do *not* need to copy `s`.
-            return x
-
-        elif isinstance(y, Var):   # x != y, x is not a variable, y is a variable
-
-            if y.occurs_check(x):
-                if y not in s2: s2[y] = Var()
-                return s2[y]
-
-            if y in s2:
-                if s2[y] != x:
-                    s2[y] = Var()
-                    return s2[y]
-            else:
-                s2[y] = x            # Note: we do *not* need to copy `s`.
-            return y
-
-        elif isinstance(x, Term) and isinstance(y, Term) and len(x) == len(y) and x.fn == y.fn:
-            return Term(*(traverse(a, b) for a, b in zip(x, y)))
+    memo = []      # [(x, y, z)]: the pair of disagreeing subterms (x, y) is generalized by the variable z
 
+    def traverse(x, y):
+        x = snap(x)
+        y = snap(y)
+
+        if not isinstance(x, Var) and not isinstance(y, Var):
+            if isinstance(x, Term) and isinstance(y, Term):
+                if len(x) == len(y) and x.fn == y.fn:
+                    return Term(*(traverse(a, b) for a, b in zip(x, y)))
+            elif x == y:
+                return x
+
+        # Equal pairs are generalized by the same variable, distinct pairs by
+        # distinct variables.
+        for a, b, z in memo:
+            if a == x and b == y:
+                return z
+
+        # Reuse one of the variables, if it has not been taken by another pair
+        taken = [z for _, _, z in memo]
+        for z, other in ((x, y), (y, x)):
+            if isinstance(z, Var) and z not in taken and not (z != other and z.occurs_check(other)): break
         else:
-            if x in s1:
-                return s1[x]
-            if y in s2:
-                return s2[y]
-
             z = Var()
-            s1[x] = z
-            s2[y] = z
-            return z
+
+        memo.append((x, y, z))
+        if z != x: s1[z] = x
+        if z != y: s2[z] = y
+        return z
 
     return traverse(t1, t2)
 
-- 
2.43.0


From 4cc238bc3438536737dd180762fe4d5c1f10cba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:55 +0000
Subject: [PATCH 08/43] fix: DisjointEstimate.add rechecks overlap after
 generalizing

---
 dyna/term.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dyna/term.py b/dyna/term.py
index a1de250..4c66ffd 100644
--- a/dyna/term.py
+++ b/dyna/term.py
@@ -1012,10 +1012,13 @@ class DisjointEstimate:
         # actually merge.  Two freshenings maintain it: on entry, and after each `generalizer` (which
         # can re-inject the matched entry's vars).  O(#merges), not O(#entries), freshenings per add.
         r = fresh(r)
-        for i in reversed(range(len(self.xs))):
+        i = len(self.xs)
+        while i > 0:
+            i -= 1
             if unifies(r, self.xs[i]):   # overlaps
                 r = fresh(generalizer(r, self.xs[i]))
                 del self.xs[i]
+                i = len(self.xs)         # start over because `r` may overlap more entries now
         self.xs.append(canonicalize(r))
     def find_all(self, x):
         "Return the unique branch of the partition that x falls into (or throw an error)"
-- 
2.43.0


From 3309b7e732fc279eb8cf370613b7ec1bd513fee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:53 +0000
Subject: [PATCH 09/43] fix: prune_fast accepts programs with builtin type
 parameters

---
 dyna/analyze/dead.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/dyna/analyze/dead.py b/dyna/analyze/dead.py
index 4d44b22..94c3b2f 100644
--- a/dyna/analyze/dead.py
+++ b/dyna/analyze/dead.py
@@ -105,8 +105,11 @@ class ProgramCoarsening:
     def __init__(self, p):
         self.parent = p
 
+        # builtin type parameters (e.g., $bound) are not items
+        input_heads = [x for x in p.inputs.just_heads() if not p.is_builtin(x)]
+
         nodes = DisjointEstimate()
-        for x in p.inputs.just_heads():
+        for x in input_heads:
             nodes.add(x)
         for x, *ys in p:
             nodes.add(x)
@@ -117,7 +120,7 @@ class ProgramCoarsening:
 
         # coarse-grained hypergraph
         g = Hypergraph()
-        for x in p.inputs.just_heads():
+        for x in input_heads:
             for [i] in self.f(x):
                 g.add_edge(i, None)
         for r in p:
@@ -126,7 +129,7 @@ class ProgramCoarsening:
                     g.add_edge(xx, None, *yy)
 
         # the useful coarse-grained items
-        inputs = {i for x in p.inputs.just_heads() for [i] in self.f(x)}
+        inputs = {i for x in input_heads for [i] in self.f(x)}
         outputs = {i for x in p.outputs.just_heads() for [i] in self.f(x)}
         self._useful = g.reachability(inputs, outputs)
 
-- 
2.43.0


From 0f7cb566a230bb0cdd8fe965cd5e5d88fb76237c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:53 +0000
Subject: [PATCH 10/43] fix: joins of bodies with semiring constants do not
 multiply the constant into the product

---
 dyna/term.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dyna/term.py b/dyna/term.py
index 4c66ffd..ee7e17d 100644
--- a/dyna/term.py
+++ b/dyna/term.py
@@ -53,7 +53,7 @@ def join_f(f, *xs):
     else:
         for d1 in f(xs[0]):
             for d2 in join_f(f, *xs[1:]):
-                yield d1 * d2
+                yield Product((*d1, *d2)) if isinstance(d1, tuple) else Product((d1, *d2))
 
 #def join(f, xs):
 #    assert isinstance(xs, tuple), xs
-- 
2.43.0


From b4e2dad2e1d1a972ca02fcd8b2538431513e3d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:39 +0000
Subject: [PATCH 11/43] fix: types with distinct free variables do not match
 heads that equate them

---
 dyna/analyze/abbreviate.py |  5 +++++
 dyna/analyze/rewrites.py   | 14 +++++++++++++-
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/dyna/analyze/abbreviate.py b/dyna/analyze/abbreviate.py
index 80a2c41..f2fdf3d 100644
--- a/dyna/analyze/abbreviate.py
+++ b/dyna/analyze/abbreviate.py
@@ -81,6 +81,11 @@ class Abbreviate(TransformedProgram):
 
                 for tt in self.types.chart.lookup(r.head):
 
+                    # the free variables of a type are distinct; this head is not one of its items
+                    # if unification with it merged them.
+                    tt_free = [snap(x.args[0]) for x in tt.body if x.fn == '$free']
+                    if len(set(tt_free)) != len(tt_free): continue
+
                     t_head = self.types.rewrites(Rule(r.head, *tt.body, *body_closure.body), ALLOW_FREE_MERGE=False)
                     #t_head = self.types.rewrites(Rule(r.head, *tt.body, *body_closure.body), ALLOW_FREE_MERGE=True)
 
diff --git a/dyna/analyze/rewrites.py b/dyna/analyze/rewrites.py
index c728230..b7405bc 100644
--- a/dyna/analyze/rewrites.py
+++ b/dyna/analyze/rewrites.py
@@ -114,7 +114,7 @@ class Rewrites:
                 if free_vars & got_bound: return
 
                 # We have a problem if there is more than 1 variable equal to `X`.
-                if any(sum((X == A or X == B) for [_,A,B] in cp.bindings) > 1 for X in free_vars):
+                if any(len(c) > 2 and c & free_vars for c in self._merged_vars(cp.bindings)):
                     return
 
                 if not all((y.fn == '$free' or X not in term_vars(y)) for y in chart for X in free_vars):
@@ -122,6 +122,18 @@ class Rewrites:
 
         return Rule(subst(R.head), *(chart - drop))
 
+    @staticmethod
+    def _merged_vars(bindings):
+        "Sets of variables that the equality constraints in `bindings` make equal."
+        classes = []
+        for [_,A,B] in bindings:
+            if not (is_var(A) and is_var(B)): continue
+            new = {A, B}
+            for c in classes:
+                if c & new: new |= c
+            classes = [c for c in classes if not c & new] + [new]
+        return classes
+
     def intersect(self, r, s, ALLOW_FREE_MERGE=False):
         "Compute the intersection of simple types `r` and `s`."
         s = fresh(s)
-- 
2.43.0


From 3dded161fc3ac8be86963b219bf85ee1fda2dcb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:19 +0000
Subject: [PATCH 12/43] fix: covers renames its arguments apart when they share
 variables

---
 dyna/term.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dyna/term.py b/dyna/term.py
index ee7e17d..c77c3b3 100644
--- a/dyna/term.py
+++ b/dyna/term.py
@@ -558,6 +558,7 @@ def covers(x, y):
     Check if the set of terms denoted by `x` is a superset of the set of terms
     denoted by `y`.
     """
+    if not term_vars(x).isdisjoint(term_vars(y)): x = fresh(x)
     return Subst().cover(x, y) is not FAIL
 
 #______________________________________________________________________________
-- 
2.43.0


From cf6ab4c2d0c94220819b0a7b69d4f0ed0c41d29a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:31 +0000
Subject: [PATCH 13/43] fix: constraint propagation rewrites pending equalities
 and covers ignores variable names

---
 dyna/analyze/rewrites.py | 13 ++++++++++---
 dyna/propagate.py        | 21 ++++++++++++---------
 2 files changed, 22 insertions(+), 12 deletions(-)

diff --git a/dyna/analyze/rewrites.py b/dyna/analyze/rewrites.py
index b7405bc..597983e 100644
--- a/dyna/analyze/rewrites.py
+++ b/dyna/analyze/rewrites.py
@@ -7,7 +7,7 @@ from itertools import combinations
 from dyna.pretty import PrettyPrinter
 from dyna.term import Term, fresh, term_vars, Subst, is_var, generalizer, deref, MostGeneralSet
 from dyna.program import Program, Rule
-from dyna.propagate import ConstraintPropagation, scons
+from dyna.propagate import Chart, ConstraintPropagation, scons
 
 # We can encode fundeps with this scheme.  For example,
 # W=W' :- word(W,I,J), word(W',I,J').
@@ -70,7 +70,9 @@ class Rewrites:
         chart = cp(R.body)
         if chart is None: return
 
-        subst = Subst({x: y for _,x,y in cp.bindings})
+        subst = Subst()
+        for _,x,y in cp.bindings:
+            if subst.mgu(x, y) is Subst.FAIL: return
         chart = {subst(x) for x in chart if isinstance(x, Term) and x.fn != '='}
 
         assert all(isinstance(x, Term) for x in chart)
@@ -185,7 +187,12 @@ class Rewrites:
         if R is None: return False
         if T is None: return False
 
-        return S.head == T.head and set(S.body) >= set(T.body)
+        # Every constraint of T should be one of S (up to the choice of variable
+        # names, which depends on the order the equalities were processed).
+        T = fresh(T)
+        subst = Subst().cover(T.head, S.head)
+        if subst is Subst.FAIL: return False
+        return any(True for _ in Chart(S.body).join(T.body, subst))
 
     def same(self, r, s):
         return self.covers(r, s) and self.covers(s, r)  # pylint: disable=W1114
diff --git a/dyna/propagate.py b/dyna/propagate.py
index 106822a..1cda9b6 100644
--- a/dyna/propagate.py
+++ b/dyna/propagate.py
@@ -209,22 +209,25 @@ class ConstraintPropagation:
             if isinstance(driver, Term) and driver.fn == '=':
                 X,Y = driver.args
 
+                unifier = Subst().mgu(X, Y)
+
                 # check for a contradiction
-                if not isinstance(X, Var) and not isinstance(Y, Var) and X != Y: return
+                if unifier is Subst.FAIL: return
 
                 # Release the equality constraint now that it has be
                 # successfully applied.
                 self.checked.add(driver)
 
                 # eagerly replace all the instances of the variable with its
-                # value (in both the chart and agenda)
-                if X != Y:
-                    for x in list(self.chart):
-                        if isinstance(x, Term) and x.fn != '=':
-                            self.update(replace_in_expr(x, X, Y))
-                            self.update(replace_in_expr(x, Y, X))
-
-                self.bindings.append(driver)  # keep a record of the substitution
+                # value (in both the chart and agenda, including the equality
+                # constraints that are still pending)
+                for x in unifier:
+                    y = unifier(x)
+                    for z in list(self.chart):
+                        if z == driver or not isinstance(z, Term): continue
+                        self.update(replace_in_expr(z, x, y))
+                        if z.fn != '=': self.update(replace_in_expr(z, y, x))
+                    self.bindings.append(Term('=', x, y))  # keep a record of the substitution
 
                 # If there was a change (i.e., a variable is more instantiated),
                 # we might want to try re-evaluating pending constraint that
-- 
2.43.0


From 5cf95ce6fce53a1d95f995fd8203b28dff8dbded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:06 +0000
Subject: [PATCH 14/43] fix: the variables of a bound term are bound

---
 dyna/analyze/rewrites.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dyna/analyze/rewrites.py b/dyna/analyze/rewrites.py
index 597983e..5878c5b 100644
--- a/dyna/analyze/rewrites.py
+++ b/dyna/analyze/rewrites.py
@@ -52,6 +52,7 @@ class Rewrites:
             # helper.  I think we can use ordinary recursion
             # (_propagation_hook_bound -> _propagation_hook_bound).
 
+            if is_var(x): cp.update(Term('$bound', x))
             if not isinstance(x, Term): return
             if x.fn != '$bound': cp.update(Term('$bound', x))
             for y in x.args: rec_bound(y)
-- 
2.43.0


From c54bd984b09aeb0c1ee360cb476ac2c312941057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:09 +0000
Subject: [PATCH 15/43] fix: derived equalities are applied in one direction
 only

---
 dyna/propagate.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dyna/propagate.py b/dyna/propagate.py
index 1cda9b6..5a198c2 100644
--- a/dyna/propagate.py
+++ b/dyna/propagate.py
@@ -167,6 +167,7 @@ class ConstraintPropagation:
 
     def __call__(self, D):
         assert isinstance(D, (list, tuple, set, Chart)), D
+        D = set(D)
         # reset chart and agenda
         self.chart = chart = Chart()
         self.agenda = agenda = set()
@@ -226,7 +227,7 @@ class ConstraintPropagation:
                     for z in list(self.chart):
                         if z == driver or not isinstance(z, Term): continue
                         self.update(replace_in_expr(z, x, y))
-                        if z.fn != '=': self.update(replace_in_expr(z, y, x))
+                        if z.fn != '=' and driver in D: self.update(replace_in_expr(z, y, x))
                     self.bindings.append(Term('=', x, y))  # keep a record of the substitution
 
                 # If there was a change (i.e., a variable is more instantiated),
-- 
2.43.0


From 7482d9c414dd4ff4173cdeedb13e0af262fd9958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:34 +0000
Subject: [PATCH 16/43] fix: coarse graph recognises inputs with variables and
 skips builtins

---
 dyna/analyze/coarse_graph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dyna/analyze/coarse_graph.py b/dyna/analyze/coarse_graph.py
index 457ba76..2724222 100644
--- a/dyna/analyze/coarse_graph.py
+++ b/dyna/analyze/coarse_graph.py
@@ -55,7 +55,7 @@ class CoarseGraph:
         g = self.g
         T = g.transitive_closure(reflexive=True)
 
-        inputs = set(p.inputs.just_heads() if p.inputs is not None else [])
+        inputs = {self.nodes.root(x) for x in p.inputs.just_heads()}
 
         I = []; D = []
         for r in p:
@@ -116,7 +116,7 @@ class CoarseGraph:
             x = self.nodes.root(r.head)
             count = 0
             for y in r.body:   # can we reach x in more than one way?
-                if p.is_const(y): continue
+                if p.is_const(y) or p.is_builtin(y): continue
                 y = self.nodes.root(y)
                 count += (x in T.outgoing[y])
                 if count > 1: return True
-- 
2.43.0


From 18231bef8fd335f78b00ce95bf43419c402aec39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:53 +0000
Subject: [PATCH 17/43] fix: a negative number is not an absolute value

---
 dyna/builtin.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dyna/builtin.py b/dyna/builtin.py
index 78d4b88..4aa4d02 100644
--- a/dyna/builtin.py
+++ b/dyna/builtin.py
@@ -215,6 +215,7 @@ class Builtins:
                         yield from unify(X, abs(Y))
                         return
                     if isnum(X):
+                        if X < 0: return     # no number has a negative absolute value
                         for y in {+X, -X}:
                             yield from unify(Y, y)
                         return
-- 
2.43.0


From b40afedd39b1166acdcf24e924d1549ac9b21392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:12 +0000
Subject: [PATCH 18/43] fix: builtins for products and quotients handle zero

---
 dyna/builtin.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/dyna/builtin.py b/dyna/builtin.py
index 4aa4d02..3857369 100644
--- a/dyna/builtin.py
+++ b/dyna/builtin.py
@@ -305,13 +305,18 @@ class Builtins:
                         if isnum(Y) and isnum(Z):
                             yield from unify(X, Y * Z)
                             return
-                        if isnum(X) and isnum(Y):
+                        if isnum(X) and isnum(Y) and Y != 0:
                             yield from unify(Z, X / Y)
                             return
-                        if isnum(X) and isnum(Z):
+                        if isnum(X) and isnum(Z) and Z != 0:
                             yield from unify(Y, X / Z)
                             return
 
+                        # zero times anything is zero (so a zero product leaves
+                        # the other factor undetermined)
+                        if isnum(X) and X != 0 and ((isnum(Y) and Y == 0) or (isnum(Z) and Z == 0)):
+                            return
+
                         # identity elements
                         if isnum(Y) and Y == 1:
                             yield from unify(X, Z)
@@ -353,7 +358,11 @@ class Builtins:
 
                 elif k.fn == '/':
                     # Just rewrites `X is Y / Z` ==> Y is X * Z =
-                    yield from self(Term('is', Y, Term('*', X, Z)))
+                    # except that Z must not be zero.
+                    for _ in self(Term('is', Y, Term('*', X, Z))):
+                        z = snap(Z)
+                        if isnum(z) and z == 0: continue
+                        yield
                     return
 
                 elif k.fn == '-':
-- 
2.43.0


From 99d5c058994acd670c77b53e3e3a0eca2f57f582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:12 +0000
Subject: [PATCH 19/43] fix: repetition of a string an unknown number of times
 is delayed

---
 dyna/builtin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dyna/builtin.py b/dyna/builtin.py
index 3857369..193cf23 100644
--- a/dyna/builtin.py
+++ b/dyna/builtin.py
@@ -298,7 +298,7 @@ class Builtins:
                             return
                         # TODO: we can solve for K in some cases, e.g., `"aaaaa" is "a" * K`.
                         # Can't multiply string by anything other than an int.
-                        raise TypeError(q)
+                        if not isvar(Z): raise TypeError(q)
 
                     else:
                         # numeric cases
-- 
2.43.0


From 1442778c036cb1191f4ee33bbe3755327552e280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:12 +0000
Subject: [PATCH 20/43] fix: comparisons in expressions wait until their
 arguments are ground

---
 dyna/builtin.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/dyna/builtin.py b/dyna/builtin.py
index 193cf23..f0739fd 100644
--- a/dyna/builtin.py
+++ b/dyna/builtin.py
@@ -371,42 +371,42 @@ class Builtins:
                     return
 
                 elif k.fn == '>':
-                    if not isvar(Y) and not isvar(Z):
+                    if is_ground(Y) and is_ground(Z):
                         yield from unify(X, Y > Z)
                         return
 
                 elif k.fn == '<':
-                    if not isvar(Y) and not isvar(Z):
+                    if is_ground(Y) and is_ground(Z):
                         yield from unify(X, Y < Z)
                         return
 
                 elif k.fn == '>=':
-                    if not isvar(Y) and not isvar(Z):
+                    if is_ground(Y) and is_ground(Z):
                         yield from unify(X, Y >= Z)
                         return
 
                 elif k.fn == '<=':
-                    if not isvar(Y) and not isvar(Z):
+                    if is_ground(Y) and is_ground(Z):
                         yield from unify(X, Y <= Z)
                         return
 
                 elif k.fn == '==':
-                    if not isvar(Y) and not isvar(Z):
+                    if is_ground(Y) and is_ground(Z):
                         yield from unify(X, Y == Z)
                         return
 
                 elif k.fn == '!=':
-                    if not isvar(Y) and not isvar(Z):
+                    if is_ground(Y) and is_ground(Z):
                         yield from unify(X, Y != Z)
                         return
 
                 elif k.fn == 'min':
-                    if not isvar(Y) and not isvar(Z):
+                    if is_ground(Y) and is_ground(Z):
                         yield from unify(X, min(Y, Z))
                         return
 
                 elif k.fn == 'max':
-                    if not isvar(Y) and not isvar(Z):
+                    if is_ground(Y) and is_ground(Z):
                         yield from unify(X, max(Y, Z))
                         return
 
-- 
2.43.0


From f3b74a9e3aa89d945d8c744ff14fe9dca9a770b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:05 +0000
Subject: [PATCH 21/43] fix: a quotient of one does not equate two unknowns

---
 dyna/builtin.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/dyna/builtin.py b/dyna/builtin.py
index f0739fd..623ac9e 100644
--- a/dyna/builtin.py
+++ b/dyna/builtin.py
@@ -358,12 +358,14 @@ class Builtins:
 
                 elif k.fn == '/':
                     # Just rewrites `X is Y / Z` ==> Y is X * Z =
-                    # except that Z must not be zero.
-                    for _ in self(Term('is', Y, Term('*', X, Z))):
-                        z = snap(Z)
-                        if isnum(z) and z == 0: continue
-                        yield
-                    return
+                    # except that Z must not be zero (so a quotient of 1 does
+                    # not make two unknowns equal: both might be zero).
+                    if not (isvar(Y) and isvar(Z)):
+                        for _ in self(Term('is', Y, Term('*', X, Z))):
+                            z = snap(Z)
+                            if isnum(z) and z == 0: continue
+                            yield
+                        return
 
                 elif k.fn == '-':
                     # Just rewrites `X is Y - Z` ==> Y is X + Z
-- 
2.43.0


From 6c8b3425c3e23a438908241edff639ad1278c689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:13 +0000
Subject: [PATCH 22/43] fix: accumulate into a fact that has an empty body

---
 dyna/program.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dyna/program.py b/dyna/program.py
index 84a73c5..0460d93 100644
--- a/dyna/program.py
+++ b/dyna/program.py
@@ -409,7 +409,7 @@ input/output declarations</summary>\
             return i
         else:
             s = self.rules[i]
-            [S] = s.body
+            S = self.get_const_rhs(s)     # (the body may be empty)
             self.rules[i] = Rule(s.head, S + C)
             self._invalidate_caches()   # rules[i] changed in place; keep the if-branch invariant
             return i
-- 
2.43.0


From a37778268fbbde81ae84c97df1f9d01d75086701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:13 +0000
Subject: [PATCH 23/43] fix: changing the input or output declarations drops
 cached results

---
 dyna/program.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dyna/program.py b/dyna/program.py
index 0460d93..0b692d4 100644
--- a/dyna/program.py
+++ b/dyna/program.py
@@ -101,11 +101,11 @@ class Program:
         self.rules = list(rules)
         assert all(isinstance(r, Rule) for r in rules), rules
 
+        self._caches = {}
+
         self.set_input_types(inputs)
         self.set_output_types(outputs)
 
-        self._caches = {}
-
         self.semiring = semiring
         self.has_builtins = has_builtins
 
@@ -119,12 +119,14 @@ class Program:
         if isinstance(inputs, str): inputs = Program(inputs)
         assert inputs is None or isinstance(inputs, Program), inputs
         self.inputs = inputs
+        self._caches.clear()      # pruning depends on the declarations
         return self
 
     def set_output_types(self, outputs):
         if isinstance(outputs, str): outputs = Program(outputs)
         assert outputs is None or isinstance(outputs, Program), outputs
         self.outputs = outputs
+        self._caches.clear()      # pruning depends on the declarations
         return self
 
     def spawn(self, rules=''):
-- 
2.43.0


From 7d7c960850a761337526adebe9d42da2107cd933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:09 +0000
Subject: [PATCH 24/43] fix: equality of rules with a bare variable ignores its
 name

---
 dyna/rule.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dyna/rule.py b/dyna/rule.py
index 25d4cfc..e75bcea 100644
--- a/dyna/rule.py
+++ b/dyna/rule.py
@@ -12,7 +12,8 @@ def fn(x): return x.fn if isinstance(x, Term) else x
 #    return Term(x.fn, x.arity) if isinstance(x, Term) else Term("$const", x)
 def term_signature(x):
     # Need to wrap constants in term to use the right comparison operation...
-    return canonicalize(x) if isinstance(x, Term) else Term("$const", x)
+    x = snap(x)
+    return canonicalize(x) if isinstance(x, (Term, Var)) else Term("$const", x)
 
 
 def is_const(x):
-- 
2.43.0


From e631b987cebed8fdaed2fde76ce7860d0e789680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:52 +0000
Subject: [PATCH 25/43] fix: type analysis drops constraints taller than the
 depth limit

---
 dyna/analyze/types.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dyna/analyze/types.py b/dyna/analyze/types.py
index c88fa23..6ee0879 100644
--- a/dyna/analyze/types.py
+++ b/dyna/analyze/types.py
@@ -209,9 +209,10 @@ class TypeAnalyzer:
         if self.DEBUG > 0 and not same(r.head, h):
             print(colors.red % f'[truncate]     {r.head}')
             print(colors.red % f'[truncate]  -> {h}')
-        # Drop any constraint that mentions local variables.
+        # Drop any constraint that mentions local variables, or is tall.
         head_vars = term_vars(h)
-        s = Rule(h, *{x for x in r.body if term_vars(x) <= head_vars and term_vars(x)})
+        s = Rule(h, *{x for x in r.body if term_vars(x) <= head_vars and term_vars(x)
+                      and x == truncate_term(x, self.max_depth)})
         if self.DEBUG > 1:
             print(colors.yellow % '      init: ', _pp(_r, color=False))
             print(colors.yellow % '      prop: ', _pp(r, color=False))
-- 
2.43.0


From ad9d78d5858633628754c488fba621fae46cbfa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:38 +0000
Subject: [PATCH 26/43] fix: constant folding merges rules that are equal up to
 renaming and reordering

---
 dyna/program.py | 40 ++++++++++++++++------------------------
 1 file changed, 16 insertions(+), 24 deletions(-)

diff --git a/dyna/program.py b/dyna/program.py
index 0b692d4..c227bd8 100644
--- a/dyna/program.py
+++ b/dyna/program.py
@@ -74,19 +74,6 @@ def to_collection(f):
     return wrapper
 
 
-def _subgoal_sort_key(x):
-    """Total order on body subgoals, used by `ConstantFolded` to put
-    bodies into a canonical order before bucketing (so that rules
-    differing only in multiplicative reordering — `*` is commutative —
-    merge). Falls back to a string repr when subgoals don't expose a
-    structural signature.
-    """
-    try:
-        return ('term', repr(canonicalize(x)) if isinstance(x, Term) else repr(x))
-    except TypeError:
-        return ('opaque', repr(x))
-
-
 class Program:
 
     parent = None   # root programs have no parent; TransformedProgram sets it per-instance
@@ -2318,20 +2305,25 @@ class ConstantFolded(TransformedProgram):
         # fall back to "skeleton key is the rule itself", which keeps
         # them un-merged but doesn't crash.
         merged = {}
+        skeletons = defaultdict(list)
         for r in intermediate:
             C, xs = self._split_const_and_symbolic(parent, r)
-            # Bucket key uses xs in canonical order (so commutative `*`
-            # reorderings merge), but the emitted rule keeps the
-            # first-seen rule's xs order — downstream code (e.g.
-            # `Program.unfold(rule_i, subgoal_j)`) refers to subgoals
-            # by position and would be sensitive to a reorder here.
-            xs_sorted = sorted(xs, key=_subgoal_sort_key)
-            key = canonicalize(Term('$skel', r.head, *xs_sorted))
-            if key in merged:
-                head_, xs_, total = merged[key]
-                merged[key] = (head_, xs_, total + C)
+            # Rules merge when their skeletons are equal modulo variable renaming
+            # and subgoal reordering (commutative `*`); the signature is only a
+            # bucket key, as it is blind to variables shared between subgoals.
+            # The emitted rule keeps the first-seen rule's xs order —
+            # downstream code (e.g. `Program.unfold(rule_i, subgoal_j)`) refers
+            # to subgoals by position and would be sensitive to a reorder here.
+            skeleton = Rule(r.head, *xs)
+            bucket = skeletons[skeleton.signature]
+            for key in bucket:
+                if key.same(skeleton):
+                    head_, xs_, total = merged[key]
+                    merged[key] = (head_, xs_, total + C)
+                    break
             else:
-                merged[key] = (r.head, xs, C)
+                bucket.append(skeleton)
+                merged[skeleton] = (r.head, xs, C)
         # Emit one rule per merged bucket. Drop the explicit C when
         # it's the multiplicative identity (the same convention as
         # `constant_folding_rhs`).
-- 
2.43.0


From c90b52dec923b3f86b53d3f6485fe98c84a38990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:38 +0000
Subject: [PATCH 27/43] fix: solvers initialize every occurrence of a repeated
 rule object

---
 dyna/execute/base.py    | 19 ++++++++++++++-----
 dyna/execute/solver.py  |  2 +-
 dyna/execute/solver2.py |  2 +-
 3 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/dyna/execute/base.py b/dyna/execute/base.py
index e64b78f..6d93073 100644
--- a/dyna/execute/base.py
+++ b/dyna/execute/base.py
@@ -1,3 +1,5 @@
+from collections import Counter
+
 from dyna import Program, Rule, term, fresh, Product
 from dyna.builtin import Builtins
 from arsenal.robust import timelimit, Timeout
@@ -116,13 +118,20 @@ class BaseSolver:
         for value in self.join(r.body, self.one):
             yield value * self.program.multiple(r)
 
-    def init_rule(self, r):
-        "Ground out the rule `r` against the current memo table."
+    def init_rules(self):
+        "Ground out the rules of the program that have not been initialized yet."
+        seen = Counter()
+        for r in self.program:
+            seen[id(r)] += 1
+            self.init_rule(r, seen[id(r)])
+
+    def init_rule(self, r, n=1):
+        "Ground out (the `n`th occurrence of) the rule `r` against the current memo table."
         assert isinstance(r, Rule), r
         # use id(r) to avoid possibility that two rule test equal, e.g., if we
-        # have two `x += 1` rules.
-        if id(r) in self.initialized: return
-        self.initialized.add(id(r))
+        # have two `x += 1` rules; the same object may also occur several times.
+        if (id(r), n) in self.initialized: return
+        self.initialized.add((id(r), n))
         # Notes: If a rule is late to the game, then the chart may be populated.
         # Thus, the rule r may have contribution even if it's RHS is not a
         # constant.  This is different from the fresh slate situation.  Thus,
diff --git a/dyna/execute/solver.py b/dyna/execute/solver.py
index 151431b..24af298 100644
--- a/dyna/execute/solver.py
+++ b/dyna/execute/solver.py
@@ -79,7 +79,7 @@ class Solver(BaseSolver):
         self.agenda[item] = p
 
     def _forward_chaining(self):
-        for r in self.program: self.init_rule(r)
+        self.init_rules()
         while self.agenda:
             [a, _] = self.agenda.popitem()
             Δ = self.change.pop(a)
diff --git a/dyna/execute/solver2.py b/dyna/execute/solver2.py
index fd543bb..6ddf2dd 100644
--- a/dyna/execute/solver2.py
+++ b/dyna/execute/solver2.py
@@ -100,7 +100,7 @@ class Solver(BaseSolver):
         self.chart[item] = v
 
     def _forward_chaining(self):
-        for r in self.program: self.init_rule(r)
+        self.init_rules()
         while self.agenda:
             [a, _] = self.agenda.popitem()
             Δ = self.change.pop(a)
-- 
2.43.0


From 5e680e0aa365825a2f5a035fa64939ad1a471981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:42 +0000
Subject: [PATCH 28/43] fix: the distance between equal infinite values is zero

---
 dyna/program.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dyna/program.py b/dyna/program.py
index c227bd8..e5cc095 100644
--- a/dyna/program.py
+++ b/dyna/program.py
@@ -592,8 +592,9 @@ input/output declarations</summary>\
         if set(A_chart) != set(B_chart):
             chart_d = float('inf')
         else:
-            chart_d = max((sr.metric(A_chart[k], B_chart[k]) for k in A_chart),
-                          default=0)
+            # (equal values are at distance 0 even if they are infinite: inf - inf is nan)
+            chart_d = max((0 if A_chart[k] == B_chart[k] else sr.metric(A_chart[k], B_chart[k])
+                           for k in A_chart), default=0)
         # Structural part: symbolic rules must match exactly. Use the
         # same bucketing / alignment as `Program.__eq__`.
         sym_d = 0 if Program._symbolic_equal(A_sym, B_sym) else float('inf')
-- 
2.43.0


From e86de876434c7b0ebaced8e5e6f18683e61c1c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:42 +0000
Subject: [PATCH 29/43] fix: operators of the same priority associate together

The priorities of `a / b \ c / d` are the same, but each operator had a level of
its own, so that it was read as `(a / b) \ (c / d)` -- and printing
`((a / b) \ c) / d` gave that very text.
---
 dyna/syntax.py | 52 +++++++++++++++++++++++++++++++-------------------
 1 file changed, 32 insertions(+), 20 deletions(-)

diff --git a/dyna/syntax.py b/dyna/syntax.py
index 5d18613..25c03ad 100644
--- a/dyna/syntax.py
+++ b/dyna/syntax.py
@@ -337,28 +337,40 @@ def add_ops(ops):
                '>': 'GT',
                '<': 'LT'}
 
-    G = []
-    expr1 = expr2 = expr3 = None
-    for i, z in enumerate(sorted(ops, key=lambda x: -x.priority), start=1):
-
-        # Figure out where these special positions are:
-        #  - expr1: most general context
-        #  - expr2: doesn't take the top-level comma as an operator (used in term and list)
-        #  - expr3: list syntax: doesn't take the top-level comma and `|` has special meaning.
-        if z.op == '|': expr3 = i-1
-        if z.op == ',': expr2 = i-1
-        expr1 = i
-
-        if z.op is not None:
-            if z.op in Sym2Lex:      # avoid lexer conflicts on '='
-                OP = Sym2Lex[z.op]
-            else:
-                G.append(f'OP{i}: "{z.op}"')
-                Sym2Lex[z.op] = OP = f'OP{i}'
+    # Operators with the same priority and direction of associativity go on the
+    # same level, e.g., `a / b \ c / d` means `((a / b) \ c) / d`.
+    levels = []
+    for z in sorted(ops, key=lambda x: -x.priority):
+        for level in levels:
+            if (isinstance(z, BinOp) and isinstance(level[0], BinOp) and z.assoc != N
+                and (level[0].priority, level[0].assoc, level[0].callback) == (z.priority, z.assoc, z.callback)):
+                level.append(z)
+                break
         else:
-            OP = None
+            levels.append([z])
 
-        G.append(z.render(OP, i))
+    G = []
+    expr1 = expr2 = expr3 = None
+    for i, level in enumerate(levels, start=1):
+
+        OPS = []
+        for z in level:
+
+            # Figure out where these special positions are:
+            #  - expr1: most general context
+            #  - expr2: doesn't take the top-level comma as an operator (used in term and list)
+            #  - expr3: list syntax: doesn't take the top-level comma and `|` has special meaning.
+            if z.op == '|': expr3 = i-1
+            if z.op == ',': expr2 = i-1
+            expr1 = i
+
+            if z.op is not None:
+                if z.op not in Sym2Lex:      # avoid lexer conflicts on '='
+                    Sym2Lex[z.op] = f'OP{len(Sym2Lex)}'
+                    G.append(f'{Sym2Lex[z.op]}: "{z.op}"')
+                OPS.append(Sym2Lex[z.op])
+
+        G.append(level[0].render('(' + '|'.join(OPS) + ')', i))
 
     G.extend([
         f'?expr1: p{expr1}',
-- 
2.43.0


From 9350a29c74690b74d80140969a9a21ad1e2e1cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:42 +0000
Subject: [PATCH 30/43] fix: the postfix operator is the functor of its term

---
 dyna/syntax.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dyna/syntax.py b/dyna/syntax.py
index 25c03ad..c4d1776 100644
--- a/dyna/syntax.py
+++ b/dyna/syntax.py
@@ -72,6 +72,10 @@ class DynaTransformer(Transformer):
         [op, a] = x
         return Term(str(op), a)
 
+    def postfix_op(self, x):
+        [a, op] = x
+        return Term(str(op), a)
+
     def noop(self, x):
         [x] = x
         return x
@@ -300,7 +304,7 @@ class UnaryOp(Op):
     def __init__(self, op, priority, position='prefix', callback=None, evaluation=None):
         assert position in {prefix, postfix}
         self.position = position
-        if callback is None: callback = 'unary_op'
+        if callback is None: callback = 'unary_op' if position == 'prefix' else 'postfix_op'
         super().__init__(op=op, arity=1, priority=priority, evaluation=evaluation, callback=callback)
 
     def render(self, OP, i):
-- 
2.43.0


From b285576e8cdae3fb99e177745f52eab010dd665f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:42 +0000
Subject: [PATCH 31/43] fix: an anonymous variable differs from every named one

---
 dyna/syntax.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dyna/syntax.py b/dyna/syntax.py
index c4d1776..15e6e9b 100644
--- a/dyna/syntax.py
+++ b/dyna/syntax.py
@@ -115,7 +115,7 @@ class DynaTransformer(Transformer):
 
     def anon_var(self, _=None):
         self.i += 1
-        return self._make_variable(f'$Gen{self.i}')
+        return Var(f'$Gen{self.i}')   # distinct from all other variables
 
     def args(self, x):
         return list(x)
-- 
2.43.0


From e530d53105a043cc5f740aa2fbbd78d399722843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:59 +0000
Subject: [PATCH 32/43] fix: inf is read as the number, as the grammar says

---
 dyna/syntax.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dyna/syntax.py b/dyna/syntax.py
index 15e6e9b..3889713 100644
--- a/dyna/syntax.py
+++ b/dyna/syntax.py
@@ -238,7 +238,7 @@ literal: ESCAPED_STRING -> string
        | "true"         -> true
        | "false"        -> false
        | list           -> noop
-       | /inf/          -> inf
+       | "inf"          -> inf
        | /∞/            -> inf
 
 variable: VAR  -> variable
-- 
2.43.0


From 5ac7d23e15fc4d2ea4e7a96f7596eee69e9c1d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:00 +0000
Subject: [PATCH 33/43] fix: declared types may have bodies, and share no
 variables

---
 dyna/program.py |  4 ++--
 dyna/syntax.py  | 15 ++++++++++-----
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/dyna/program.py b/dyna/program.py
index e5cc095..8633016 100644
--- a/dyna/program.py
+++ b/dyna/program.py
@@ -53,10 +53,10 @@ def _parse(rules, inputs=None, outputs=None):
             [x] = r.head.args
             if x.fn in {'input', 'inputs', 'params', 'param'}:
                 [y] = x.args
-                inputs_.extend(Rule(z) for z in flatten_op(y, ';') if z is not None)
+                inputs_.extend(syntax.make_rule(z) for z in flatten_op(y, ';') if z is not None)
             elif x.fn in {'output', 'outputs'}:
                 [y] = x.args
-                outputs_.extend(Rule(z) for z in flatten_op(y, ';') if z is not None)
+                outputs_.extend(syntax.make_rule(z) for z in flatten_op(y, ';') if z is not None)
             else:   # pragma: no cover
                 raise ValueError(f'unrecognized declaration: {x.fn}')
         else:
diff --git a/dyna/syntax.py b/dyna/syntax.py
index 3889713..9cfaf0b 100644
--- a/dyna/syntax.py
+++ b/dyna/syntax.py
@@ -9,6 +9,15 @@ from dyna.term import Term, Var, fresh, flatten, flatten_op
 from dyna.rule import Rule
 
 
+def make_rule(a):
+    "Turn a term for a rule (e.g., `head += body`) into a `Rule`."
+    if isinstance(a, Term) and a.arity == 2 and (a.fn in AGGRS):
+        [_, head, value] = a
+        return fresh(Rule(head, *(bb for b in flatten(value) for bb in flatten_op(b, '*'))))
+    else:
+        return fresh(Rule(a))
+
+
 # TODO: we need an option to specify the semiring in the source code.
 class DynaTransformer(Transformer):
 
@@ -85,11 +94,7 @@ class DynaTransformer(Transformer):
 
     def rule(self, x):
         [a, _] = x
-        if isinstance(a, Term) and (a.fn in AGGRS):
-            [_, head, value] = a
-            return fresh(Rule(head, *(bb for b in flatten(value) for bb in flatten_op(b, '*'))))
-        else:
-            return fresh(Rule(a))
+        return make_rule(a)
 
     def rules(self, rs):
         return rs
-- 
2.43.0


From dece0c3a893bf3b401032881d8f1fbcfdf1cd0e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:00 +0000
Subject: [PATCH 34/43] fix: names shown for variables are unique

---
 dyna/pretty.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/dyna/pretty.py b/dyna/pretty.py
index 77c59b7..42dce6a 100644
--- a/dyna/pretty.py
+++ b/dyna/pretty.py
@@ -153,12 +153,14 @@ class PrettyPrinter:
             # but is it actually the *same* variable?
             if id(x) not in self.vs[x.name]:   # has a rename
                 dups = len(self.vs[x.name])
-                if dups == 0:
-                    # first instance keeps the nice name
-                    self.vs[x.name][id(x)] = x.name
-                else:
-                    # later instance get an ugly auto-generated name
-                    self.vs[x.name][id(x)] = f'${x.name}{dups}'
+                # first instance keeps the nice name
+                name = x.name
+                # later instance get an ugly auto-generated name
+                taken = {y for ys in self.vs.values() for y in ys.values()}
+                while name in taken:
+                    name = f'${x.name}{dups}'
+                    dups += 1
+                self.vs[x.name][id(x)] = name
 
             return self.var_color.get(id(x), '%s') % self.vs[x.name][id(x)]
 
-- 
2.43.0


From a861c4da12f52cbcd8dd62a0308aa8c7525ae1b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:00 +0000
Subject: [PATCH 35/43] fix: strings and booleans print the way they are read

---
 dyna/pretty.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dyna/pretty.py b/dyna/pretty.py
index 42dce6a..001db06 100644
--- a/dyna/pretty.py
+++ b/dyna/pretty.py
@@ -168,9 +168,9 @@ class PrettyPrinter:
             return str(x).lower()   # booleans and null are lower case
 
         elif isinstance(x, str):
-            x = repr(x)    # should be a double-quoted string, unlike Python
-            x = f'"{x[1:-1]}"'   # TODO: need to redo escapes
-            return x
+            # inverse of the parser: the only escape sequence is for the quote
+            x = x.replace('"', '\\"')
+            return f'"{x}"'
 
         elif isinstance(x, Rule):
 
@@ -208,6 +208,7 @@ class PrettyPrinter:
 #                        elif hasattr(z, '_repr_svg_'):
 #                            return z._repr_svg_()
 #                        else:
+                        if isinstance(z, (str, bool)): z = self(z)
                         return Escape(self.color.render(self.color.builtin % (z,)))
 
                     return z
-- 
2.43.0


From 921ec5091f0396056b769b554e443c2959c87719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:00 +0000
Subject: [PATCH 36/43] fix: printed operators, arguments and names are read
 back as printed

Parentheses were missing around unary operators, operators with the priority of
a separator, bodies, and mixed associativities; chained comparisons could not be
printed at all; reserved and unreadable names were not quoted.
---
 dyna/pretty.py | 76 +++++++++++++++++++++++++++++++++++---------------
 1 file changed, 54 insertions(+), 22 deletions(-)

diff --git a/dyna/pretty.py b/dyna/pretty.py
index 001db06..ef233cd 100644
--- a/dyna/pretty.py
+++ b/dyna/pretty.py
@@ -7,7 +7,7 @@ Pretty printer for term (term, var, rule, constants, etc)
 import re
 from dyna.term import Var, Term, NIL, snap, term_vars, OrderedSet
 from dyna.rule import Rule
-from dyna.syntax import ops, ChainedCompare, BinOp, UnaryOp
+from dyna.syntax import ops, L, R, N, BinOp, UnaryOp, NullOp
 #from arsenal import colors
 
 
@@ -19,11 +19,20 @@ binops = {f.op: f for f in ops if isinstance(f, BinOp)}
 binops['<'] = \
 binops['>'] = \
 binops['>='] = \
-binops['<='] = ChainedCompare(5)
+binops['<='] = BinOp('<', 5, N)
 
-binops['\\'] = binops['\\\\']   # annoying patch
+binops['\\'] = binops.pop('\\\\')   # annoying patch
+
+# These are not read back as infix operators: `for` is sugar for `,` and the
+# parser takes an infix `!` for the postfix one.
+del binops['for'], binops['!']
 
 unaryops = {str(f.op) for f in ops if isinstance(f, UnaryOp)}
+nullops = {str(f.op) for f in ops if isinstance(f, NullOp)}
+
+
+# names that mean something else unless they are quoted
+keywords = {'true', 'false', 'inf', 'not', 'is', 'for'}
 
 
 AGG = {'+=', '=', '->', 'max=', 'min=', 'set=', 'bag=', ':-', ':=', '*=', '&=',
@@ -45,6 +54,17 @@ def assoc(x):
     return None if x is None else x.assoc
 
 
+def is_infix(x):
+    "Does x print as an application of an infix operator?"
+    x = snap(x)
+    return isinstance(x, Term) and x.arity == 2 and snap(x.fn) in binops
+
+
+def is_nullop(x):
+    x = snap(x)
+    return isinstance(x, Term) and x.arity == 0 and snap(x.fn) in nullops
+
+
 class parens:
     def __init__(self, x):
         self.x = x
@@ -219,7 +239,7 @@ class PrettyPrinter:
 
                 aggr = self.color.aggregator % '+='
 
-                return f'{pre}{h} {aggr} {self(B)}'
+                return f'{pre}{h} {aggr} {self.pp_within(B, "+=")}'
             else:
                 return f'{pre}{h}'
 
@@ -244,7 +264,7 @@ class PrettyPrinter:
         fn = snap(x.fn)
         f = color % (self.pp_functor(fn) if isinstance(fn, str) else self(fn))
         if x.args:
-            return f'{f}({",".join(self(a) for a in x.args)})'
+            return f'{f}({self.pp_args(x.args)})'
         return f
 
     def pp_term(self, x):
@@ -252,7 +272,7 @@ class PrettyPrinter:
         fn = snap(x.fn)
 
         if not isinstance(fn, str):
-            return f'{self(fn)}({",".join(self(y) for y in x.args)})'
+            return f'{self(fn)}({self.pp_args(x.args)})'
 
 #        elif isinstance(x, Rule):
 #            if x.body:
@@ -276,7 +296,12 @@ class PrettyPrinter:
                 [y] = x.args
 
                 # XXX: remove parens when precedence is clear.
-                if isinstance(y, Term) and y.arity == 2 and y.fn in binops:
+                y = snap(y)
+                if (is_infix(y) or is_nullop(y)
+                    # the sign would become part of the number
+                    or isinstance(y, (int, float)) and not isinstance(y, bool)
+                    # another unary operator (they have different priorities)
+                    or isinstance(y, Term) and y.arity == 1 and y.fn in unaryops and y.fn != x.fn):
                     return f'{fn}({self(y)})'
                 return f'{fn}{self(y)}'
 
@@ -310,16 +335,9 @@ class PrettyPrinter:
             ',': ', ',
             ';': '; ',
             ':': ':',
-            '>': ' > ',
-            '>=': ' >= ',
-            '<=': ' <= ',
-            '<': ' < ',
-            '==>': ' ==> ',
-            ':-': ' :- ',
-            '->': ' -> ',
         }.get(fn)
 
-        if (fn in binops) or (infix is not None):
+        if fn in binops:
             # The default display is spaces around the infix operator
             infix = infix or f' {fn} '
             [_, a, b] = x
@@ -343,16 +361,22 @@ class PrettyPrinter:
 
             A = self(a); B = self(b)
 
+            if is_nullop(a): A = f'({A})'
+            if is_nullop(b): B = f'({B})'
+
+            # `a:-b` is another operator
+            if fn == ':' and B.startswith('-'): B = f'({B})'
+
             if priority(binop(a)) <= priority(binop(x)):
                 if (priority(binop(a)) == priority(binop(x))
-                    and assoc(binop(a)) == 'L'):
+                    and assoc(binop(a)) == assoc(binop(x)) == L):
                     pass
                 else:
                     A = f'({A})'
 
             if priority(binop(b)) <= priority(binop(x)):
                 if (priority(binop(b)) == priority(binop(x))
-                    and assoc(binop(b)) == 'R'):
+                    and assoc(binop(b)) == assoc(binop(x)) == R):
                     pass
                 else:
                     B = f'({B})'
@@ -362,7 +386,15 @@ class PrettyPrinter:
     def pp_term_default(self, x):
         [fn, *args] = snap(x)
         fn = snap(fn)
-        return f'{self.pp_functor(fn)}({",".join(self(a) for a in args)})'
+        return f'{self.pp_functor(fn)}({self.pp_args(args)})'
+
+    def pp_within(self, x, op):
+        "Print `x` in a position that only takes operators that bind tighter than `op`."
+        y = self(x)
+        return f'({y})' if is_infix(x) and priority(binop(x)) <= binops[op].priority else y
+
+    def pp_args(self, xs):
+        return ','.join(self.pp_within(x, ',') for x in xs)
 
     def pp_functor(self, x):
         y = str(x)
@@ -372,7 +404,7 @@ class PrettyPrinter:
         # TODO: The patterm below is going to be perpetually out of date with
         # the functor pattern in the grammar.  Figure out how to keep them in
         # sync to avoid the headache.
-        if not re.match("^([$_]*['\"a-zαβγδεζηθικλμνξο∂πρστυφχψωϯ☐¿$♦]['\"a-zA-Z0-9_αβγδεζηθικλ∂μνξοπρστυφχψω∘ϯ♦$☐˽ΑΒΓΔΕΖΗΘΙΚΛΜΝΞΟΠΡΣΤΥΦΧΨΩ₀₁₂₃₄₅₆₇₈₉]*)$", y):
+        if y in keywords or not re.fullmatch("[$]?[a-zαβγδεζηθικλμνξοπρστυφχψω∂][\"'a-zA-Z0-9_αβγδεζηθικλμ$νξοπρστυφχψωΑΒΓΔΕΖΗΘΙΚΛΜΝΞΟΠΡΣΤΥΦΧΨΩ∂₀₁₂₃₄₅₆₇₈₉]*", y):
             y = f"'{y}'"
         return y
 
@@ -382,9 +414,9 @@ class PrettyPrinter:
         while True:
             y = snap(y)
             if isinstance(y, Term) and y == NIL and y.arity == 0:
-                return f'[{",".join(self(x) for x in xs)}]'
-            elif isinstance(y, Term) and y.fargs[0] == '$cons':
+                return f'[{",".join(self.pp_within(x, "|") for x in xs)}]'
+            elif isinstance(y, Term) and y.arity == 2 and y.fargs[0] == '$cons':
                 [_,a,y] = y.fargs
                 xs.append(a)
             else:
-                return f'[{",".join(self(x) for x in xs)}|{self(y)}]'
+                return f'[{",".join(self.pp_within(x, "|") for x in xs)}|{self.pp_within(y, "|")}]'
-- 
2.43.0


From 2d7d4e4c7b7a0cf7c5a582ffce4b1f3c2fa1c326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:55 +0000
Subject: [PATCH 37/43] fix: top-down enumeration yields derivations that last,
 in any semiring

---
 dyna/derivations.py | 6 ++++--
 dyna/program.py     | 5 ++++-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/dyna/derivations.py b/dyna/derivations.py
index 76c91a3..99565db 100644
--- a/dyna/derivations.py
+++ b/dyna/derivations.py
@@ -59,7 +59,9 @@ class Derivation(Rule):
             if len(d) == 0:
                 return Product()
             else:
-                return Derivation.value(d[0]) * Derivation.value(d[1:])
+                x = Derivation.value(d[0])
+                if not isinstance(x, Product): x = Product((x,))
+                return x * Derivation.value(d[1:])
         elif is_const(d):
             return d
         else:
@@ -438,7 +440,7 @@ def sld(p, x):
         else:
             for d1 in sld(p, x[0]):
                 for d2 in sld(p, x[1:]):
-                    yield d1 * d2
+                    yield Product((d1,)) * d2
         return
     if p.is_const(x):
         yield x
diff --git a/dyna/program.py b/dyna/program.py
index 8633016..faaffdd 100644
--- a/dyna/program.py
+++ b/dyna/program.py
@@ -768,7 +768,10 @@ input/output declarations</summary>\
 
     def sld(self, x):
         if isinstance(x, str): x = syntax.term(x)
-        return derivations.sld(self, x)
+        # the enumeration is over when the caller looks at what it has collected, and
+        # so are the variable bindings that were in effect during the enumeration.
+        for d in derivations.sld(self, x):
+            yield fresh(d)
 
     def d(self, i):
         "Derivation constructor helper for rule at index `i`."
-- 
2.43.0


From 4e0df271ff849f918497ca3adfd1fc85cabb796c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:55 +0000
Subject: [PATCH 38/43] fix: derivations by equal rules are enumerated
 separately

---
 dyna/derivations.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/dyna/derivations.py b/dyna/derivations.py
index 99565db..0cfaac9 100644
--- a/dyna/derivations.py
+++ b/dyna/derivations.py
@@ -10,7 +10,7 @@ from io import StringIO
 from dyna.term import covers, fresh, Product, unify
 from dyna.util import escape_str, escape_html, dot2svg, tikz, latex
 from dyna.rule import Rule, is_const
-from dyna import PrettyPrinter
+from dyna import PrettyPrinter, syntax
 
 
 class Derivation(Rule):
@@ -419,12 +419,18 @@ def peel(ds):
     return dds
 
 
+def lookup(chart, x):
+    "Derivations in `chart` of the instances of `x`; derivations by equal rules are distinct."
+    if isinstance(x, str): x = syntax.term(x)
+    return Derivations(peel([fresh(r) for r in chart.lookup(x)]))
+
+
 def Naive(p, T, x):
-    return Derivations(peel(naive(p, T=T).user_lookup(x)))
+    return lookup(naive(p, T=T), x)
 
 
 def Seminaive(p, T, x, verbose=False):
-    return Derivations(peel(seminaive(p, T=T, verbose=verbose).user_lookup(x)))
+    return lookup(seminaive(p, T=T, verbose=verbose), x)
 
 
 def sld(p, x):
-- 
2.43.0


From 3e1ae806d2a08c854c0854df4bde6adc76f21896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:51 +0000
Subject: [PATCH 39/43] fix: derivation maps go by the position of rules and by
 the identity of programs

---
 dyna/program.py          | 50 ++++++++++++++----------
 dyna/transform/fold.py   | 84 ++++++++++++++++++++++++++++++----------
 dyna/transform/unfold.py | 15 +++----
 3 files changed, 102 insertions(+), 47 deletions(-)

diff --git a/dyna/program.py b/dyna/program.py
index faaffdd..1d09fd7 100644
--- a/dyna/program.py
+++ b/dyna/program.py
@@ -2143,13 +2143,13 @@ input/output declarations</summary>\
 #            **kwargs,
 #        )
 
-    # XXX: this method has a subtle bug: in order to have a coherent bijection, we
-    # require a canonical path between derivations - we cannot mix and match which
-    # derivations are mapping on a call-by-call basis!  This should be an easy fix.
     def Transform(self, d, target):
         """
         Derivation mapping. This method will compose derivation mappings in a
-        network of strongly equivalent programs
+        network of strongly equivalent programs.
+
+        The path between programs is canonical (by identity rather than equality);
+        otherwise, we would not have a coherent bijection.
         """
 
         if isinstance(d, (tuple, list)):
@@ -2160,15 +2160,16 @@ input/output declarations</summary>\
 
         assert target.root == source.root
 
-        # We can find a path for source to target by going through their common root node
-        # (which exists by assumption).
-        if target not in set(source.transforms()) and source not in set(target.transforms()):
-            return source.root.Transform(source.Transform(d, source.root), target)
-
         if source is target:   # exactly the same program
             return d
 
-        elif source == target:  # an equal, but not exact, match (allows superfical differences)
+        elif any(source is x for x in target.transforms()):
+            return target.transform(source.Transform(d, target.parent))
+
+        elif any(target is x for x in source.transforms()):
+            return source.parent.Transform(source.untransform(d), target)
+
+        elif source.root is source and target.root is target:   # equal roots
 
             # simple transform: renames the rules according to the alignment between
             # source and target.
@@ -2178,17 +2179,10 @@ input/output declarations</summary>\
                 *[source.Transform(y, target) for y in d.body]
             )
 
-        elif source in set(target.transforms()):
-            if source == target.parent:
-                return target.transform(d)
-            else:
-                return target.parent.Transform(source.Transform(d, target.parent), target)
-
         else:
-            if source.parent == target:
-                return source.untransform(d)
-            else:
-                return source.parent.Transform(source.Transform(d, source.parent), target)
+            # We can find a path for source to target by going through their common root node
+            # (which exists by assumption).
+            return target.root.Transform(source.root.Transform(source.Transform(d, source.root), target.root), target)
 
 
 class TransformedProgram(Program):
@@ -2204,6 +2198,22 @@ class TransformedProgram(Program):
         )
         self.root = parent.root
 
+    # Derivation mappings: the `fresh`-rename wrapper has the same rules in the
+    # same order; other transforms define their own mappings (or have none).
+
+    def transform(self, d):
+        return self._transform_fresh(d, self)
+
+    def untransform(self, d):
+        return self._transform_fresh(d, self.parent)
+
+    def _transform_fresh(self, d, target):
+        if self.name != 'fresh':
+            raise NotImplementedError(f'no derivation mapping for {self.name}')
+        def node(n):
+            return target.d(n.i)(n.head, *derivations.Derivation.map(n.body, node))
+        return derivations.Derivation.map(d, node)
+
     def compute_measure(self, M):
         # The `fresh`-rename wrapper preserves each rule's measure; delegate to
         # the parent (this is a bare TransformedProgram, not a dedicated class).
diff --git a/dyna/transform/fold.py b/dyna/transform/fold.py
index f31d010..cd2a750 100644
--- a/dyna/transform/fold.py
+++ b/dyna/transform/fold.py
@@ -1,7 +1,7 @@
 from collections import Counter
 from functools import cached_property
 
-from dyna import TransformedProgram, Derivation, Product, Term, Subst
+from dyna import TransformedProgram, Derivation, Product, Term, Subst, fresh
 
 DEBUG = 0
 
@@ -22,6 +22,8 @@ class Fold(TransformedProgram):
         self.j = j
         self.S = S
         self.defs = defs
+        # indices of the rules that are copied from the parent (they follow rule r)
+        self._copied = [k for k in range(len(parent)) if k not in S]
         super().__init__(f'Fold({r.__repr__(color=False)!r})', parent, [r] + list(parent - S))
         assert self.rules[self.i] == self.r
 
@@ -85,7 +87,7 @@ class Fold(TransformedProgram):
         # Reverse engineer the alignment between `defs` and `parent` that gives
         # rise to `self` after folding. We use the fact that
         #     parent == new.unfold(i, j, defs) == rev
-        rev2par = dict(rev.align(self.parent))
+        rev2par = self._rev2par
 
         bookkeeping = {}; def2par = {}
         for D,R in def2rev.items():   # note: unfold.new2def is def2new for us
@@ -100,36 +102,64 @@ class Fold(TransformedProgram):
 
         return (def2par, bookkeeping)
 
+    @cached_property
+    def _rev2par(self):
+        """
+        Alignment of the rules in `self.undo` to the (equal) rules in the parent program:
+        `undo` has the copied rules, then those that its new rules should replace.
+        """
+        rev = self.undo
+        rev2par = dict(enumerate(self._copied))
+        todo = sorted(self.S)
+        for R in range(len(self._copied), len(rev)):
+            for P in todo:
+                if rev.rules[R].same(self.parent.rules[P]):
+                    rev2par[R] = P
+                    todo.remove(P)
+                    break
+        return rev2par
+
+    @cached_property
+    def _par2rev(self):
+        return {P: R for R, P in self._rev2par.items()}
+
+    @cached_property
+    def _subgoal_alignment(self):
+        "The position in each of the parent's rules of the subgoals of the rule in `self.undo`."
+        return {P: align_subgoals(self.undo.rules[R], self.parent.rules[P])
+                for R, P in self._rev2par.items()}
+
     def transform(self, d):
+        if not self.partially_safe:
+            def parent2rev(n):
+                A = self._subgoal_alignment[n.i]
+                return self.undo.d(self._par2rev[n.i])(
+                    n.head, *[Derivation.map(n.body[k], parent2rev) for k in A])
+            return self.undo.untransform(Derivation.map(d, parent2rev))
+
         def node(n):
             if n.i not in self.S:              # top rule was copied to new program
-                assert n.p == self.parent
-                I = self.rules.index(n.R)   # the index of the copied rule in the new program
+                I = 1 + self._copied.index(n.i)   # the index of the copied rule in the new program
                 return self.d(I)(n.head, *self.transform(n.body))
             # rules that were replaced by the fold
-            assert n.p == self.parent
-
-            if not self.partially_safe:
-                return self.rev.Transform(self.Transform(n, self.rev), self.rev.undo)
 
             # We have recorded that the top rule P of this derivation maps
             # [via par2def] to a defining rule D.
             def_rule_ix = self.par2def[n.i]
             def_rule = self.defs.rules[def_rule_ix]
 
-            # Use our recorded alignment of P's subgoals to D's subgoals
-            bookkeeping = self.bookkeeping[n.i]
-
-            # Note: Splitting uses some guess work to determined left vs. right
-            d_left = n.body[[i for i in bookkeeping.remaining if i <= self.j]]
-            d_middle = n.body[list(sorted(bookkeeping.align))]
-            d_right = n.body[[i for i in bookkeeping.remaining if i > self.j]]
+            # Use our recorded alignment of P's subgoals to those of the unfolded rule
+            body = [n.body[k] for k in self._subgoal_alignment[n.i]]
+            k = self.j + len(def_rule.body)
+            d_left = Product(body[:self.j])
+            d_middle = Product(body[self.j:k])
+            d_right = Product(body[k:])
 
             # determine the unique substitution that makes the body of the
             # derivation match the body of def_rule
             θ = Subst()
-            for i, j in bookkeeping.align.items():
-                θ.cover(def_rule.body[j], n.r.body[i])
+            for x, y in zip(def_rule.body, d_middle):
+                θ.cover(x, y.head if isinstance(y, Derivation) else y)
 
             # The middle is where all the action happens
             d_middle_new = self.defs.Transform(self.defs.d(def_rule_ix)(
@@ -141,7 +171,13 @@ class Fold(TransformedProgram):
 
     def untransform(self, d):
         # implementation shortcut: use the undo (unfold) program's derivation mapping
-        return self.undo.Transform(self.undo.transform(d), self.parent)
+        def node(n):
+            P = self._rev2par[n.i]
+            body = [None] * len(n.body)
+            for k, y in zip(self._subgoal_alignment[P], n.body):
+                body[k] = Derivation.map(y, node)
+            return self.parent.d(P)(n.head, *body)
+        return Derivation.map(self.undo.transform(d), node)
 
     def compute_measure(self, M):
         "Fold-unfold safety measure for this (generalized) fold. `M` is the Measure context."
@@ -170,11 +206,11 @@ class Fold(TransformedProgram):
         m_parent = M(self.parent); m_defs = M(self.defs)
         diffs = [m_parent.m[P] - m_defs.m[D] for P,D in self.par2def.items()]
         m_r = M.Interval(M.Min([x.lo for x in diffs]), M.Max([x.hi for x in diffs]))
-        for N, r in enumerate(self):   # TODO: can't we do this without a loop?
+        for N in range(len(self)):   # TODO: can't we do this without a loop?
             if N == self.i:
                 m_new[N] = m_r
             else:
-                m_new[N] = m_parent.m[self.parent.rules.index(r)]   # TODO: is/can this index tracked in the transformation metadata?
+                m_new[N] = m_parent.m[self._copied[N - 1]]
         # Check the safety conditions for generalized fold.
         safe = m_parent._safe + m_defs._safe
         for (D,P) in self.def2par.items():
@@ -185,6 +221,14 @@ class Fold(TransformedProgram):
         return M.safety(m_new, self, safe)
 
 
+def align_subgoals(r, s):
+    "For rules that are the `same`: the position in `s` of each of the subgoals of `r`."
+    r = fresh(r)
+    for _, align, rest in r.body.covers(s.body, s=Subst().cover(r.head, s.head)):
+        if not rest: return [k for k, _ in sorted(align.items(), key=lambda x: x[1])]
+    raise ValueError(f'rules do not align: {r} {s}')
+
+
 def term_signature(x):
     return x.signature if isinstance(x, Term) else None
 
diff --git a/dyna/transform/unfold.py b/dyna/transform/unfold.py
index 76c2baa..f77b864 100644
--- a/dyna/transform/unfold.py
+++ b/dyna/transform/unfold.py
@@ -51,7 +51,7 @@ class Unfold(TransformedProgram):
             # keep the the revised RHS in the same order.
 
             new = list(program.rules)
-            new.remove(r)
+            del new[i]   # by position: there may be other rules that are equal to r
 
             assert defs.safe_inline(r.body[j]), f"unsafe to unfold `{r.body[j]}` at ({i},{j}) against definitions {self.defs}."
 
@@ -83,14 +83,12 @@ class Unfold(TransformedProgram):
     def transform(self, d):
         def node(n):
             if n.i == self.i:   # the unfolded rule
-                assert n.p == self.parent
                 d_left, d_middle, d_right = n.body[:self.j], n.body[self.j], n.body[self.j+1:]
                 d_middle_defs = self.Transform(d_middle, self.defs)
                 d_middle_new = self.defs.Transform(d_middle_defs.body, self.parent)
                 new_rule_ix = self.def2new[d_middle_defs.i]
                 return self.d(new_rule_ix)(n.head, *self.transform(d_left * d_middle_new * d_right))
-            assert n.p == self.parent
-            I = self.rules.index(n.R)   # the index of the copied rule in the new program
+            I = n.i - (n.i > self.i)   # the index of the copied rule in the new program
             return self.d(I)(n.head, *self.transform(n.body))
         return Derivation.map(d, node)
 
@@ -117,7 +115,10 @@ class Unfold(TransformedProgram):
 
     def untransform(self, d):
         # implementation shortcut: use the undo (fold) program's derivation mapping
-        return self.undo.Transform(self.undo.transform(d), self.parent)
+        def node(n):   # `undo` puts the rule that we unfolded first
+            I = self.i if n.i == 0 else n.i if n.i > self.i else n.i - 1
+            return self.parent.d(I)(n.head, *Derivation.map(n.body, node))
+        return Derivation.map(self.undo.transform(d), node)
 
     def compute_measure(self, M):
         "Fold-unfold safety measure for this (generalized) unfold. `M` is the Measure context."
@@ -136,11 +137,11 @@ class Unfold(TransformedProgram):
         m_new = [None]*len(self)
         m_parent = M(self.parent); m_defs = M(self.defs)
 
-        for N, r in enumerate(self):
+        for N in range(len(self)):
             if N in self.new2def:
                 m_new[N] = m_parent.m[self.i] + m_defs.m[self.new2def[N]]
             else:
-                m_new[N] = m_parent.m[self.parent.rules.index(r)]
+                m_new[N] = m_parent.m[N + (N >= self.i)]
 
         # Check the safety conditions for generalized unfold.
         P = self.i
-- 
2.43.0


From e37e76bd498586730864ee54bd4c9c7b279832a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:51 +0000
Subject: [PATCH 40/43] fix: derivation maps of speculation and left-corner at
 constants and frozen subgoals

---
 dyna/transform/lct.py   | 2 +-
 dyna/transform/slash.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/dyna/transform/lct.py b/dyna/transform/lct.py
index e0775b6..5157346 100644
--- a/dyna/transform/lct.py
+++ b/dyna/transform/lct.py
@@ -156,7 +156,7 @@ class LCT(TransformedProgram):
             # Apply recovery rules to promote spine into an actual derivation of n.head
             if self.is_const(x):
                 other = x
-                [xxx] = x
+                xxx = x
             else:
                 other = self.d(self.o[x.i]._index)(self._other(x.head), *self.transform(x.body))
                 [xxx] = other.head.args
diff --git a/dyna/transform/slash.py b/dyna/transform/slash.py
index 9160717..495527e 100644
--- a/dyna/transform/slash.py
+++ b/dyna/transform/slash.py
@@ -214,7 +214,7 @@ class Slash(TransformedProgram):
 
                 # slash base case; this is the bottommost element of Xs along the spine.
                 if unifies(d.head, self.x):
-                    return D_rso(d.head, D_oo(frozen(d.head), *left, o, *right), D_base(slash(d.head, d.head)))
+                    return D_rso(d.head, D_oo(d)(frozen(d.head), *left, o, *right), D_base(slash(d.head, d.head)))
                 else:
                     if self._is_useful_other(d.head):
                         return D_ro(d.head, D_oo(d)(frozen(d.head), *left, o, *right))
-- 
2.43.0


From 9602e62f89b621eebcc6d52e0f0e8eac33e3804f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:53 +0000
Subject: [PATCH 41/43] fix: type analysis without insts does not make $free
 constraints (its chart kept growing)

---
 dyna/analyze/types.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/dyna/analyze/types.py b/dyna/analyze/types.py
index 6ee0879..dc7d1ba 100644
--- a/dyna/analyze/types.py
+++ b/dyna/analyze/types.py
@@ -40,10 +40,11 @@ def remove_constants(p, r):
     assert isinstance(r, Rule), r
     return Rule(r.head, *[b for b in r.body if not p.is_const(b)])
 
-def to_type_program(p):
+def to_type_program(p, use_insts=True):
     q = TransformedProgram('booleanize', p, [
-        # create $free(X) constraints for each non-range-restricted variable X in the rule.
-        remove_constants(p, add_free_constraints(r))
+        # create $free(X) constraints for each non-range-restricted variable X in the rule
+        # (unless nobody interprets them).
+        remove_constants(p, add_free_constraints(r) if use_insts else r)
         for r in p
     ])
     q.semiring = Boolean
@@ -82,7 +83,7 @@ class TypeAnalyzer:
         self._input_type = input_type
 
         # Apply booleanization transform
-        self.program = to_type_program(program + input_type)
+        self.program = to_type_program(program + input_type, use_insts)
         self.inputs = (
             (input_type.inputs or Program([]))      # user type parameters
             + Program('$free(_). $bound(_).')       # "builtin" type parameters
-- 
2.43.0


From 9f034e2da1edc30cfcff8853288fc5ccfa606215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:14 +0000
Subject: [PATCH 42/43] fix: the run-time bound of a rule with a constant or a
 free head variable was 1

---
 dyna/analyze/runtime.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dyna/analyze/runtime.py b/dyna/analyze/runtime.py
index e4e4e4f..515d7de 100644
--- a/dyna/analyze/runtime.py
+++ b/dyna/analyze/runtime.py
@@ -142,7 +142,9 @@ class Runtime:
             return sum([self(s) for s in r])
         else:
             assert isinstance(r, Rule), r
-            return self._suffixtime(frozenset(r.body), frozenset([]), frozenset())
+            # neither constants nor the analysis' own $free constraints are run
+            body = frozenset(b for b in r.body if not Program.is_const(b) and b.fn != '$free')
+            return self._suffixtime(body, frozenset([]), frozenset())
 
     @cache
     def _suffixtime(self, suffix, C, V):
-- 
2.43.0


From c3ebc7f694fb9229484d461fa951991b0d815b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:16 +0000
Subject: [PATCH 43/43] fix: an infinite value made every value of solve_linear
 nan (zero times infinity)

---
 dyna/execute/linear.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/dyna/execute/linear.py b/dyna/execute/linear.py
index 5996e16..018a558 100644
--- a/dyna/execute/linear.py
+++ b/dyna/execute/linear.py
@@ -3,6 +3,11 @@ from arsenal import Integerizer, colors
 from dyna import TransformedProgram, Rule, Term, term_vars, canonicalize
 
 
+def _is_zero(x, zero):
+    "Is `x` exactly zero?  (The `==` of some semirings is approximate.)"
+    return x is zero or (isinstance(x, (int, float, np.number)) and x == zero)
+
+
 def kleene(A, semiring, reflexive=True):
     """
     Solve B = I + A B for B given a weighted binary relation A in semiring^{N
@@ -20,8 +25,11 @@ def kleene(A, semiring, reflexive=True):
         sjj = semiring.star(old[j,j])
         for i in range(N):
             for k in range(N):
-                # i ➙ j ⇝ j ➙ k
-                new[i,k] = old[i,k] + old[i,j] * sjj * old[j,k]
+                # i ➙ j ⇝ j ➙ k  (there may be none; zero times infinity is not a number)
+                if _is_zero(old[i,j], zero) or _is_zero(old[j,k], zero):
+                    new[i,k] = old[i,k]
+                else:
+                    new[i,k] = old[i,k] + old[i,j] * sjj * old[j,k]
         old, new = new, old   # swap to repurpose space
     if reflexive:  # post processing fix-up: add the identity matrix
         for i in range(N): old[i,i] += one
@@ -84,7 +92,11 @@ class kleene_linsolve(TransformedProgram):
         #print(p)
         #print(pack)
 
-        sol = kleene(pack.MM, p.Semiring) @ pack.VV
+        zero = p.Semiring.zero
+        sol = [
+            sum((m * v for m, v in zip(ms, pack.VV) if not _is_zero(m, zero) and not _is_zero(v, zero)), zero)
+            for ms in kleene(pack.MM, p.Semiring)
+        ]
 
         Sol = [Rule(x, sol[i]) for i,x in enumerate(pack.ix)]
 
-- 
2.43.0

