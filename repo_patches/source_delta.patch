From 5e2ea058cf775fc7ad51932169c2ca2e4ce4a855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:59:37 +0000
Subject: [PATCH 01/56] fix: import smawk relatively in wrap

The implicit relative import only works on Python 2, so importing wrap
(and sudoku, which uses it) failed.
---
 pads/wrap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pads/wrap.py b/pads/wrap.py
index f9dc6e0..cc83250 100644
--- a/pads/wrap.py
+++ b/pads/wrap.py
@@ -10,7 +10,7 @@ time via the OnlineConcaveMinima algorithm in SMAWK.py.
 D. Eppstein, August 2005.
 """
 
-from smawk import OnlineConcaveMinima
+from .smawk import OnlineConcaveMinima
 
 
 def wrap(text,                 # string or unicode to be wrapped
-- 
2.43.0


From 2141fb8e341a44ad0eedde5b98bdff1be9ebeef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:59:41 +0000
Subject: [PATCH 02/56] fix: replace sys.maxint in ordered sequences

sys.maxint does not exist on Python 3, so the first append failed.
---
 pads/ordered_sequence.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pads/ordered_sequence.py b/pads/ordered_sequence.py
index 9d6a933..5f4e146 100644
--- a/pads/ordered_sequence.py
+++ b/pads/ordered_sequence.py
@@ -18,7 +18,7 @@ class SimpleOrderedSequence(Sequence):
     for each item, with the order of tags the same as the sequence order.
     When two tags collide, we renumber the whole sequence; this behavior
     can be changed by overriding the rebalance method.  Renumbers happen
-    infrequently (roughly one in every log(sys.maxint) insertions)
+    infrequently (roughly one in every log(sys.maxsize) insertions)
     but take time proportional to the number of items, so it is preferable
     to use this data structure only for sequences of very few items.
     """
@@ -45,7 +45,7 @@ class SimpleOrderedSequence(Sequence):
         """Add x to the end of the sequence."""
         if not self._next:  # add to empty sequence
             Sequence.append(self, x)
-            self._tag[self.key(x)] = sys.maxint // 2
+            self._tag[self.key(x)] = sys.maxsize // 2
         else:
             self.insertAfter(self._prev[self._first], x)
 
@@ -56,7 +56,7 @@ class SimpleOrderedSequence(Sequence):
         y = self.key(y)
         next = self._next[y]
         if next == self._first:
-            nexttag = sys.maxint
+            nexttag = sys.maxsize
         else:
             nexttag = self._tag[next]
         xtag = self._tag[x]
@@ -77,7 +77,7 @@ class SimpleOrderedSequence(Sequence):
     def rebalance(self, x):
         """Clean up after x and its successor's tags collide."""
         base = 0
-        increment = sys.maxint // len(self)
+        increment = sys.maxsize // len(self)
         for y in self:
             self._tag[y] = base
             base += increment
-- 
2.43.0


From e8f3f6253b429012914d12fa5e7dcd36a20205a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:59:43 +0000
Subject: [PATCH 03/56] fix: give a tag to items inserted before a non-first
 item

insertBefore only assigned a tag when the new item became the first
item, so cmp() raised KeyError for items inserted elsewhere.
---
 pads/ordered_sequence.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/pads/ordered_sequence.py b/pads/ordered_sequence.py
index 5f4e146..3771f7b 100644
--- a/pads/ordered_sequence.py
+++ b/pads/ordered_sequence.py
@@ -66,13 +66,15 @@ class SimpleOrderedSequence(Sequence):
 
     def insertBefore(self, x, y):
         """Add y before x in the sequence."""
+        kx = self.key(x)
+        if self._first != kx:
+            self.insertAfter(self.predecessor(x), y)
+            return
         Sequence.insertBefore(self, x, y)
-        x = self.key(x)
-        y = self.key(y)
-        if self._first == y:
-            self._tag[y] = self._tag[x] // 2
-            if self._tag[y] == self._tag[x]:
-                self.rebalance(y)
+        ky = self.key(y)
+        self._tag[ky] = self._tag[kx] // 2
+        if self._tag[ky] == self._tag[kx]:
+            self.rebalance(ky)
 
     def rebalance(self, x):
         """Clean up after x and its successor's tags collide."""
-- 
2.43.0


From 43f3d0196bae2ed5a509e5c457ecd0fb80be07ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:59:45 +0000
Subject: [PATCH 04/56] fix: rebalance keyed ordered sequences by key

Tags are stored under item keys, but rebalance stored them under the
items themselves, which are not even hashable when key=id is used for
sequences of lists or sets.
---
 pads/ordered_sequence.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pads/ordered_sequence.py b/pads/ordered_sequence.py
index 3771f7b..cbbc748 100644
--- a/pads/ordered_sequence.py
+++ b/pads/ordered_sequence.py
@@ -80,9 +80,11 @@ class SimpleOrderedSequence(Sequence):
         """Clean up after x and its successor's tags collide."""
         base = 0
         increment = sys.maxsize // len(self)
-        for y in self:
+        y = self._first
+        for i in range(len(self)):
             self._tag[y] = base
             base += increment
+            y = self._next[y]
 
 
 class LogarithmicOrderedSequence(SimpleOrderedSequence):
-- 
2.43.0


From ebc7ab69e82f51fe037d4d297d907178f9f1b962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:00:23 +0000
Subject: [PATCH 05/56] fix: append to keyed ordered sequences after the last
 item

append passed the key of the last item to insertAfter, which expects the
item itself, so the second append to a keyed sequence raised KeyError.
---
 pads/ordered_sequence.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pads/ordered_sequence.py b/pads/ordered_sequence.py
index cbbc748..5d6ae50 100644
--- a/pads/ordered_sequence.py
+++ b/pads/ordered_sequence.py
@@ -47,7 +47,8 @@ class SimpleOrderedSequence(Sequence):
             Sequence.append(self, x)
             self._tag[self.key(x)] = sys.maxsize // 2
         else:
-            self.insertAfter(self._prev[self._first], x)
+            last = self._prev[self._first]
+            self.insertAfter(self._items.get(last, last), x)
 
     def insertAfter(self, x, y):
         """Add y after x and compute a tag for it."""
-- 
2.43.0


From 7320e54752448199c820564082a24dcd287061f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:00:25 +0000
Subject: [PATCH 06/56] fix: raise IndexError when indexing an empty sequence

Index 0 of an empty sequence returned None or the last removed item.
---
 pads/sequence.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pads/sequence.py b/pads/sequence.py
index adc3a2b..38bc354 100644
--- a/pads/sequence.py
+++ b/pads/sequence.py
@@ -46,6 +46,8 @@ class Sequence:
 
     def __getitem__(self, i):
         """Return the ith item in the sequence."""
+        if not self._next:
+            raise IndexError("Index out of range")
         item = self._first
         while i:
             item = self._next[item]
-- 
2.43.0


From 1e3debd73956e05d37976485afa969ebaa5b3e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:00:28 +0000
Subject: [PATCH 07/56] fix: union sets of items that cannot be ordered

Ties between equally heavy sets were broken by comparing the items,
which fails for hashable objects that do not support ordering.
---
 pads/union_find.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pads/union_find.py b/pads/union_find.py
index 320bba1..402b836 100644
--- a/pads/union_find.py
+++ b/pads/union_find.py
@@ -59,7 +59,7 @@ class UnionFind:
     def union(self, *objects):
         """Find the sets containing the objects and merge them all."""
         roots = [self[x] for x in objects]
-        heaviest = max([(self.weights[r], r) for r in roots])[1]
+        heaviest = max(roots, key=lambda r: self.weights[r])
         for r in roots:
             if r != heaviest:
                 self.weights[heaviest] += self.weights[r]
-- 
2.43.0


From 57e5e6161477981d2907e7b139215cc5765e1caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:00:30 +0000
Subject: [PATCH 08/56] fix: use dict.items in NormalizePacking

iteritems does not exist on Python 3.
---
 pads/circle_pack.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pads/circle_pack.py b/pads/circle_pack.py
index 49ce484..75cc7d8 100644
--- a/pads/circle_pack.py
+++ b/pads/circle_pack.py
@@ -85,7 +85,7 @@ def NormalizePacking(packing, k=None, target=1.0):
     else:
         z, r = packing[k]
     s = target / r
-    return dict((kk, (zz * s, rr * s)) for kk, (zz, rr) in packing.iteritems())
+    return dict((kk, (zz * s, rr * s)) for kk, (zz, rr) in packing.items())
 
 
 def InvertAround(packing, k, smallCircles=None):
-- 
2.43.0


From 76a9b363b155cb62551e4e64723061696b8e2582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:00:32 +0000
Subject: [PATCH 09/56] fix: let InvertAround optimize circles other than the
 outer one

The grid search normalizes by the surrounding circle, which was looked
up in a packing that only held the requested small circles.
---
 pads/circle_pack.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pads/circle_pack.py b/pads/circle_pack.py
index 75cc7d8..f16898b 100644
--- a/pads/circle_pack.py
+++ b/pads/circle_pack.py
@@ -101,7 +101,8 @@ def InvertAround(packing, k, smallCircles=None):
     for the minimum radius circle will look only at these circles"""
     z, r = packing[k]
     if smallCircles:
-        optpack = {k: packing[k] for k in smallCircles}
+        optpack = {kk: packing[kk] for kk in smallCircles}
+        optpack[k] = packing[k]
     else:
         optpack = packing
     q, g = z, r * 0.4
-- 
2.43.0


From ed21d6db5ac4a7c0fc6f759050d6866158ca0332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:00:35 +0000
Subject: [PATCH 10/56] fix: do not modify factorizations after yielding them

The dictionaries yielded for primes and prime powers were reused for a
later multiple, so callers that kept them saw them change.
---
 pads/eratosthenes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pads/eratosthenes.py b/pads/eratosthenes.py
index 7822da8..a4cfcbc 100644
--- a/pads/eratosthenes.py
+++ b/pads/eratosthenes.py
@@ -77,12 +77,12 @@ def factored_integers():
         if i not in factorization:  # prime
             F = {i: 1}
             yield i, F
-            factorization[2 * i] = F
+            factorization[2 * i] = dict(F)
         elif len(factorization[i]) == 1:    # prime power
             p, x = next(iter(factorization[i].items()))
             F = {p: x + 1}
             yield i, F
-            factorization[2 * i] = F
+            factorization[2 * i] = dict(F)
             factorization[i + p**x][p] = x
             del factorization[i]
         else:
-- 
2.43.0


From cec8b2c4ce9ca4f4be000f761ac2c18416d08fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:00:38 +0000
Subject: [PATCH 11/56] fix: connect the third ring of generalized Coxeter
 graphs

Vertices of the third ring listed neighbors in the first ring that did
not list them back, so the graph was not undirected.
---
 pads/graph_examples.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pads/graph_examples.py b/pads/graph_examples.py
index 69108a1..4584991 100644
--- a/pads/graph_examples.py
+++ b/pads/graph_examples.py
@@ -23,7 +23,7 @@ def GeneralizedCoxeterGraph(n, a, b):
         G[i, 0] = (i, 1), (i, 2), (i, 3)
         G[i, 1] = (i, 0), ((i + 1) % n, 1), ((i - 1) % n, 1)
         G[i, 2] = (i, 0), ((i + a) % n, 2), ((i - a) % n, 2)
-        G[i, 3] = (i, 0), ((i + b) % n, 1), ((i - b) % n, 1)
+        G[i, 3] = (i, 0), ((i + b) % n, 3), ((i - b) % n, 3)
     return G
 
 CoxeterGraph = GeneralizedCoxeterGraph(7, 2, 3)
-- 
2.43.0


From cb428f7c819096763ff0563e5b3e9dc2964636e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:00:41 +0000
Subject: [PATCH 12/56] fix: return the empty set for cores deeper than the
 degeneracy

core(G, k) returned the deepest core when G has no k-core.
---
 pads/graphdegeneracy.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pads/graphdegeneracy.py b/pads/graphdegeneracy.py
index 344d486..312dd37 100644
--- a/pads/graphdegeneracy.py
+++ b/pads/graphdegeneracy.py
@@ -49,6 +49,8 @@ def core(G, k=None):
                 coreset = set()         # yes, restart core
                 level = d
         coreset.add(v)
+    if k is not None and level < k:     # no subgraph has min degree k
+        return set()
     return coreset
 
 
-- 
2.43.0


From df691a7974e8b56cfa9b70e4e3c26cee97e26cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:00:44 +0000
Subject: [PATCH 13/56] fix: remove only the given value from bit vector heaps

The complement was shifted rather than the bit, so removing a value
also removed every smaller value.
---
 pads/integer_heap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pads/integer_heap.py b/pads/integer_heap.py
index f851690..206c464 100644
--- a/pads/integer_heap.py
+++ b/pads/integer_heap.py
@@ -83,7 +83,7 @@ class BitVectorHeap:
 
     def remove(self, x):
         """Remove x from the values in the heap."""
-        self._S &= ~ 1 << x
+        self._S &= ~(1 << x)
 
     def min(self):
         """Return the minimum value in the heap."""
-- 
2.43.0


From ef8bb0e04c0093361d877494b10eeb0360721709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:01:09 +0000
Subject: [PATCH 14/56] fix: compare accepting states when comparing automata

Two automata with the same transitions compared equal even when they
accept different strings, so a language could equal its complement.
---
 pads/automata.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pads/automata.py b/pads/automata.py
index 590ae02..c9296c0 100644
--- a/pads/automata.py
+++ b/pads/automata.py
@@ -209,6 +209,8 @@ class DFA(FiniteAutomaton):
         while unprocessed:
             x = unprocessed.pop()
             y = equivalences[x]
+            if bool(self.isfinal(x)) != bool(other.isfinal(y)):
+                return False
             for c in self.alphabet:
                 xc = self.transition(x, c)
                 yc = other.transition(y, c)
-- 
2.43.0


From 4c263d97c2e87f8f1e636cdeb24d87ca1ebbd978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:01:13 +0000
Subject: [PATCH 15/56] fix: test regular languages for emptiness

The truth value of a language was only defined for Python 2 and asked
the states, not the recognizer, whether they are final. The subset
comparisons rely on it and were therefore always false.
---
 pads/automata.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pads/automata.py b/pads/automata.py
index c9296c0..4f003df 100644
--- a/pads/automata.py
+++ b/pads/automata.py
@@ -95,12 +95,14 @@ class RegularLanguage:
         return language(self.recognizer.symmetricDifference(other.recognizer))
 
     def __nonzero__(self):
-        """Is this the empty language?"""
+        """Is this a nonempty language?"""
         for x in self.recognizer.states():
-            if x.isfinal():
+            if self.recognizer.isfinal(x):
                 return True
         return False
 
+    __bool__ = __nonzero__
+
 
 class FiniteAutomaton:
 
-- 
2.43.0


From 0c48fee2b7fbfbf64c9b8942b42cdfaecd976f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:01:15 +0000
Subject: [PATCH 16/56] fix: write out the empty string in generated regular
 expressions

An alternation whose first branch is empty was written with a leading
plus sign, which the expression parser reads as a literal symbol.
---
 pads/automata.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pads/automata.py b/pads/automata.py
index 4f003df..d104680 100644
--- a/pads/automata.py
+++ b/pads/automata.py
@@ -314,7 +314,10 @@ class NFA(FiniteAutomaton):
                         if expr[s, y]:
                             xsy += self._parenthesize(expr[s, y])
                         if expr[x, y] is not None:
-                            xsy += ['+', expr[x, y] or '()']
+                            if not xsy and expr[x, y]:
+                                xsy += ['()']
+                            if xsy:
+                                xsy += ['+', expr[x, y] or '()']
                         expr[x, y] = ''.join(xsy)
         return expr[initial, final]
 
-- 
2.43.0


From 0c8ee381ea60f7294d3760c65a90d39602e8147c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:01:18 +0000
Subject: [PATCH 17/56] fix: escape operator symbols in generated regular
 expressions

Alphabets may contain the operator characters through backslash
escapes, but the generated expressions listed them unescaped.
---
 pads/automata.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pads/automata.py b/pads/automata.py
index d104680..5c893b3 100644
--- a/pads/automata.py
+++ b/pads/automata.py
@@ -296,9 +296,9 @@ class NFA(FiniteAutomaton):
             for c in self.alphabet:
                 for y in self.transition(x, c):
                     if expr[x, y]:
-                        expr[x, y] += '+' + str(c)
+                        expr[x, y] += '+' + self._escape(c)
                     else:
-                        expr[x, y] = str(c)
+                        expr[x, y] = self._escape(c)
 
         # eliminate states one at a time
         for s in self.states():
@@ -321,6 +321,12 @@ class NFA(FiniteAutomaton):
                         expr[x, y] = ''.join(xsy)
         return expr[initial, final]
 
+    def _escape(self, c):
+        """Return string for symbol c, protected by a backslash if needed."""
+        if c in ('(', ')', '+', '*', '\\'):
+            return '\\' + c
+        return str(c)
+
     def _parenthesize(self, expr, starring=False):
         """Return list of strings with or without parens for use in RegExp.
         This is only for the purpose of simplifying the expressions returned,
-- 
2.43.0


From 13d7ae9fcc6df54bd43c70e1f9f57b72d1738517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:01:20 +0000
Subject: [PATCH 18/56] fix: write automata to the given output stream in
 pprint

The Python 2 print statements raise TypeError on Python 3.
---
 pads/automata.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pads/automata.py b/pads/automata.py
index 5c893b3..10d7e72 100644
--- a/pads/automata.py
+++ b/pads/automata.py
@@ -265,12 +265,14 @@ class NFA(FiniteAutomaton):
             if not [c for c in self.alphabet if self.transition(state, c)]:
                 adjectives.append("terminal")
             if not adjectives:
-                print >>output, state
+                output.write(str(state) + "\n")
             else:
-                print >>output, state, "(" + ", ".join(adjectives) + ")"
+                output.write(str(state) +
+                             " (" + ", ".join(adjectives) + ")\n")
             for c in self.alphabet:
                 for neighbor in self.transition(state, c):
-                    print >>output, "  --[" + str(c) + "]-->", neighbor
+                    output.write("  --[" + str(c) + "]--> " +
+                                 str(neighbor) + "\n")
 
     def RegExp(self):
         """Convert to regular expression and return as a string.
-- 
2.43.0


From 799f4d4410476ed7b814820b6db022c9411cb602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:01:53 +0000
Subject: [PATCH 19/56] fix: find long alternating paths without recursion

The search for alternating paths recursed once per layer and exceeded
the recursion limit on bipartite graphs with long augmenting paths.
---
 pads/bipartite_matching.py | 38 ++++++++++++++++++++++----------------
 1 file changed, 22 insertions(+), 16 deletions(-)

diff --git a/pads/bipartite_matching.py b/pads/bipartite_matching.py
index 7a4b156..9817c50 100644
--- a/pads/bipartite_matching.py
+++ b/pads/bipartite_matching.py
@@ -67,23 +67,29 @@ def matching(graph):
                         unlayered[v] = None
             return (matching, list(pred), list(unlayered))
 
-        # recursively search backward through layers to find alternating paths
-        # recursion returns true if found path, false otherwise
-        def recurse(v):
-            if v in preds:
-                L = preds[v]
-                del preds[v]
-                for u in L:
-                    if u in pred:
-                        pu = pred[u]
-                        del pred[u]
-                        if pu is unmatched or recurse(pu):
-                            matching[v] = u
-                            return True
-            return False
-
+        # search backward through layers to find alternating paths
+        # we use an explicit stack as the paths may be longer than the
+        # recursion limit; path[i] is the predecessor tried for stack[i]
         for v in unmatched:
-            recurse(v)
+            stack = [(v, iter(preds.pop(v)))]
+            path = []
+            while stack:
+                v, candidates = stack[-1]
+                for u in candidates:
+                    if u in pred:
+                        break
+                else:
+                    stack.pop()
+                    if path:
+                        path.pop()
+                    continue
+                pu = pred.pop(u)
+                path.append(u)
+                if pu is unmatched:
+                    for (v, candidates), u in zip(stack, path):
+                        matching[v] = u
+                    break
+                stack.append((pu, iter(preds.pop(pu, ()))))
 
 
 def imperfections(graph):
-- 
2.43.0


From 926da3c722c874804db3b3f043eb968f1544b9a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:01:56 +0000
Subject: [PATCH 20/56] fix: handle unmatchable right vertices in imperfections

When every left vertex can be matched but the right side is larger, the
graph has no perfect matching; this raised KeyError.
---
 pads/bipartite_matching.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pads/bipartite_matching.py b/pads/bipartite_matching.py
index 9817c50..c575c24 100644
--- a/pads/bipartite_matching.py
+++ b/pads/bipartite_matching.py
@@ -104,7 +104,8 @@ def imperfections(graph):
     not including v.
     """
     M, A, B = matching(graph)
-    if len(M) != len(graph):
+    if len(M) != len(graph) or any(w not in M for v in graph
+                                   for w in graph[v]):
         return graph    # whole graph is imperfect
 
     orientation = {}
-- 
2.43.0


From 62e7791b6231752ba5d44cb200e6802de4fd0c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:01:59 +0000
Subject: [PATCH 21/56] fix: ignore repeated additions to sorted sets

Adding an item that was already present listed it twice in the next
iteration.
---
 pads/sorted_set.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pads/sorted_set.py b/pads/sorted_set.py
index 82b71c2..dcf6a82 100644
--- a/pads/sorted_set.py
+++ b/pads/sorted_set.py
@@ -39,6 +39,8 @@ class SortedSet:
 
     def add(self, item):
         """Add the given item to a sorted set."""
+        if item in self._set:
+            return
         self._set.add(item)
         if self._previous:
             self._additions.add(item)
-- 
2.43.0


From 805815b55b49dd25a1ad68fd8464bc2de8e1d52c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:02:02 +0000
Subject: [PATCH 22/56] fix: use the y coordinate of SVG rectangles

Rectangles were drawn at y = x.
---
 pads/svg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pads/svg.py b/pads/svg.py
index 0ebc634..a439293 100644
--- a/pads/svg.py
+++ b/pads/svg.py
@@ -111,11 +111,11 @@ class SVG:
     def rectangle(self, p, q, style={}, **morestyle):
         """Rectangle with corners at points p and q"""
         x = min(p.real, q.real)
-        # y = min(p.imag, q.imag)
+        y = min(p.imag, q.imag)
         width = abs((p - q).real)
         height = abs((p - q).imag)
         self.element('rect x="%s" y="%s" width="%s" height="%s"' %
-                     (_coord(x), _coord(x), _coord(width), _coord(height)),
+                     (_coord(x), _coord(y), _coord(width), _coord(height)),
                      style=style, **morestyle)
 
     def polygon(self, points, style={}, **morestyle):
-- 
2.43.0


From 2193700f6fa69c15093c5132ee832b3b49c9f453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:02:05 +0000
Subject: [PATCH 23/56] fix: reject disconnected graphs in st_orientation

A biconnected component together with isolated vertices has a single
root edge and was accepted.
---
 pads/biconnectivity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pads/biconnectivity.py b/pads/biconnectivity.py
index eacc0b1..cb502fd 100644
--- a/pads/biconnectivity.py
+++ b/pads/biconnectivity.py
@@ -191,7 +191,7 @@ class STOrienter(Searcher):
 def st_orientation(G):
     """Find an acyclic orientation of G, with one source and one sink."""
     stO = STOrienter(G)
-    if len(stO.roots) != 1:
+    if len(stO.roots) != 1 or not is_biconnected(G):
         raise NotBiconnected
 
     source, dest = stO.roots[0]
-- 
2.43.0


From 21a7b7d014ca4f73972c859d8d900a38f50fe09e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:02:49 +0000
Subject: [PATCH 24/56] fix: traverse deep trees without recursion in LCA
 structures

Trees deeper than the recursion limit, such as the Cartesian tree of a
sorted list, could not be processed.
---
 pads/lca.py | 47 +++++++++++++++++++++++++++++++++--------------
 1 file changed, 33 insertions(+), 14 deletions(-)

diff --git a/pads/lca.py b/pads/lca.py
index 3d2de70..06f8501 100644
--- a/pads/lca.py
+++ b/pads/lca.py
@@ -222,12 +222,21 @@ class LCA:
 
     def _visit(self, children, levels, node, level):
         """Perform Euler traversal of tree."""
+        # explicit stack, as the tree may be deeper than the recursion limit
         self._representatives[node] = len(levels)
-        pair = (level, node)
-        levels.append(pair)
-        for child in children[node]:
-            self._visit(children, levels, child, level + 1)
-            levels.append(pair)
+        levels.append((level, node))
+        stack = [(levels[-1], iter(children[node]))]
+        while stack:
+            pair, remaining = stack[-1]
+            for child in remaining:
+                self._representatives[child] = len(levels)
+                levels.append((pair[0] + 1, child))
+                stack.append((levels[-1], iter(children[child])))
+                break
+            else:
+                stack.pop()
+                if stack:
+                    levels.append(stack[-1][0])
 
 
 class OfflineLCA(defaultdict):
@@ -267,16 +276,26 @@ class OfflineLCA(defaultdict):
 
     def traverse(self, node):
         """Perform depth first traversal of tree."""
+        # explicit stack, as the tree may be deeper than the recursion limit
         self.ancestors[self.descendants[node]] = node
-        for child in self.children[node]:
-            self.traverse(child)
-            self.descendants.union(child, node)
-            self.ancestors[self.descendants[node]] = node
-        self.visited.add(node)
-        for query in self[node]:
-            if query in self.visited:
-                lca = self.ancestors[self.descendants[query]]
-                self[node][query] = self[query][node] = lca
+        stack = [(node, iter(self.children[node]))]
+        while stack:
+            node, remaining = stack[-1]
+            for child in remaining:
+                self.ancestors[self.descendants[child]] = child
+                stack.append((child, iter(self.children[child])))
+                break
+            else:
+                stack.pop()
+                self.visited.add(node)
+                for query in self[node]:
+                    if query in self.visited:
+                        lca = self.ancestors[self.descendants[query]]
+                        self[node][query] = self[query][node] = lca
+                if stack:
+                    parent = stack[-1][0]
+                    self.descendants.union(node, parent)
+                    self.ancestors[self.descendants[parent]] = parent
 
 # Various utility functions
 
-- 
2.43.0


From 1ea86448ad243b93c344a2c203685c8516a79775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:02:52 +0000
Subject: [PATCH 25/56] fix: find LCAs of tree nodes that cannot be ordered

Combining the first and last block before the blocks between them could
compare two different nodes at the same level.
---
 pads/lca.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pads/lca.py b/pads/lca.py
index 06f8501..b585a5d 100644
--- a/pads/lca.py
+++ b/pads/lca.py
@@ -139,10 +139,12 @@ class RestrictedRangeMin:
             position = self._blocks[firstblock][i:i + right - left][1]
             return self._data[position + (firstblock << self._blocksize)]
         else:
-            best = min(self._suffix[left], self._prefix[right])
+            # combine from left to right, so that each partial minimum is
+            # that of a contiguous range and LCA never compares two nodes
+            best = self._suffix[left]
             if lastblock > firstblock + 1:
                 best = min(best, self._blockrange[firstblock + 1:lastblock])
-            return best
+            return min(best, self._prefix[right])
 
     def _blockid(self, XX):
         """Return value such that all blocks with the same
-- 
2.43.0


From ce9b55341b64f9698336d4c7c69a5560f58d0f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:03:19 +0000
Subject: [PATCH 26/56] fix: trace each path from its first vertex

Paths were cut wherever consecutive vertices of the topological order
were not adjacent, so decompositions could use too many paths.
---
 pads/partial_order.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/pads/partial_order.py b/pads/partial_order.py
index 630744f..bfb6f07 100644
--- a/pads/partial_order.py
+++ b/pads/partial_order.py
@@ -57,14 +57,12 @@ def TracePaths(G):
     """
     Turn a DAG with indegree and outdegree <= 1 into a sequence of lists.
     """
-    L = []
+    visited = set()
     for v in TopologicalOrder(G):
-        if L and v not in G[L[-1]]:
+        if v not in visited:
+            L = list(preorder(G, v))
+            visited.update(L)
             yield L
-            L = []
-        L.append(v)
-    if L:
-        yield L
 
 
 def MinimumPathDecomposition(G):
-- 
2.43.0


From d215b1176a957ed943254a0779c0a9c26d0557e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:03:22 +0000
Subject: [PATCH 27/56] fix: let minimal elements belong to maximum antichains

Elements with nothing below them never occur on the right side of the
matching problem and were therefore always left out.
---
 pads/partial_order.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pads/partial_order.py b/pads/partial_order.py
index bfb6f07..e60299d 100644
--- a/pads/partial_order.py
+++ b/pads/partial_order.py
@@ -93,5 +93,7 @@ def MaximumAntichain(G):
     """
     if not isAcyclic(G):
         raise ValueError("MaximumAntichain: input is not acyclic.")
-    M, A, B = matching(TransitiveClosure(G))
-    return set(A).intersection(B)
+    TC = TransitiveClosure(G)
+    M, A, B = matching(TC)
+    minimal = set(TC).difference(*TC.values())
+    return set(A).intersection(minimal.union(B))
-- 
2.43.0


From 403e26cac6dd3b3617b924bff1d1e9dcd76448f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:03:25 +0000
Subject: [PATCH 28/56] fix: reject repeated vertices in topological orders

A list naming some vertex twice is not an ordering of the vertices.
---
 pads/partial_order.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pads/partial_order.py b/pads/partial_order.py
index e60299d..690b9e5 100644
--- a/pads/partial_order.py
+++ b/pads/partial_order.py
@@ -13,7 +13,7 @@ def isTopologicalOrder(G, L):
     """Check that L is a topological ordering of directed graph G."""
     vnum = {}
     for i in range(len(L)):
-        if L[i] not in G:
+        if L[i] not in G or L[i] in vnum:
             return False
         vnum[L[i]] = i
     for v in G:
-- 
2.43.0


From f20f14035da94614620a2e35413bbd8377a9b9eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:03:28 +0000
Subject: [PATCH 29/56] fix: filter LEDA lines into a list

The filter object of Python 3 can not be indexed, so every format other
than graph6 and sparse6 failed to be recognized.
---
 pads/read_undirected_graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pads/read_undirected_graph.py b/pads/read_undirected_graph.py
index b0299d3..f631ec5 100644
--- a/pads/read_undirected_graph.py
+++ b/pads/read_undirected_graph.py
@@ -370,7 +370,7 @@ def ledaLines(lines):
     """
     def relevant(line):
         return line and not line.startswith('#')
-    return filter(relevant, lines)
+    return [line for line in lines if relevant(line)]
 
 
 def readLeda(lines):
-- 
2.43.0


From 3295b5f2eb07436b4033a980da5e6dc5a47e64f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:03:31 +0000
Subject: [PATCH 30/56] fix: stop at the end of sparse6 data

Running out of data raised StopIteration inside a generator, which
Python 3.7 turns into RuntimeError.
---
 pads/read_undirected_graph.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pads/read_undirected_graph.py b/pads/read_undirected_graph.py
index f631ec5..03f26d2 100644
--- a/pads/read_undirected_graph.py
+++ b/pads/read_undirected_graph.py
@@ -323,7 +323,9 @@ def readSparse6(str):
 
         while 1:
             if dLen < 1:
-                d = next(chunks)
+                d = next(chunks, None)
+                if d is None:
+                    return
                 dLen = 6
             dLen -= 1
             b = (d >> dLen) & 1  # grab top remaining bit
@@ -331,7 +333,9 @@ def readSparse6(str):
             x = d & ((1 << dLen) - 1) 	# partially built up value of x
             xLen = dLen				# how many bits included so far in x
             while xLen < k:			# now grab full chunks until we have enough
-                d = next(chunks)
+                d = next(chunks, None)
+                if d is None:
+                    return
                 dLen = 6
                 x = (x << 6) + d
                 xLen += 6
-- 
2.43.0


From 4d0722e59ab26484bfb6507f20ca5a4010a45c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:03:33 +0000
Subject: [PATCH 31/56] fix: skip the whole sparse6 header

The header is one character longer than that of graph6.
---
 pads/read_undirected_graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pads/read_undirected_graph.py b/pads/read_undirected_graph.py
index 03f26d2..3c8000f 100644
--- a/pads/read_undirected_graph.py
+++ b/pads/read_undirected_graph.py
@@ -307,7 +307,7 @@ def readGraph6(str):
 def readSparse6(str):
     """Read undirected graph in sparse6 format."""
     if str.startswith('>>sparse6<<'):
-        str = str[10:]
+        str = str[11:]
     if not str.startswith(':'):
         raise GraphFormatError('Expected colon in sparse6')
     n, data = graph6n(graph6data(str[1:]))
-- 
2.43.0


From fca046f71c08b023819a6cd5c19226253a222592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:03:36 +0000
Subject: [PATCH 32/56] fix: ignore sparse6 padding after the last vertex

For some sizes the padding bits advance past the last vertex and were
reported as an edge to a missing vertex.
---
 pads/read_undirected_graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pads/read_undirected_graph.py b/pads/read_undirected_graph.py
index 3c8000f..bb8796a 100644
--- a/pads/read_undirected_graph.py
+++ b/pads/read_undirected_graph.py
@@ -352,7 +352,7 @@ def readSparse6(str):
     for b, x in parseData():
         if b:
             v += 1
-        if x >= n:
+        if x >= n or v >= n:
             break			# padding with ones can cause overlarge number here
         elif x > v:
             v = x
-- 
2.43.0


From cd4e8d5f82374bf9810838e0050e714311a69ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:03:39 +0000
Subject: [PATCH 33/56] fix: keep GraphML lines apart

Lines are stripped before parsing, so a tag continued on the next line
lost the white space between its attributes.
---
 pads/read_undirected_graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pads/read_undirected_graph.py b/pads/read_undirected_graph.py
index bb8796a..689c37b 100644
--- a/pads/read_undirected_graph.py
+++ b/pads/read_undirected_graph.py
@@ -241,7 +241,7 @@ def readGraphML(lines):
     p.StartElementHandler = start_element
     p.EndElementHandler = end_element
     for line in lines:
-        p.Parse(line)
+        p.Parse(line + '\n')
     p.Parse("", 1)
     return G
 
-- 
2.43.0


From 4dd462b7ea69fb0c25dcf36eb3b34be2cd9ac02a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:04:08 +0000
Subject: [PATCH 34/56] fix: break ties by row position in ConcaveMinima

Ties were broken by comparing the row labels, which need not be in
increasing order and need not be comparable at all.
---
 pads/smawk.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pads/smawk.py b/pads/smawk.py
index 948ab4c..8f3de50 100644
--- a/pads/smawk.py
+++ b/pads/smawk.py
@@ -69,7 +69,9 @@ def ConcaveMinima(RowIndices, ColIndices, Matrix):
         while row != lastrow:
             r += 1
             row = RowIndices[r]
-            pair = min(pair, (Matrix(row, col), row))
+            value = Matrix(row, col)
+            if value < pair[0]:
+                pair = (value, row)
         minima[col] = pair
 
     return minima
-- 
2.43.0


From b0bbda44067859a5ed85cb55ccd589b2a7911ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:04:11 +0000
Subject: [PATCH 35/56] fix: sort edges by weight only in MinimumSpanningTree

Edges of equal weight were ordered by comparing their endpoints, which
fails for vertices that can not be ordered.
---
 pads/minimum_spanning_tree.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pads/minimum_spanning_tree.py b/pads/minimum_spanning_tree.py
index 53cb041..a0759da 100644
--- a/pads/minimum_spanning_tree.py
+++ b/pads/minimum_spanning_tree.py
@@ -28,7 +28,8 @@ def MinimumSpanningTree(G):
     # part (the sort) is sped up by being built in to Python.
     subtrees = UnionFind()
     tree = []
-    for W, u, v in sorted((G[u][v], u, v) for u in G for v in G[u]):
+    for W, u, v in sorted(((G[u][v], u, v) for u in G for v in G[u]),
+                          key=lambda edge: edge[0]):
         if subtrees[u] != subtrees[v]:
             tree.append((u, v))
             subtrees.union(u, v)
-- 
2.43.0


From b6df017ea25566ca736171cc40a2779eedfc6c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:04:14 +0000
Subject: [PATCH 36/56] fix: recognize partial cubes with vertices that cannot
 be ordered

Vertices of equal degree were compared to find the search root.
---
 pads/partial_cube.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pads/partial_cube.py b/pads/partial_cube.py
index 19ac1ba..bae4af4 100644
--- a/pads/partial_cube.py
+++ b/pads/partial_cube.py
@@ -60,7 +60,8 @@ def PartialCubeEdgeLabeling(G):
             raise MediumError("graph is not bipartite")
 
         # Find max degree vertex in G, and update label limit
-        deg, root = max([(len(CG[v]), v) for v in CG])
+        root = max(CG, key=lambda v: len(CG[v]))
+        deg = len(CG[root])
         if deg > NL:
             raise MediumError("graph has too many equivalence classes")
         NL -= deg
-- 
2.43.0


From ce3c174293fa9e991e1ea0231b59990c36c39107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:04:18 +0000
Subject: [PATCH 37/56] fix: allow freezing a partition twice

Freezing a set that is already frozen keeps its identity, so the second
freeze dropped all sets from the partition.
---
 pads/partition_refinement.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pads/partition_refinement.py b/pads/partition_refinement.py
index b907d5d..c3f5f48 100644
--- a/pads/partition_refinement.py
+++ b/pads/partition_refinement.py
@@ -87,5 +87,5 @@ class PartitionRefinement:
             F = frozenset(S)
             for x in F:
                 self._partition[x] = F
-            self._sets[id(F)] = F
             del self._sets[id(S)]
+            self._sets[id(F)] = F
-- 
2.43.0


From 4344c9f00b42e3490d00961244c4a62d6035e2ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:17:52 +0000
Subject: [PATCH 38/56] fix: let LexBFS of a graph without vertices visit
 nothing

The initial partition of an empty graph consists of one empty set, from
which no vertex can be taken, so lex_bfs({}) raised IndexError and
is_chordal({}) was False.
---
 pads/lex_bfs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pads/lex_bfs.py b/pads/lex_bfs.py
index b23d0bd..396c165 100644
--- a/pads/lex_bfs.py
+++ b/pads/lex_bfs.py
@@ -22,7 +22,7 @@ def lex_bfs(G):
     Running time is O(n+m) and additional space usage over G is O(n).
     """
     P = PartitionRefinement(G)
-    S = Sequence(P, key=id)
+    S = Sequence((part for part in P if part), key=id)
     while S:
         set = S[0]
         v = arbitrary_item(set)
-- 
2.43.0


From 10b486dcc2826802e2ab8515c9bb9ed596c2031a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:31:04 +0000
Subject: [PATCH 39/56] fix: RegExp accepting extra strings when the expression
 matches the empty string

The start states were made accepting when an expression matched the empty
string.  A start state can be entered again later, for instance after the
first symbol of (a*b)*, so the string a was accepted by that expression.
Make the dead-end accepting state one of the start states instead.
---
 pads/automata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pads/automata.py b/pads/automata.py
index 10d7e72..553d491 100644
--- a/pads/automata.py
+++ b/pads/automata.py
@@ -404,7 +404,7 @@ class RegExp(NFA):
             self.successor[state].add(final)
         self.final = frozenset([final])
         if epsilon:
-            self.final = self.final | self.initial
+            self.initial = self.initial | self.final
 
     def transition(self, state, c):
         """Implement NFA transition function."""
-- 
2.43.0


From 6d79769979e1250a9631beb4f59d6e2f991b6856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:31:07 +0000
Subject: [PATCH 40/56] fix: DFA minimization merging inequivalent states

A part taken from the queue could be split by its own first symbols.  The
remaining symbols then only saw one of its halves, and the other half was
never queued.  Loop over a copy of the part.
---
 pads/automata.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pads/automata.py b/pads/automata.py
index 553d491..8bda033 100644
--- a/pads/automata.py
+++ b/pads/automata.py
@@ -599,6 +599,7 @@ class _MinimumDFA(DFA):
         while unrefined:
             part = arbitrary_item(unrefined)
             unrefined.remove(part)
+            part = list(part)   # may be split while we loop through symbols
             for symbol in D.alphabet:
                 neighbors = set()
                 for state in part:
-- 
2.43.0


From 6016c802a62250096cfe62e96a18c4fae7701ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:42:02 +0000
Subject: [PATCH 41/56] fix: report truncated graph files as format errors

Node edge lists and LEDA files that ended early made the parser raise
StopIteration, which silently ends a generator that reads several files.
---
 pads/read_undirected_graph.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/pads/read_undirected_graph.py b/pads/read_undirected_graph.py
index 689c37b..34ebce2 100644
--- a/pads/read_undirected_graph.py
+++ b/pads/read_undirected_graph.py
@@ -156,7 +156,7 @@ def readNodeEdgeList(lines):
 
     def addEdge(line, id):
         u = line
-        v = next(lines)
+        v = next(lines, '//')
         if v.startswith('//'):
             raise GraphFormatError('Missing edge endpoint in node edge list')
         edge(G, u, v, id)
@@ -170,7 +170,7 @@ def readNodeEdgeList(lines):
         if id in EdgeNames:
             raise GraphFormatError('Edge name "%s" used twice in node edge'
                                    ' list' % id)
-        addEdge(next(lines), id)
+        addEdge(next(lines, '//'), id)
         EdgeNames[id] = id
 
     def noActionYet(line):
@@ -380,18 +380,24 @@ def ledaLines(lines):
 def readLeda(lines):
     """Parse filtered LEDA.GRAPH format file."""
     lines = iter(lines)
+
+    def nextLine():
+        for line in lines:
+            return line
+        raise GraphFormatError('Unexpected end of LEDA.GRAPH file')
+
     for i in range(3):
-        next(lines)			    # skip header lines
+        nextLine()			    # skip header lines
     G = graph()
 
-    n = graphNum(next(lines))  # number of vertices
+    n = graphNum(nextLine())  # number of vertices
     for i in range(n):
         vertex(G, i + 1)
-        next(lines)			    # skip LEDA data
+        nextLine()			    # skip LEDA data
 
-    m = graphNum(next(lines))  # number of edges
+    m = graphNum(nextLine())  # number of edges
     for i in range(m):
-        words = next(lines).split()
+        words = nextLine().split()
         if len(words) < 4:
             raise GraphFormatError('Too few fields in LEDA.GRAPH edge %d'
                                    % (i + 1))
-- 
2.43.0


From 03aefa09dde52c3bbfc5da69e3e65d64110263a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:42:05 +0000
Subject: [PATCH 42/56] fix: report graph6 data without a size as a format
 error

Empty, truncated or unprintable graph6 and sparse6 data raised ValueError,
IndexError or TypeError instead of GraphFormatError.
---
 pads/read_undirected_graph.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pads/read_undirected_graph.py b/pads/read_undirected_graph.py
index 34ebce2..57f1bb2 100644
--- a/pads/read_undirected_graph.py
+++ b/pads/read_undirected_graph.py
@@ -253,7 +253,7 @@ def readGraphML(lines):
 def graph6data(str):
     """Convert graph6 character sequence to 6-bit integers."""
     v = [ord(c) - 63 for c in str]
-    if min(v) < 0 or max(v) > 63:
+    if v and (min(v) < 0 or max(v) > 63):
         return None
     return v
 
@@ -263,6 +263,8 @@ def graph6n(data):
     value, rest of seq.
 
     """
+    if not data or (data[0] == 63 and len(data) < 4):
+        raise GraphFormatError('Number of vertices missing in graph6')
     if data[0] <= 62:
         return data[0], data[1:]
     return (data[1] << 12) + (data[2] << 6) + data[3], data[4:]
-- 
2.43.0


From 092f673a72d52407a683a2b3112b3133288b503a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:16:59 +0000
Subject: [PATCH 43/56] fix: report unfillable rows, columns and squares as bad
 sudokus

The subproblem rule crashed with a TypeError or IndexError when the digits
of a group could not all be placed, because it then received the group's
whole graph instead of a map of forced placements.
---
 pads/sudoku.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pads/sudoku.py b/pads/sudoku.py
index 72b1f2e..a00e822 100644
--- a/pads/sudoku.py
+++ b/pads/sudoku.py
@@ -20,7 +20,7 @@ import random
 import sys
 from optparse import OptionParser
 
-from .bipartite_matching import imperfections
+from .bipartite_matching import imperfections, matching
 from .repetitivity import NonrepetitiveGraph
 from .wrap import wrap
 from ._not import Not
@@ -769,6 +769,8 @@ def subproblem(grid):
                 bit = locs & ~ (locs - 1)
                 graph[d].append(unmask[bit])
                 locs &= ~ bit
+        if len(matching(graph)[0]) != len(graph):
+            raise BadSudoku("no place for some digit in {}".format(g.name))
         imp = imperfections(graph)
         for d in list(imp.keys()):
             if not imp[d]:
-- 
2.43.0


From 17162c544649cc79a4b15d0b0d370219684ba0d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:17:02 +0000
Subject: [PATCH 44/56] fix: keep eliminated placements in backtracking
 branches

Each branch of the search was rebuilt from the filled cells alone.  It
forgot the placements already excluded, so it could produce solutions
that the grid had ruled out.
---
 pads/sudoku.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pads/sudoku.py b/pads/sudoku.py
index a00e822..ed81752 100644
--- a/pads/sudoku.py
+++ b/pads/sudoku.py
@@ -1602,6 +1602,7 @@ def all_solutions(grid, fastrules=True):
         branch.logstream = grid.logstream
         branch.steps = grid.steps
         branch.original_cells = grid.original_cells
+        branch.locations = list(grid.locations)
         branch.place(d, c, "The backtracking search will try this placement"
                      " first. Then, after returning from this branch,"
                      " it will try preventing this placement.")
-- 
2.43.0


From 61c2b24db0001ec6d3c0c372f253a78ee90f77d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:19:32 +0000
Subject: [PATCH 45/56] fix: separate the printed puzzle from its solution

The blank line between them was never printed because print is now a
function and was not called.
---
 pads/sudoku.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pads/sudoku.py b/pads/sudoku.py
index ed81752..03a680f 100644
--- a/pads/sudoku.py
+++ b/pads/sudoku.py
@@ -1816,7 +1816,7 @@ if __name__ == '__main__':
         print_level = outputter(puzzle)
 
     if options.output_both and print_level:
-        print
+        print()
 
     if options.backtrack:
         solns = all_solutions(puzzle, False)
-- 
2.43.0


From 62e331f0303ac4524a3987404279c7af1d2d2edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:23:21 +0000
Subject: [PATCH 46/56] fix: do not replace sequence items by others with the
 same key

---
 pads/sequence.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/pads/sequence.py b/pads/sequence.py
index 38bc354..e1da60d 100644
--- a/pads/sequence.py
+++ b/pads/sequence.py
@@ -71,9 +71,7 @@ class Sequence:
         """Apply supplied key function."""
         if not self._key:
             return x
-        key = self._key(x)
-        self._items[key] = x
-        return key
+        return self._key(x)
 
     def _insafter(self, x, y):
         """Unkeyed version of insertAfter."""
@@ -85,13 +83,14 @@ class Sequence:
 
     def append(self, x):
         """Add x to the end of the sequence."""
-        x = self.key(x)
+        item, x = x, self.key(x)
         if not self._next:  # add to empty sequence
             self._next = {x: x}
             self._prev = {x: x}
             self._first = x
         else:
             self._insafter(self._prev[self._first], x)
+        self._items[x] = item
 
     def remove(self, x):
         """Remove x from the sequence."""
@@ -101,19 +100,21 @@ class Sequence:
         self._prev[next] = prev
         if x == self._first:
             self._first = next
-        del self._next[x], self._prev[x]
+        del self._next[x], self._prev[x], self._items[x]
 
     def insertAfter(self, x, y):
         """Add y after x in the sequence."""
-        y = self.key(y)
+        item, y = y, self.key(y)
         x = self.key(x)
         self._insafter(x, y)
+        self._items[y] = item
 
     def insertBefore(self, x, y):
         """Add y before x in the sequence."""
-        y = self.key(y)
+        item, y = y, self.key(y)
         x = self.key(x)
         self._insafter(self._prev[x], y)
+        self._items[y] = item
         if self._first == x:
             self._first = y
 
-- 
2.43.0


From cf6de777a46d020ca71d9bb43170760789649f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:28:45 +0000
Subject: [PATCH 47/56] fix: report XML errors in GraphML files as format
 errors

A truncated or otherwise not well-formed GraphML file raised the parser's
own error instead of GraphFormatError.
---
 pads/read_undirected_graph.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pads/read_undirected_graph.py b/pads/read_undirected_graph.py
index 57f1bb2..6d5fd29 100644
--- a/pads/read_undirected_graph.py
+++ b/pads/read_undirected_graph.py
@@ -240,9 +240,12 @@ def readGraphML(lines):
     p = xml.parsers.expat.ParserCreate()
     p.StartElementHandler = start_element
     p.EndElementHandler = end_element
-    for line in lines:
-        p.Parse(line + '\n')
-    p.Parse("", 1)
+    try:
+        for line in lines:
+            p.Parse(line + '\n')
+        p.Parse("", 1)
+    except xml.parsers.expat.ExpatError as e:
+        raise GraphFormatError('Not well-formed in GraphML: %s' % e)
     return G
 
 
-- 
2.43.0


From e0b73116f7e7e65c6bbd989a72c1cbe734ca27e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:28:48 +0000
Subject: [PATCH 48/56] fix: refuse self-loops and unknown vertices in LEDA
 files

Edges not directed from a smaller to a larger vertex were skipped without
looking at them, so self-loops and some unknown vertices went unnoticed.
---
 pads/read_undirected_graph.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pads/read_undirected_graph.py b/pads/read_undirected_graph.py
index 6d5fd29..21a3dc7 100644
--- a/pads/read_undirected_graph.py
+++ b/pads/read_undirected_graph.py
@@ -412,7 +412,11 @@ def readLeda(lines):
         if not reversal:
             raise GraphFormatError('Edge %d is directed in LEDA.GRAPH.'
                                    % (i + 1))
-        if source < target:
+        for v in (source, target):
+            if v not in G:
+                raise GraphFormatError('Unexpected vertex %d in LEDA.GRAPH'
+                                       ' edge %d' % (v, i + 1))
+        if source <= target:    # self-loops are refused by edge
             edge(G, source, target, i + 1)
 
     return G
-- 
2.43.0


From 7baeb98a46b7535ead5bf693b5fd5e6db2b5f2f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:28:50 +0000
Subject: [PATCH 49/56] fix: read an empty file as a graph without vertices

An empty file or list of lines raised IndexError, while an empty string
already gave the empty graph.
---
 pads/read_undirected_graph.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pads/read_undirected_graph.py b/pads/read_undirected_graph.py
index 21a3dc7..86c16b2 100644
--- a/pads/read_undirected_graph.py
+++ b/pads/read_undirected_graph.py
@@ -436,6 +436,8 @@ def readUndirectedGraph(arg):
         lines = [arg]
     else:
         lines = list(arg)
+    if not lines:
+        return graph()
 
     # Test out different possible formats,
     # ordered from more distinctive to more ambiguous.
-- 
2.43.0


From 72b3b131590f512b844eab77beff9901305e27ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:42:06 +0000
Subject: [PATCH 50/56] fix: refuse regular expressions with unmatched close
 parens

The parser stopped at an unmatched close paren and silently ignored the
rest of the expression, so 'a)b' was read as 'a'.
---
 pads/automata.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pads/automata.py b/pads/automata.py
index 8bda033..284f1ba 100644
--- a/pads/automata.py
+++ b/pads/automata.py
@@ -399,6 +399,9 @@ class RegExp(NFA):
         self.successor = {}
         self.alphabet = set()
         self.initial, penultimate, epsilon = self.expression()
+        if self.pos < len(self.expr):
+            raise LanguageError("Unmatched close paren at char " +
+                                str(self.pos))
         final = self.newstate(None)
         for state in penultimate:
             self.successor[state].add(final)
-- 
2.43.0


From 59c3ec7045cfc4c1fb61952b5b4e662b8a69d459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:25:09 +0000
Subject: [PATCH 51/56] fix: report contradictory puzzles as impossible instead
 of failing

Without the backtracking option the command-line program ended with a
traceback as soon as a deduction showed that the puzzle had no solution.
It now prints the level and zero solutions, as it does with that option.
---
 pads/sudoku.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pads/sudoku.py b/pads/sudoku.py
index 03a680f..a2b38a7 100644
--- a/pads/sudoku.py
+++ b/pads/sudoku.py
@@ -1821,9 +1821,12 @@ if __name__ == '__main__':
     if options.backtrack:
         solns = all_solutions(puzzle, False)
     else:
-        while step(puzzle):
-            pass
-        solns = [puzzle]
+        try:
+            while step(puzzle):
+                pass
+            solns = [puzzle]
+        except BadSudoku:
+            solns = []  # no solutions
 
     nsolns = 0
     for soln in solns:
-- 
2.43.0


From faafe52bba020e176c5216309224838a0eb4def7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:47:27 +0000
Subject: [PATCH 52/56] fix: find matchings through deeply nested blossoms

The alternating path search called itself once per nested blossom, so
graphs with about a thousand nested blossoms exceeded the recursion limit.
---
 pads/cardinality_matching.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/pads/cardinality_matching.py b/pads/cardinality_matching.py
index 25e7515..4fb4fe7 100644
--- a/pads/cardinality_matching.py
+++ b/pads/cardinality_matching.py
@@ -95,21 +95,27 @@ def matching(G, initial_matching=None):
             an alternating path to the structure tree root.
             """
             path = []
+            stack = []  # outer paths to return to: (path, goal, next vertex)
             while 1:
-                while start in T:
+                if start in T:
                     v, w = base[start]
-                    vs = alternating_path(v, start)
-                    vs.reverse()
-                    path += vs
-                    start = w
+                    stack.append((path, goal, w))
+                    path, goal, start = [], start, v
+                    continue
                 path.append(start)
                 if start not in matching:
                     return path     # reached top of structure tree, done!
                 tnode = matching[start]
                 path.append(tnode)
-                if tnode == goal:
-                    return path     # finished recursive subpath
-                start = T[tnode]
+                if tnode != goal:
+                    start = T[tnode]
+                    continue
+                if not stack:
+                    return path
+                vs = path           # finished subpath, back to outer path
+                path, goal, start = stack.pop()
+                vs.reverse()
+                path += vs
 
         def alternate(v):
             """Make v unmatched by alternating the path to the root of its
-- 
2.43.0


From dc857240e60bc8a7e1bd29980b2faa597d004c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:48:16 +0000
Subject: [PATCH 53/56] fix: pack long chains of circles without exceeding the
 recursion limit

Placing a circle recursed into each of its newly placed neighbours, so a
packing with about a thousand interior circles in a row failed.
---
 pads/circle_pack.py | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/pads/circle_pack.py b/pads/circle_pack.py
index f16898b..c6273fa 100644
--- a/pads/circle_pack.py
+++ b/pads/circle_pack.py
@@ -138,20 +138,23 @@ def flower(radius, center, cycle):
 
 
 def place(placements, radii, internal, center):
-    """Recursively find centers of all circles surrounding k"""
-    if center not in internal:
-        return
-    cycle = internal[center]
-    for i in range(-len(cycle), len(cycle) - 1):
-        if cycle[i] in placements and cycle[i + 1] not in placements:
-            s, t = cycle[i], cycle[i + 1]
-            theta = acxyz(radii[center], radii[s], radii[t])
-            offset = (placements[s] - placements[center]) / \
-                (radii[s] + radii[center])
-            offset *= e**(-1j * theta)
-            placements[t] = placements[center] + \
-                offset * (radii[t] + radii[center])
-            place(placements, radii, internal, t)
+    """Find centers of all circles surrounding center, and around those"""
+    unfinished = [center]
+    while unfinished:
+        center = unfinished.pop()
+        if center not in internal:
+            continue
+        cycle = internal[center]
+        for i in range(-len(cycle), len(cycle) - 1):
+            if cycle[i] in placements and cycle[i + 1] not in placements:
+                s, t = cycle[i], cycle[i + 1]
+                theta = acxyz(radii[center], radii[s], radii[t])
+                offset = (placements[s] - placements[center]) / \
+                    (radii[s] + radii[center])
+                offset *= e**(-1j * theta)
+                placements[t] = placements[center] + \
+                    offset * (radii[t] + radii[center])
+                unfinished.append(t)
 
 
 def testgrid(packing, k, z, r, q, g):
-- 
2.43.0


From 9d0ee82e98bfb213a0df901d5a48e8bef6450303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:36:37 +0000
Subject: [PATCH 54/56] fix: read graphs from strings of several lines

readUndirectedGraph accepts a file, a string or a sequence of lines.
A string was treated as one single line, so only the one-line formats
and GraphML could be read from it.  Lines with surrounding white space
were only accepted from a file.  Split strings into lines and strip the
lines in all three cases.
---
 pads/read_undirected_graph.py | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/pads/read_undirected_graph.py b/pads/read_undirected_graph.py
index 86c16b2..d90a59d 100644
--- a/pads/read_undirected_graph.py
+++ b/pads/read_undirected_graph.py
@@ -27,16 +27,10 @@ may be lost.
 
 D. Eppstein, UC Irvine, August 12, 2003.
 """
-from io import IOBase
 import sys
 
-FILE_TYPES = (IOBase)
-
 STR_TYPES = (str)
 
-if sys.version_info < (3, 0):
-    FILE_TYPES += (file, )  # noqa
-
 if sys.version_info < (3, 0):
     STR_TYPES += (unicode, )  # noqa
 
@@ -430,12 +424,9 @@ def readUndirectedGraph(arg):
     """Parse graph and return in modified GvR format.
     Argument may be a file object, a single string, or a sequence of lines.
     """
-    if isinstance(arg, FILE_TYPES):
-        lines = [L.strip() for L in arg]
-    elif isinstance(arg, STR_TYPES):
-        lines = [arg]
-    else:
-        lines = list(arg)
+    if isinstance(arg, STR_TYPES):
+        arg = arg.splitlines()
+    lines = [L.strip() for L in arg]
     if not lines:
         return graph()
 
-- 
2.43.0


From b71ca4b6536b173122e452b0537d2331edf8562c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:36:40 +0000
Subject: [PATCH 55/56] fix: KeyError in the twosat rule for cells with one
 candidate

A cell that is not filled yet and has only one remaining candidate was
left out of the 2-satisfiability instance, but other constraints still
refer to it.  Include every cell that is not filled.
---
 pads/sudoku.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pads/sudoku.py b/pads/sudoku.py
index a2b38a7..60c0fc2 100644
--- a/pads/sudoku.py
+++ b/pads/sudoku.py
@@ -1289,7 +1289,7 @@ def twosat(grid):
 
     # If a cell has value d, it can't also have value e
     for cell in range(81):
-        if len(grid.choices(cell)) > 1:
+        if not grid.contents[cell]:
             for d in grid.choices(cell):
                 T[(cell, d)] = [Not((cell, e))
                                 for e in grid.choices(cell)
@@ -1298,7 +1298,7 @@ def twosat(grid):
 
     # If a cell has value d, its neighbors can't have the same value
     for cell in range(81):
-        if len(grid.choices(cell)) > 1:
+        if not grid.contents[cell]:
             for neighbor in range(81):
                 if cell != neighbor and (1 << neighbor) & neighbors[cell]:
                     for d in grid.choices(cell):
-- 
2.43.0


From 8835fd62fb6ed5c42180609c0a66ba24857ed599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:26:20 +0000
Subject: [PATCH 56/56] fix: read the eight-unit vertex counts of large graph6
 and sparse6 files

---
 pads/read_undirected_graph.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pads/read_undirected_graph.py b/pads/read_undirected_graph.py
index d90a59d..4a10088 100644
--- a/pads/read_undirected_graph.py
+++ b/pads/read_undirected_graph.py
@@ -256,14 +256,21 @@ def graph6data(str):
 
 
 def graph6n(data):
-    """Read initial one or four-unit value from graph6 sequence.  Return
-    value, rest of seq.
+    """Read initial one, four or eight-unit value from graph6 sequence.
+    Return value, rest of seq.
 
     """
     if not data or (data[0] == 63 and len(data) < 4):
         raise GraphFormatError('Number of vertices missing in graph6')
     if data[0] <= 62:
         return data[0], data[1:]
+    if data[1] == 63:
+        if len(data) < 8:
+            raise GraphFormatError('Number of vertices missing in graph6')
+        n = 0
+        for d in data[2:8]:
+            n = (n << 6) + d
+        return n, data[8:]
     return (data[1] << 12) + (data[2] << 6) + data[3], data[4:]
 
 
-- 
2.43.0

