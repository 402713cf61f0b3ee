From 0cf9be9028f0ac96e9cd82f8f7dbaf04e9bc3bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:59 +0000
Subject: [PATCH 01/24] fix: is_probable_prime must not accept 341550071728321
 = 10670053*32010157

Factoring returned this composite as a prime: it is a strong pseudoprime to
every base below 20. Testing the bases up to 41 is exact below 3.3e24.
---
 rosemary/number_theory/primes/primality.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rosemary/number_theory/primes/primality.py b/rosemary/number_theory/primes/primality.py
index cf3a668..969116e 100644
--- a/rosemary/number_theory/primes/primality.py
+++ b/rosemary/number_theory/primes/primality.py
@@ -180,7 +180,9 @@ def is_probable_prime(n):
         Crandall and Pomerance for details.
     """
     # return all(solovay_strassen(n, a) for a in range(2, min(n - 1, 20)))
-    return all(miller_rabin(n, a) for a in range(2, min(n - 1, 20)))
+    # The bases up to 41 decide primality for all n < 3.3e24; the bases below 20
+    # already fail for n = 341550071728321 = 10670053 * 32010157.
+    return all(miller_rabin(n, a) for a in range(2, min(n - 1, 42)))
 
 
 def is_prime(n):
-- 
2.43.0


From 756356b59892f28b9da60a152f2a85370fdd3632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:41 +0000
Subject: [PATCH 02/24] fix: inverse_phi modified its cache while iterating
 over it

It raised RuntimeError for many n (and missed the solution 1 for n = 1).
---
 .../arithmetic_functions/inverse_functions.py              | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/rosemary/number_theory/arithmetic_functions/inverse_functions.py b/rosemary/number_theory/arithmetic_functions/inverse_functions.py
index f914190..ca0ba25 100644
--- a/rosemary/number_theory/arithmetic_functions/inverse_functions.py
+++ b/rosemary/number_theory/arithmetic_functions/inverse_functions.py
@@ -102,17 +102,14 @@ def euler_phi_inverse(n):
 
 def inverse_phi(n):
     prime_list = [a + 1 for a in factor.divisors(n) if primality.is_prime(a + 1)]
-    phi_cache = defaultdict(list)
+    phi_cache = defaultdict(list, {1: [1]})
 
     for p in prime_list[::-1]:
         a = p - 1
         pk = p
 
         while a <= n:
-            if n % a == 0:
-                phi_cache[a] += [pk]
-
-            for b in phi_cache.keys():
+            for b in list(phi_cache.keys()):
                 if a*b > n:
                     continue
                 for x in phi_cache[b]:
-- 
2.43.0


From 690febf3d05a19874b3577a8926d855a8d60af23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:48 +0000
Subject: [PATCH 03/24] fix: divisor_pairs and unitary_divisors for 1, negative
 n and factorizations

divisor_pairs failed for n = 1, for negative n and when only a factorization
was given; unitary_divisors listed 1 twice for n = 1 and failed when only a
factorization was given.
---
 .../number_theory/factorization/factorization.py  | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/rosemary/number_theory/factorization/factorization.py b/rosemary/number_theory/factorization/factorization.py
index 81ef216..19f4f6f 100644
--- a/rosemary/number_theory/factorization/factorization.py
+++ b/rosemary/number_theory/factorization/factorization.py
@@ -187,7 +187,7 @@ def divisors(n=None, factorization=None):
     elif factorization is None:
         factorization = factor(abs(n))
     else:
-        if factorization[0][0] == -1:
+        if factorization and factorization[0][0] == -1:
             factorization = factorization[1:]
 
     p_divisors = [p for (p, e) in factorization]
@@ -234,9 +234,10 @@ def divisor_pairs(n=None, factorization=None):
     elif factorization is None:
         factorization = factor(abs(n))
     else:
-        if factorization[0][0] == -1:
+        if factorization and factorization[0][0] == -1:
             factorization = factorization[1:]
 
+    n = factor_back(factorization)
     div_list = divisors(n, factorization=factorization)
 
     pairs = []
@@ -279,7 +280,7 @@ def prime_divisors(n=None, factorization=None):
     elif factorization is None:
         factorization = factor(abs(n))
     else:
-        if factorization[0][0] == -1:
+        if factorization and factorization[0][0] == -1:
             factorization = factorization[1:]
 
     return [p for (p, e) in factorization]
@@ -312,7 +313,7 @@ def xdivisors(n=None, factorization=None):
     elif factorization is None:
         factorization = factor(abs(n))
     else:
-        if factorization[0][0] == -1:
+        if factorization and factorization[0][0] == -1:
             factorization = factorization[1:]
 
     p_divisors = [p for (p, e) in factorization]
@@ -331,13 +332,13 @@ def unitary_divisors(n=None, factorization=None):
     elif factorization is None:
         factorization = factor(abs(n))
     else:
-        if factorization[0][0] == -1:
+        if factorization and factorization[0][0] == -1:
             factorization = factorization[1:]
 
     pk_divisors = [p**k for (p, k) in factorization]
-    div_list = [1, n]
+    div_list = []
 
-    for i in range(1, len(pk_divisors)):
+    for i in range(len(pk_divisors) + 1):
         for subset in itertools.combinations(pk_divisors, i):
             prod = 1
             for pk in subset:
-- 
2.43.0


From 4cba901d57e24eb70a49326c17690342228cc858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:54 +0000
Subject: [PATCH 04/24] fix: next_prime and next_probable_prime for n < 1

next_prime(0) was 3 and next_probable_prime(0) was 1; the smallest prime
above any n < 2 is 2.
---
 rosemary/number_theory/primes/primality.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rosemary/number_theory/primes/primality.py b/rosemary/number_theory/primes/primality.py
index 969116e..c969aaa 100644
--- a/rosemary/number_theory/primes/primality.py
+++ b/rosemary/number_theory/primes/primality.py
@@ -236,7 +236,7 @@ def next_prime(n):
     >>> next_prime(10**10)
     10000000019
     """
-    if n == 1:
+    if n < 2:
         return 2
 
     n += 1
@@ -259,7 +259,7 @@ def next_probable_prime(n):
     >>> next_probable_prime(10**10)
     10000000019
     """
-    if n == 1:
+    if n < 2:
         return 2
 
     n += 1
-- 
2.43.0


From 5c7dc618d5716ce38b03ac0ee8305a6f7d8c5ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:30 +0000
Subject: [PATCH 05/24] fix: Pell solutions for a perfect square right hand
 side

The class of the trivial solution (sqrt(N), 0) was dropped, so for example
x^2 - 2*y^2 = 4 was reported to have no solutions although (6, 4) is one.
---
 rosemary/number_theory/diophantine_equations/pell.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rosemary/number_theory/diophantine_equations/pell.py b/rosemary/number_theory/diophantine_equations/pell.py
index a30eb0a..82692c9 100644
--- a/rosemary/number_theory/diophantine_equations/pell.py
+++ b/rosemary/number_theory/diophantine_equations/pell.py
@@ -278,6 +278,9 @@ def pell_minimal_positive_solutions(D, N):
                 else:
                     fundamental_solutions.append((x, y))
                     fundamental_solutions.append((-x, y))
+            elif y == 0 and y is not False:
+                # N = x^2, and the class of (x, 0) has a positive solution too.
+                fundamental_solutions.append((-x, y))
 
     # Find the minimal positive solutions for each class.
     minimal_positive_solutions = []
-- 
2.43.0


From 0be76d7ea2791eecc34c6b0ee4c6ec0de4fac55c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:14 +0000
Subject: [PATCH 06/24] fix: gabow compared dictionaries when tied heap entries
 met

---
 rosemary/graphs/algorithms/spanning_trees.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/rosemary/graphs/algorithms/spanning_trees.py b/rosemary/graphs/algorithms/spanning_trees.py
index aad03bd..59f7935 100644
--- a/rosemary/graphs/algorithms/spanning_trees.py
+++ b/rosemary/graphs/algorithms/spanning_trees.py
@@ -1,4 +1,5 @@
 from heapq import heappush, heappop, heapify
+from itertools import count
 from random import choice
 
 from rosemary.data_structures.unionfind import UnionFind, NamedUnionFind
@@ -359,14 +360,16 @@ def gabow(graph, k=None):
     father[root] = root
 
     (exchange_weight, e, f) = find_exchange(father, [], [])
-    heap = [(tree_weight + exchange_weight, e, f, father, [], [])]
+    # The ticket keeps the heap from comparing the rest of tied entries.
+    ticket = count()
+    heap = [(tree_weight + exchange_weight, next(ticket), e, f, father, [], [])]
 
     tree_edges = sorted([(min(x, y), max(x, y)) for (x, y) in father.items() if x != y])
     yield tree_weight, tree_edges
 
     j = 1
     while j < k:
-        (tree_weight, e, f, father, included, excluded) = heappop(heap)
+        (tree_weight, _, e, f, father, included, excluded) = heappop(heap)
 
         if tree_weight == inf:
             return
@@ -388,8 +391,8 @@ def gabow(graph, k=None):
         excluded_j = excluded + [e]
 
         (exchange_weight, e, f) = find_exchange(father, included_i, excluded)
-        heappush(heap, (new_tree_weight + exchange_weight, e, f, father, included_i, excluded))
+        heappush(heap, (new_tree_weight + exchange_weight, next(ticket), e, f, father, included_i, excluded))
 
         (exchange_weight, e, f) = find_exchange(new_father, included, excluded_j)
-        heappush(heap, (tree_weight + exchange_weight, e, f, new_father, included, excluded_j))
+        heappush(heap, (tree_weight + exchange_weight, next(ticket), e, f, new_father, included, excluded_j))
         j += 1
-- 
2.43.0


From bd27ee75c96a2d28a1f0d09a94e212fd99c0317d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:14 +0000
Subject: [PATCH 07/24] fix: UnionFind.union took the parent of an element for
 the root of its set

---
 rosemary/data_structures/unionfind.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/rosemary/data_structures/unionfind.py b/rosemary/data_structures/unionfind.py
index d78a1e8..da66e78 100644
--- a/rosemary/data_structures/unionfind.py
+++ b/rosemary/data_structures/unionfind.py
@@ -122,11 +122,14 @@ class UnionFind(object):
         parent = self.parent
         rank = self.rank
 
-        px = parent[x]
-        py = parent[y]
+        px = self.find(x)
+        py = self.find(y)
+
+        if px == py:
+            return
 
         if rank[px] > rank[py]:
-            x, y = y, x
+            px, py = py, px
 
         if rank[px] == rank[py]:
             rank[py] += 1
-- 
2.43.0


From 8385f3635ccd7a8ff856eb1376bb4ead811ca32e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:25 +0000
Subject: [PATCH 08/24] fix: LeftistHeap of no values

---
 rosemary/data_structures/heaps.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rosemary/data_structures/heaps.py b/rosemary/data_structures/heaps.py
index 891f1a0..5d18e01 100644
--- a/rosemary/data_structures/heaps.py
+++ b/rosemary/data_structures/heaps.py
@@ -120,8 +120,8 @@ class LeftistHeap(object):
             num_values -= 1
             size += 1
 
-        self.root = nodeA
-        self.size = size + 1
+        self.root = nodes[0] if nodes else None
+        self.size = size + 1 if nodes else 0
 
     def __repr__(self):
         return "Leftist heap of size {}.".format(self.size)
-- 
2.43.0


From fe032c4a19b8f1c6f7ee34be7e386c7d51f6f3ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:25 +0000
Subject: [PATCH 09/24] fix: minimum_cost_paths_heuristic looped for ever on a
 terminal already in the tree

---
 rosemary/graphs/algorithms/steiner_trees.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rosemary/graphs/algorithms/steiner_trees.py b/rosemary/graphs/algorithms/steiner_trees.py
index 2f17a78..b4517e7 100644
--- a/rosemary/graphs/algorithms/steiner_trees.py
+++ b/rosemary/graphs/algorithms/steiner_trees.py
@@ -196,7 +196,7 @@ def minimum_cost_paths_heuristic(graph, terminals):
         tree_vertices.add(root)
 
         # Repeat until the tree contains all terminals.
-        while terminal_set:
+        while terminal_set - tree_vertices:
             min_dist = inf
             # Find vertices u and v with minimal distance with v in the
             # tree and u a terminal not in the tree.
-- 
2.43.0


From 8f3b2a5408b66b4ab5cb883683368ec2ff482a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:07 +0000
Subject: [PATCH 10/24] fix: dijkstra_bidirectional from a vertex to itself

---
 rosemary/graphs/algorithms/paths.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rosemary/graphs/algorithms/paths.py b/rosemary/graphs/algorithms/paths.py
index b23ec23..8d582fa 100644
--- a/rosemary/graphs/algorithms/paths.py
+++ b/rosemary/graphs/algorithms/paths.py
@@ -575,6 +575,9 @@ def dijkstra_bidirectional(graph, s, t):
     if t not in graph_dict:
         raise ValueError("dijkstra_bidirectional: {} is not a vertex of graph.".format(t))
 
+    if s == t:
+        return 0, [s]
+
     # Search forward from `s`.
     forward_search = dijkstra_iterator(graph, s)
     forward_estimate = {}
-- 
2.43.0


From 8d08eda7ecb0a614f838673f547b1873c7748abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:34 +0000
Subject: [PATCH 11/24] fix: korman failed when no uncolored vertex had a
 neighbor

---
 rosemary/graphs/algorithms/coloring.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rosemary/graphs/algorithms/coloring.py b/rosemary/graphs/algorithms/coloring.py
index 91b7c4b..7b80f84 100644
--- a/rosemary/graphs/algorithms/coloring.py
+++ b/rosemary/graphs/algorithms/coloring.py
@@ -565,8 +565,8 @@ def korman(graph, classes=True):
 
         while idx >= clique_size:
             if find_next_s:
-                max_adj = 0
-                max_deg = 0
+                max_adj = -1
+                max_deg = -1
                 for u in uncolored:
                     adjacent_colors = {color[v] for v in graph_dict[u]}
                     num_adjacent = len(adjacent_colors)
-- 
2.43.0


From 0fa0a76b78c2bf93df0f0e2912f4f2d44c53c923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:34 +0000
Subject: [PATCH 12/24] fix: branch_and_bound coloring returned no coloring
 when all vertices need their own color

---
 rosemary/graphs/algorithms/coloring.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rosemary/graphs/algorithms/coloring.py b/rosemary/graphs/algorithms/coloring.py
index 7b80f84..8b785b9 100644
--- a/rosemary/graphs/algorithms/coloring.py
+++ b/rosemary/graphs/algorithms/coloring.py
@@ -453,7 +453,7 @@ def branch_and_bound(graph, classes=True):
             return best_number
 
     vertices = graph.vertices()
-    best = [len(vertices), []]
+    best = [len(vertices), {u: i for i, u in enumerate(vertices, 1)}]
 
     # color_map and uncolored are global data structure used by the
     # recursive method.
-- 
2.43.0


From 2de85a47c017a273f1d8a3e34fa7f51b34ddded9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:34 +0000
Subject: [PATCH 13/24] fix: culberson returned an empty set when only isolated
 vertices remain

---
 rosemary/graphs/algorithms/independent_sets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rosemary/graphs/algorithms/independent_sets.py b/rosemary/graphs/algorithms/independent_sets.py
index 65867d2..6d647ab 100644
--- a/rosemary/graphs/algorithms/independent_sets.py
+++ b/rosemary/graphs/algorithms/independent_sets.py
@@ -159,7 +159,7 @@ def culberson(graph):
             return (0, 0, [])
 
         max_size = 0
-        max_deg = 0
+        max_deg = -1
         max_set = []
 
         vertices[0], vertices[-1] = vertices[-1], vertices[0]
-- 
2.43.0


From 588f5eaebfe56d71416635ad6707582d8f2d4dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:51 +0000
Subject: [PATCH 14/24] fix: steepest_ascent_two_opt started from a tour costed
 without its distance matrix

---
 rosemary/combinatorics/optimization/tsp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rosemary/combinatorics/optimization/tsp.py b/rosemary/combinatorics/optimization/tsp.py
index db73df8..41b9234 100644
--- a/rosemary/combinatorics/optimization/tsp.py
+++ b/rosemary/combinatorics/optimization/tsp.py
@@ -227,7 +227,7 @@ def steepest_ascent_two_opt(points, distance_matrix=None):
         distance_matrix = euclidean_distance_matrix(points)
 
     num_points = len(points)
-    best_cost, best_sol = farthest_insertion(points)
+    best_cost, best_sol = farthest_insertion(points, distance_matrix)
 
     def G(X, i, j):
         xi = X[i]
-- 
2.43.0


From 09f5625b7ee8193b6c800bdc0ae5721cf51b6f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:58 +0000
Subject: [PATCH 15/24] fix: acceptance test of simulated_annealing_two_opt had
 the wrong sign and failed for a draw of 0

---
 rosemary/combinatorics/optimization/tsp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rosemary/combinatorics/optimization/tsp.py b/rosemary/combinatorics/optimization/tsp.py
index 41b9234..729e8bb 100644
--- a/rosemary/combinatorics/optimization/tsp.py
+++ b/rosemary/combinatorics/optimization/tsp.py
@@ -356,7 +356,7 @@ def simulated_annealing_two_opt(points, distance_matrix=None):
             else:
                 r = random.random()
                 diff = cost_new - cost_old
-                if math.log(r) < diff/temp:
+                if r < math.exp(-diff/temp):
                     sol = new_sol
 
             temp *= alpha
-- 
2.43.0


From 5457b5e4f4de2f18642f996eabb9749f441f65e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:58 +0000
Subject: [PATCH 16/24] fix: genetic TravelingSalesman returned the second best
 individual instead of the best tour

---
 rosemary/combinatorics/optimization/genetic_tsp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rosemary/combinatorics/optimization/genetic_tsp.py b/rosemary/combinatorics/optimization/genetic_tsp.py
index c031643..77bc74a 100755
--- a/rosemary/combinatorics/optimization/genetic_tsp.py
+++ b/rosemary/combinatorics/optimization/genetic_tsp.py
@@ -166,7 +166,7 @@ class TravelingSalesman(object):
             current_cost = population[0][0]
 
             if current_cost < best_cost:
-                Xbest = list(population[1])
+                Xbest = list(population[0][1])
                 best_cost = current_cost
                 print(c, best_cost)
 
-- 
2.43.0


From a0941b92665653eee2b1355390005f774bf143e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:02 +0000
Subject: [PATCH 17/24] fix: load_graph and load_dimacs_graph left the file
 open

---
 rosemary/graphs/graphs.py | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/rosemary/graphs/graphs.py b/rosemary/graphs/graphs.py
index 7cdcb77..7cf411f 100644
--- a/rosemary/graphs/graphs.py
+++ b/rosemary/graphs/graphs.py
@@ -1128,12 +1128,11 @@ def load_dimacs_graph(path):
         0.5033895582329317
     """
     graph = Graph()
-    f = open(path, 'r')
-
-    for line in f:
-        if line.startswith('e'):
-            (u, v) = [int(e) for e in line.split(' ')[1:]]
-            graph.add_edge(u, v)
+    with open(path, 'r') as f:
+        for line in f:
+            if line.startswith('e'):
+                (u, v) = [int(e) for e in line.split(' ')[1:]]
+                graph.add_edge(u, v)
 
     return graph
 
@@ -1160,11 +1159,10 @@ def load_graph(path):
         0.5008368368368369
     """
     graph = Graph()
-    f = open(path, 'r')
-
-    for line in f:
-        (u, v) = [int(e) for e in line.split(' ')]
-        graph.add_edge(u, v)
+    with open(path, 'r') as f:
+        for line in f:
+            (u, v) = [int(e) for e in line.split(' ')]
+            graph.add_edge(u, v)
 
     return graph
 
-- 
2.43.0


From a4e871e8e8c552ecd60a4fa65b042f090d517511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:38 +0000
Subject: [PATCH 18/24] fix: walks of length 0, hence
 number_of_hamiltonian_paths5 of a single vertex

---
 rosemary/graphs/algorithms/hamiltonian_paths.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/rosemary/graphs/algorithms/hamiltonian_paths.py b/rosemary/graphs/algorithms/hamiltonian_paths.py
index d5f1f7a..9fd89ea 100644
--- a/rosemary/graphs/algorithms/hamiltonian_paths.py
+++ b/rosemary/graphs/algorithms/hamiltonian_paths.py
@@ -236,10 +236,9 @@ def walks(graph, a, n, allowed):
     neighbors = {u: graph.neighbors(u) & allowed for u in allowed}
 
     num_walks = {u: 0 for u in allowed}
-    for u in neighbors[a]:
-        num_walks[u] += 1
+    num_walks[a] = 1
 
-    for i in range(n - 1):
+    for i in range(n):
         num_walks2 = {u: 0 for u in allowed}
         for u in allowed:
             for v in neighbors[u]:
-- 
2.43.0


From b69f987cf1514e22c1b944981ecc45495a5e5d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:40 +0000
Subject: [PATCH 19/24] fix: number_of_hamiltonian_paths5_con summed over the
 wrong vertex sets

---
 rosemary/graphs/algorithms/hamiltonian_paths.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/rosemary/graphs/algorithms/hamiltonian_paths.py b/rosemary/graphs/algorithms/hamiltonian_paths.py
index 9fd89ea..af10d1c 100644
--- a/rosemary/graphs/algorithms/hamiltonian_paths.py
+++ b/rosemary/graphs/algorithms/hamiltonian_paths.py
@@ -278,13 +278,20 @@ def number_of_hamiltonian_paths5_con(graph):
     vertices = graph.vertices()
     n = len(vertices)
 
+    def is_dominating(allowed):
+        return all(u in allowed or graph.neighbors(u) & allowed for u in vertices)
+
+    # Only connected dominating sets contribute: the walks inside a component C
+    # of the allowed vertices cancel over all sets which have C as a component,
+    # unless every vertex outside of C is adjacent to C.
     def extend(partial, idx):
-        if is_connected2(graph, graph.vertex_set() - set(partial)):
+        allowed = set(partial)
+        if is_connected2(graph, allowed) and is_dominating(allowed):
             yield partial
 
-            for i in range(idx, n):
-                for foo in extend(partial + [vertices[i]], i + 1):
-                    yield foo
+        for i in range(idx, n):
+            for foo in extend(partial + [vertices[i]], i + 1):
+                yield foo
 
     total = 0
     for allowed in extend([], 0):
-- 
2.43.0


From 9c0814b36fde4264ee152f981e8495d189c326bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:13 +0000
Subject: [PATCH 20/24] fix: Matrix.determinant modified the matrix

---
 rosemary/algebra/matrices/matrices.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rosemary/algebra/matrices/matrices.py b/rosemary/algebra/matrices/matrices.py
index 25b6d00..a38311b 100644
--- a/rosemary/algebra/matrices/matrices.py
+++ b/rosemary/algebra/matrices/matrices.py
@@ -313,7 +313,7 @@ class Matrix(object):
         if nrows != ncols:
             raise ValueError("Determinant only defined for square matrices.")
 
-        m = self.__entries
+        m = [list(row) for row in self.__entries]
 
         for k in range(ncols):
             pivot = m[k][k]
-- 
2.43.0


From 347657d9d8cb07a79b8e5d6278dd431475c71913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:13 +0000
Subject: [PATCH 21/24] fix: Matrix shared its rows with the caller's lists and
 with delete_row

---
 rosemary/algebra/matrices/matrices.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rosemary/algebra/matrices/matrices.py b/rosemary/algebra/matrices/matrices.py
index a38311b..5a3cb35 100644
--- a/rosemary/algebra/matrices/matrices.py
+++ b/rosemary/algebra/matrices/matrices.py
@@ -34,7 +34,7 @@ class Matrix(object):
             if isinstance(m, int):
                 entries = [[0]*m for _ in range(m)]
             else:
-                entries = list(m)
+                entries = [list(row) for row in m]
         elif isinstance(n, int):
             entries = [[0]*n for _ in range(m)]
 
-- 
2.43.0


From 27736a198920b7dc6047d0ecd0dde9f821b9117b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:20 +0000
Subject: [PATCH 22/24] fix: dijkstra_iterator built later paths from the list
 it had handed out

---
 rosemary/graphs/algorithms/paths.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rosemary/graphs/algorithms/paths.py b/rosemary/graphs/algorithms/paths.py
index 8d582fa..7d230c5 100644
--- a/rosemary/graphs/algorithms/paths.py
+++ b/rosemary/graphs/algorithms/paths.py
@@ -190,7 +190,7 @@ def dijkstra_iterator(graph, s):
             continue
         add_to_visited(u)
 
-        yield u, w, path
+        yield u, w, list(path)
 
         for v in graph_dict[u]:
             new_estimate = w + graph_dict[u][v]
-- 
2.43.0


From 69cb729c32baa61831cc5dfe0870716ab863de23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:27 +0000
Subject: [PATCH 23/24] fix: largest_divisor always raised AttributeError, and
 combined prime powers wrongly

---
 rosemary/number_theory/misc.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/rosemary/number_theory/misc.py b/rosemary/number_theory/misc.py
index 8342082..dc1c53f 100644
--- a/rosemary/number_theory/misc.py
+++ b/rosemary/number_theory/misc.py
@@ -1,6 +1,6 @@
 # Miscellaneous number theoretic functions
 
-import rosemary.number_theory.factorization
+import rosemary.number_theory.factorization.factorization
 
 from rosemary.number_theory.prime_list import _PRIME_LIST
 from fractions import Fraction
@@ -31,13 +31,10 @@ def largest_divisor(n, b):
     if n % target == 0:
         return target
 
-    n_factorization = rosemary.number_theory.factorization.factor(n)
+    n_factorization = rosemary.number_theory.factorization.factorization.factor(n)
     L = []
     for (p, e) in n_factorization:
-        pp = p
-        for _ in range(e):
-            L.append(pp)
-            pp *= p
+        L.extend([p]*e)
 
     k = len(L) // 2
     P1 = L[:k]
-- 
2.43.0


From 141e77b4918adafa6596ef3354ca1ca8728b32b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:04 +0000
Subject: [PATCH 24/24] fix: kruskal and cheriton_tarjan failed on graphs that
 are not connected

---
 rosemary/graphs/algorithms/spanning_trees.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/rosemary/graphs/algorithms/spanning_trees.py b/rosemary/graphs/algorithms/spanning_trees.py
index 59f7935..3b90ed9 100644
--- a/rosemary/graphs/algorithms/spanning_trees.py
+++ b/rosemary/graphs/algorithms/spanning_trees.py
@@ -181,8 +181,9 @@ def kruskal(graph):
     find = X.find
     union = X.union
 
-    # A tree on n vertices has n - 1 edges, so break when finished.
-    while num_edges < num_vertices - 1:
+    # A tree on n vertices has n - 1 edges, so break when finished. If the graph
+    # is not connected, we run out of edges before that.
+    while edges and num_edges < num_vertices - 1:
         (weight, u, v) = heappop(edges)
         if find(u) != find(v):
             edge = min(u, v), max(u, v)
@@ -249,11 +250,11 @@ def cheriton_tarjan(graph):
             triples.append((weight, u, v))
         PQ[u] = LeftistHeap(triples)
 
-    while num_edges < num_vertices - 1:
+    while PQ and num_edges < num_vertices - 1:
         u = choice(list(PQ.keys()))
         Tu = find(u)
 
-        while True:
+        while PQ[Tu]:
             (_, x, y) = PQ[Tu].delete_min()
             Tx = find(x)
             Ty = find(y)
@@ -266,6 +267,10 @@ def cheriton_tarjan(graph):
             else:
                 Tv = Tx
             break
+        else:
+            # No edges leave this tree, so it spans its component.
+            del PQ[Tu]
+            continue
 
         union(Tu, Tv)
         u = find(Tu)
-- 
2.43.0

