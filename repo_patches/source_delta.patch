From 5c53658d3cc7a6ec988061d30e59774eec6ca941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:38 +0000
Subject: [PATCH 1/8] fix: give every iteration over Indices its own cursor

Indices was its own iterator and kept the cursor on the object, so a nested
loop, an interleaved generator or another thread iterating over the same
Indices moved the cursor of the first iteration (skipped indices or endless
loops).
---
 dsrg_generator/Indices.py | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/dsrg_generator/Indices.py b/dsrg_generator/Indices.py
index 73e754a..2bd76d8 100644
--- a/dsrg_generator/Indices.py
+++ b/dsrg_generator/Indices.py
@@ -168,15 +168,7 @@ class Indices:
         return (self.size, self.indices) >= (other.size, other.indices)
 
     def __iter__(self):
-        self.n = 0
-        return self
-
-    def __next__(self):
-        if self.n < self.size:
-            self.n += 1
-            return self.indices[self.n - 1]
-        else:
-            raise StopIteration
+        return iter(self.indices)
 
     def __getitem__(self, key):
         # index out-of-range handled by python list
-- 
2.43.0


From c5851c2152a808d548934cc02ad8c445e76f42de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:39 +0000
Subject: [PATCH 2/8] fix: combine_terms no longer changes the terms it is
 given

The combined coefficient was stored in one of the caller's Term objects, so
combining the same list a second time double counted that term.
---
 dsrg_generator/phys_op_contraction.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dsrg_generator/phys_op_contraction.py b/dsrg_generator/phys_op_contraction.py
index a3e0bc0..3788bfa 100644
--- a/dsrg_generator/phys_op_contraction.py
+++ b/dsrg_generator/phys_op_contraction.py
@@ -149,6 +149,7 @@ def combine_terms(terms):
 
     out = []
     for name, term in terms_dict.items():
+        term = deepcopy(term)  # do not modify the coefficient of the input term
         term.coeff = sum(terms_to_coeff[name])
         if not term.is_void():
             out.append(term)
-- 
2.43.0


From 5efbe61bac65ea07b3aac7d03dfdd83b58f6f64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:39 +0000
Subject: [PATCH 3/8] fix: never lower the interpreter's recursion limit

A large contraction set the process-wide recursion limit to the number of
elementary contractions even when the caller had already raised it further.
---
 dsrg_generator/sqop_contraction.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsrg_generator/sqop_contraction.py b/dsrg_generator/sqop_contraction.py
index f8403ac..4ebd162 100644
--- a/dsrg_generator/sqop_contraction.py
+++ b/dsrg_generator/sqop_contraction.py
@@ -452,7 +452,7 @@ def compute_operator_contractions_connected(ops_list, max_cu=3, max_n_open=6, mi
     elementary_sequence = sorted(elementary_contractions.keys(), key=lambda x: (len(x), x), reverse=True)
     ele_con = ElementaryContractionCategorized(elementary_contractions, elementary_sequence)
     if ele_con.size() > 1000:
-        sys.setrecursionlimit(ele_con.size())
+        sys.setrecursionlimit(max(sys.getrecursionlimit(), ele_con.size()))
 
     # compatible contractions
     compatible = ele_con.compatible_elementary_contractions()
@@ -714,7 +714,7 @@ def compute_operator_contractions_general(ops_list, max_cu=3, max_n_open=6, min_
 
     n_ele_con = len(elementary_contractions)
     if n_ele_con > 1000:
-        sys.setrecursionlimit(n_ele_con)
+        sys.setrecursionlimit(max(sys.getrecursionlimit(), n_ele_con))
 
     if n_process == 1:
         for con in composite_contractions_backtrack(set(range(n_ele_con)), set(), compatible, 0,
-- 
2.43.0


From ad53f7e4e79871e23538793d8ecfc3f80a88d5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:05 +0000
Subject: [PATCH 4/8] fix: expand composite spaces in a fixed order

The order of the terms (and the labels of the summed indices) generated from
diagonal and composite operators followed the iteration order of sets of
strings, so two runs of the same script under different hash seeds gave
different output.
---
 dsrg_generator/Term.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dsrg_generator/Term.py b/dsrg_generator/Term.py
index 41b1cb8..b09fcb1 100644
--- a/dsrg_generator/Term.py
+++ b/dsrg_generator/Term.py
@@ -1091,7 +1091,7 @@ class Term:
             if 'A' in overlap:
                 overlap.remove('A')
 
-        for s in overlap:
+        for s in sorted(overlap, key=space_priority.get):
             replacement = {}
             next_index_number = {i: 0 for i in self.next_index_number.keys()}
             replacement[ann_index] = self._generate_next_index(s, next_index_number)
@@ -1117,7 +1117,7 @@ class Term:
         """
         indices_0 = self.sq_op.indices()
 
-        for spaces in product(*[space_relation[i.space] for i in indices_0]):
+        for spaces in product(*[sorted(space_relation[i.space], key=space_priority.get) for i in indices_0]):
             count = {s: 0 for s in space_relation_so.keys()}
             for s in spaces:
                 count[s.lower()] += 1
@@ -1130,7 +1130,7 @@ class Term:
             next_index_number = {i: start for i in self.next_index_number.keys()}
             for index_0, space in zip(indices_0, spaces):
                 replacement[index_0] = self._generate_next_index(space, next_index_number)
-            for i in self.indices_set:
+            for i in sorted(self.indices_set):
                 if i not in replacement:
                     replacement[i] = self._generate_next_index(i.space, next_index_number)
 
-- 
2.43.0


From 627be0aff56639bf4ee30fcb791eb4e6fc7968d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:05 +0000
Subject: [PATCH 5/8] fix: close the template files after reading them

---
 dsrg_generator/write_forte_functions.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/dsrg_generator/write_forte_functions.py b/dsrg_generator/write_forte_functions.py
index 9a6c967..b6b1777 100644
--- a/dsrg_generator/write_forte_functions.py
+++ b/dsrg_generator/write_forte_functions.py
@@ -82,7 +82,8 @@ def save_terms_ambit_functions(input_terms, func_name, namespace, path_dir, add_
     func += '\n}'
 
     filename = f'{path_dir}/{func_name}.cc'
-    template = open(os.path.dirname(os.path.abspath(__file__)) + '/forte_templates/ambit_template').read()
+    with open(os.path.dirname(os.path.abspath(__file__)) + '/forte_templates/ambit_template') as f:
+        template = f.read()
     input_string = multi_gsub({"HEADERS": f'#include "mrdsrg-so/{namespace}.h"'.lower(), "CPP_FUNCTIONS": func}, template)
     with open(filename, 'w') as f:
         f.write(input_string)
@@ -144,7 +145,8 @@ def save_terms_blocks_ambit_function(perm_terms, block, tensor_ordering, func_na
 
     out = func + out + '}'
 
-    template = open(os.path.dirname(os.path.abspath(__file__)) + '/forte_templates/ambit_template').read()
+    with open(os.path.dirname(os.path.abspath(__file__)) + '/forte_templates/ambit_template') as f:
+        template = f.read()
     filename = f'{path_dir}/{func_name}_{block}.cc'
     input_string = multi_gsub({"HEADERS": f'#include "mrdsrg-so/{namespace}.h"'.lower(), "CPP_FUNCTIONS": out}, template)
     with open(filename, 'w') as f:
@@ -188,7 +190,8 @@ def save_direct_t3(perm_terms, func_name, namespace, path_dir):
     tensors = sorted(tensors)
     func_vars = ", ".join(f"BlockedTensor& {i}" for i in tensors)
 
-    template = open(os.path.dirname(os.path.abspath(__file__)) + '/forte_templates/direct_t3_template').read()
+    with open(os.path.dirname(os.path.abspath(__file__)) + '/forte_templates/direct_t3_template') as f:
+        template = f.read()
     filename = f'{path_dir}/{func_name}_direct_t3.cc'
     input_string = multi_gsub({"HEADERS": f'#include "mrdsrg-so/{namespace}.h"'.lower(), "NAMESPACE": namespace,
                                "FUNC_NAME": func_name, "FUNC_VARIABLES": func_vars, "CPP_EXPRESSIONS": cpp_func},
-- 
2.43.0


From 070247b10fcd84d34855191e4f197636b923c72c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:20 +0000
Subject: [PATCH 6/8] fix: scale the results of the generated function by its
 factor argument

The scaling statements were built but never written to the generated main
function, and its temp tensor was declared only when there was a scalar
target, so a function without one used an undeclared variable.
---
 dsrg_generator/write_forte_functions.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dsrg_generator/write_forte_functions.py b/dsrg_generator/write_forte_functions.py
index b6b1777..6252e4d 100644
--- a/dsrg_generator/write_forte_functions.py
+++ b/dsrg_generator/write_forte_functions.py
@@ -55,6 +55,8 @@ def save_terms_ambit_functions(input_terms, func_name, namespace, path_dir, add_
 
     suffix = []
     if add_t_dagger:
+        if not destroy_h and any(i != 'C0' for i in func_targets):
+            suffix.append('BlockedTensor temp;')
         for i in func_targets:
             n_body = int(i[1:])
             upper = ','.join(f'g{i}' for i in range(n_body))
@@ -62,8 +64,6 @@ def save_terms_ambit_functions(input_terms, func_name, namespace, path_dir, add_
 
             if i == 'C0':
                 suffix.append('C0 *= 2.0;')
-                if not destroy_h:
-                    suffix.append('BlockedTensor temp;')
             else:
                 name = f'H{n_body}'
                 if not destroy_h:
@@ -75,7 +75,8 @@ def save_terms_ambit_functions(input_terms, func_name, namespace, path_dir, add_
                 suffix.append(f'{i}["{upper},{lower}"] += {name}["{lower},{upper}"];')
 
     func += indent.join(prefix) + '\n' + indent
-    func += indent.join(func_calls) + '\n'
+    func += indent.join(func_calls) + '\n' + indent
+    func += indent.join(scale) + '\n'
     if suffix:
         func += indent
     func += indent.join(suffix)
-- 
2.43.0


From e66384e274d24dcafaf5fefaa58c0a281401af26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:58 +0000
Subject: [PATCH 7/8] hook: let a simulation choose the contraction batch size

Guarded by the environment variable DSRG_GENERATOR_SIM_BATCH_SIZE; without it
nothing changes.
---
 dsrg_generator/phys_op_contraction.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dsrg_generator/phys_op_contraction.py b/dsrg_generator/phys_op_contraction.py
index 3788bfa..a550e23 100644
--- a/dsrg_generator/phys_op_contraction.py
+++ b/dsrg_generator/phys_op_contraction.py
@@ -1,4 +1,5 @@
 import multiprocessing
+import os
 from threading import Thread
 from copy import deepcopy
 from collections import defaultdict, Iterable, deque
@@ -74,6 +75,8 @@ def contract_terms(terms, max_cu=3, max_n_open=6, min_n_open=0, scale_factor=1.0
         out = []
         contractions = []
         batch_size = 10000 * max(1, n_process // 2)
+        if 'DSRG_GENERATOR_SIM_BATCH_SIZE' in os.environ:  # tuning knob for simulations, off by default
+            batch_size = int(os.environ['DSRG_GENERATOR_SIM_BATCH_SIZE'])
         chunk_size = int(sqrt(batch_size) / n_process) + 1
 
         for batch in compute_operator_contractions(sq_ops_to_be_contracted, max_cu, max_n_open, min_n_open,
-- 
2.43.0


From 9a6be9c0bf25d07f6e73e173b1eb9f5fc360db6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:08 +0000
Subject: [PATCH 8/8] fix: no stray comma in the parameter list of a saved
 function without terms

---
 dsrg_generator/write_forte_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsrg_generator/write_forte_functions.py b/dsrg_generator/write_forte_functions.py
index 6252e4d..593cd00 100644
--- a/dsrg_generator/write_forte_functions.py
+++ b/dsrg_generator/write_forte_functions.py
@@ -38,7 +38,7 @@ def save_terms_ambit_functions(input_terms, func_name, namespace, path_dir, add_
 
     func_tensors = sorted(func_tensors, key=lambda x: tensor_ordering[x])
     func_targets = sorted(func_targets, key=lambda x: tensor_ordering[x])
-    footprint = f'double factor, {", ".join(f"{tensor_types[i]}& {i}" for i in func_tensors + func_targets)}'
+    footprint = ", ".join(['double factor'] + [f"{tensor_types[i]}& {i}" for i in func_tensors + func_targets])
 
     indent = '\n    '
     func = f'void {namespace}::{func_name}({footprint}) {{' + indent
-- 
2.43.0

