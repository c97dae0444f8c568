From 67ea99e80c3d370b62899c073ad6955639bb7748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:23 +0000
Subject: [PATCH 01/49] fix: keep the table two-dimensional when a context has
 no objects

---
 fca/context.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fca/context.py b/fca/context.py
index 51dc172..bda139e 100644
--- a/fca/context.py
+++ b/fca/context.py
@@ -242,7 +242,8 @@ class Context(object):
 
         self._objects = _objects
         self._attributes = _attributes
-        self.np_table = np.array(cross_table, dtype=bool)
+        self.np_table = np.array(cross_table, dtype=bool).reshape(
+            len(_objects), len(_attributes))
         self.cross_table = self.np_table.tolist()
         self.object_indices = {obj: ind for ind, obj in enumerate(_objects)}
         self.attribute_indices = {att: ind
-- 
2.43.0


From d2ba4cf2f0bbaa303c298a4d2aa152a1f13aa572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:56 +0000
Subject: [PATCH 02/49] fix: rename until names are distinct when a new name
 collides again

---
 fca/context.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fca/context.py b/fca/context.py
index bda139e..0dca2d7 100644
--- a/fca/context.py
+++ b/fca/context.py
@@ -220,7 +220,7 @@ class Context(object):
                     " columns (=%i) must agree" % (len(attributes),
                         len(cross_table[0])))
         _attributes = attributes[:]
-        if len(set(attributes)) < len(attributes):
+        while len(set(_attributes)) < len(_attributes):
             for att in _attributes:
                 if _attributes.count(att) > 1:
                     indices = [i for i, x in enumerate(_attributes) if x == att]
@@ -230,7 +230,7 @@ class Context(object):
                     message += "renamed to '{}_n', n \in {}".format(att, indices)
                     module_logger.info(message)
         _objects = objects[:]
-        if len(set(objects)) < len(objects):
+        while len(set(_objects)) < len(_objects):
             for obj in _objects:
                 if _objects.count(obj) > 1:
                     indices = [i for i, x in enumerate(_objects) if x == obj]
-- 
2.43.0


From dcac4a64a005e827be1c1c1781a01d7c56353156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:56 +0000
Subject: [PATCH 03/49] fix: delete each attribute once in delete_attributes
 when a name is repeated

---
 fca/context.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fca/context.py b/fca/context.py
index 0dca2d7..1049ffe 100644
--- a/fca/context.py
+++ b/fca/context.py
@@ -419,7 +419,7 @@ class Context(object):
         att_inds = [self.attribute_indices[name] for name in names]
         self.np_table = np.delete(self.np_table, att_inds, 1)
         new_table = self.np_table.tolist()
-        for att_index in sorted(att_inds, reverse=True):
+        for att_index in sorted(set(att_inds), reverse=True):
             del self.attributes[att_index]
         self.__init__(new_table, self.objects, self.attributes)
 
-- 
2.43.0


From 931831a54a5f4c01db1748adf23c26127e8eace5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:56 +0000
Subject: [PATCH 04/49] fix: lin_closure counts equal implications separately
 and returns a new set

---
 fca/algorithms/closure_operators.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/fca/algorithms/closure_operators.py b/fca/algorithms/closure_operators.py
index 3d2258f..b58b171 100644
--- a/fca/algorithms/closure_operators.py
+++ b/fca/algorithms/closure_operators.py
@@ -124,23 +124,24 @@ def lin_closure(s, implications):
     
     """
     def decrease_count(i):
-        imp = current_imps[i]
-        if count[imp] == 0:
+        k = current_imps[i]
+        if count[k] == 0:
             return set()
-        count[imp] -= 1
-        if count[imp] == 0:
-            return imp._conclusion
+        count[k] -= 1
+        if count[k] == 0:
+            return implications[k]._conclusion
         return set()
     
     if not implications:
-        return s
+        return s.copy()
     new_closure = s.copy()
     new_closure = reduce(set.union,
                          [imp._conclusion for imp in implications if not imp.premise],
                          new_closure)
-    count_ls = [(imp, len(imp.premise)) for imp in implications]
-    count = dict(count_ls)
-    imps_ls = [(attr, imp) for imp in implications for attr in imp.premise]
+    # count by position: equal implications must be counted separately
+    count = [len(imp.premise) for imp in implications]
+    imps_ls = [(attr, k) for k, imp in enumerate(implications)
+               for attr in imp.premise]
     imps = defaultdict(list)
     for n,v in imps_ls:
         imps[n].append(v)
-- 
2.43.0


From eeadfdf948883fc678b18e8560e41e67ea0bf904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:56 +0000
Subject: [PATCH 05/49] fix: aibasis orders modified preclosed sets by size, a
 linear extension of inclusion

---
 fca/algorithms/aibasis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fca/algorithms/aibasis.py b/fca/algorithms/aibasis.py
index 1ea2d86..2f0776f 100644
--- a/fca/algorithms/aibasis.py
+++ b/fca/algorithms/aibasis.py
@@ -87,7 +87,7 @@ def update_preclosed(i, cxt, preclosed, close):
             basis.append(impl)
             mod_extra.append(non_min_mod[j])
         
-    mod_extra.sort(key=lambda x: x[1])
+    mod_extra.sort(key=lambda x: len(x[1]))
     
     return new_preclosed + mod_extra, basis
 
-- 
2.43.0


From 3d0534ff8e41aac231c4c736c15cde2b0db986db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:25 +0000
Subject: [PATCH 06/49] fix: remove the basis computation cache completely,
 also when the computation fails

---
 fca/context.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/fca/context.py b/fca/context.py
index 1049ffe..77a72d1 100644
--- a/fca/context.py
+++ b/fca/context.py
@@ -96,16 +96,18 @@ def clear_cxt_vars(cxt):
 
 def basis_computation(f):
     def _f(*args, **kwargs):
-        old_obj_intent = args[0].get_object_intent_by_index 
-        old_att_extent = args[0].get_attribute_extent_by_index
-        args[0].get_object_intent_by_index = memo(args[0].get_object_intent_by_index)
-        args[0].get_attribute_extent_by_index = memo(args[0].get_attribute_extent_by_index)
-        result = f(*args, **kwargs)
-        del args[0].get_attribute_extent_by_index.cache
-        del args[0].get_object_intent_by_index.cache
-        args[0].get_object_intent_by_index = old_obj_intent
-        args[0].get_attribute_extent_by_index = old_att_extent
-        return result
+        cxt = args[0]
+        names = ('get_object_intent_by_index', 'get_attribute_extent_by_index')
+        # an outer computation may have installed its own cache
+        outer = {name: vars(cxt)[name] for name in names if name in vars(cxt)}
+        for name in names:
+            setattr(cxt, name, memo(getattr(cxt, name)))
+        try:
+            return f(*args, **kwargs)
+        finally:
+            for name in names:
+                delattr(cxt, name)
+            vars(cxt).update(outer)
     _f.__name__ = f.__name__
     return _f
 
-- 
2.43.0


From 4c08c171a83a363dc3e8847c06c54f13ca3b53cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:25 +0000
Subject: [PATCH 07/49] fix: compute object implications of the current context
 instead of failing or using a stale cache

---
 fca/context.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/fca/context.py b/fca/context.py
index 77a72d1..dcc534c 100644
--- a/fca/context.py
+++ b/fca/context.py
@@ -310,13 +310,10 @@ class Context(object):
     @basis_computation
     def get_object_implications(self, 
                                 basis=fca.algorithms.compute_dg_basis,
-                                confirmed=None):
+                                confirmed=[]):
         cxt = self.transpose()
-        if not self._obj_imp_basis:
-            self._obj_imp_basis = basis(cxt, imp_basis=confirmed)
-        return self._obj_imp_basis
+        return basis(cxt, imp_basis=confirmed)
     
-    _obj_imp_basis = None
     object_implications = property(get_object_implications)
         
     def examples(self):
-- 
2.43.0


From 81acc6567e615a7b6cc4dc5f6f4a9b7df69be644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:25 +0000
Subject: [PATCH 08/49] fix: reduce_objects handles more than 63 attributes and
 does not skip rows by mistake

---
 fca/context.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fca/context.py b/fca/context.py
index dcc534c..52ef113 100644
--- a/fca/context.py
+++ b/fca/context.py
@@ -732,7 +732,7 @@ class Context(object):
         reducible = set()
         M = (1 << len(self.attributes)) - 1              #set of attributes repr
         for i in range(len(keys)):                      #checking if i reducible
-            if i in reducible:
+            if keys[i] in reducible:
                 continue 
             rest = keys[:i] + keys[i+1:]
             current = new = M
@@ -797,7 +797,7 @@ def list2int(lst):
     input lst - list of 1 and 0. Treat as binary number, make it decimal integer
     """
     def foo(x, y):
-        return (x << 1) + y
+        return (x << 1) + int(y)
     return reduce(foo, reversed(lst), 0)
 
 
-- 
2.43.0


From 235ebbf5bc07e6a737c15a8bef3011e33b5e8f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:25 +0000
Subject: [PATCH 09/49] fix: compound joins rows instead of adding them

---
 fca/context.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fca/context.py b/fca/context.py
index 52ef113..e7b05a2 100644
--- a/fca/context.py
+++ b/fca/context.py
@@ -785,7 +785,7 @@ class Context(object):
         @note: original context remains unchanged
         """
         complementary_cxt = self.complementary() 
-        compound_table = [self.table[i] + complementary_cxt.table[i]
+        compound_table = [list(self.table[i]) + list(complementary_cxt.table[i])
                           for i in range(len(self.objects))]
         return Context(compound_table,
                        self.objects,
-- 
2.43.0


From 9f8fec5b47b0d0b0dfd8ec8b1fd15bd39468ec56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:25 +0000
Subject: [PATCH 10/49] fix: context equality compares names, not their printed
 form

---
 fca/context.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/fca/context.py b/fca/context.py
index e7b05a2..4fac208 100644
--- a/fca/context.py
+++ b/fca/context.py
@@ -672,9 +672,7 @@ class Context(object):
     def __eq__(self, other):
         if type(other) != Context:
             raise TypeError("An input object should be a context!")
-        if self.__repr__() == other.__repr__():
-            return True
-        elif (len(self.objects) != len(other.objects) or
+        if (len(self.objects) != len(other.objects) or
               len(self.attributes) != len(other.attributes)):
             return False
         elif (set(self.objects) != set(other.objects) or
-- 
2.43.0


From 1da43a48e332b9930d41b9f13a784311d3aac5ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:25 +0000
Subject: [PATCH 11/49] fix: concept hash does not depend on attached indices

---
 fca/concept.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fca/concept.py b/fca/concept.py
index 6903edb..8c772f9 100644
--- a/fca/concept.py
+++ b/fca/concept.py
@@ -68,7 +68,7 @@ class Concept(object):
                 self.intent == other.intent)
 
     def __hash__(self):
-        return hash(str(self))
+        return hash((frozenset(self.extent), frozenset(self.intent)))
 
     def pairs(self):
         if not self.extent or not self.intent:
-- 
2.43.0


From f0e8e013f29a3564e4e46bc54545c09a3a9a4900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:25 +0000
Subject: [PATCH 12/49] fix: pass the sort key of filter_concepts by keyword

---
 fca/algorithms/filtering/filter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fca/algorithms/filtering/filter.py b/fca/algorithms/filtering/filter.py
index c36b142..4326d40 100644
--- a/fca/algorithms/filtering/filter.py
+++ b/fca/algorithms/filtering/filter.py
@@ -30,7 +30,7 @@ def filter_concepts(lattice, function, mode, opt=1):
     
     def _filter_abs(lattice, indexes, n):
         key_ = lambda x: x[1] #TODO: check if this works. before it was cmp
-        sorted_indexes = sorted(list(indexes.items()), key_, reverse=True)
+        sorted_indexes = sorted(list(indexes.items()), key=key_, reverse=True)
         filtered_concepts = sorted_indexes[:int(n)]
             
         return fca.ConceptSystem([c[0] for c in filtered_concepts])
@@ -38,7 +38,7 @@ def filter_concepts(lattice, function, mode, opt=1):
     def _filter_part(lattice, indexes, part):
         n = int(len(lattice) * part)
         key_ = lambda x: x[1] #TODO: check if this works. before it was cmp
-        sorted_indexes = sorted(list(indexes.items()), key_, reverse=True)
+        sorted_indexes = sorted(list(indexes.items()), key=key_, reverse=True)
         filtered_concepts = sorted_indexes[:n]
         
         values = sorted_indexes
-- 
2.43.0


From 384cbafeb00027b32033ffb7624d295d6f49122e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:17 +0000
Subject: [PATCH 13/49] fix: filter_concepts by part works on a lattice with a
 single concept

---
 fca/algorithms/filtering/filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fca/algorithms/filtering/filter.py b/fca/algorithms/filtering/filter.py
index 4326d40..59656d5 100644
--- a/fca/algorithms/filtering/filter.py
+++ b/fca/algorithms/filtering/filter.py
@@ -42,7 +42,7 @@ def filter_concepts(lattice, function, mode, opt=1):
         filtered_concepts = sorted_indexes[:n]
         
         values = sorted_indexes
-        eps = values[n-2][1]-values[n-1][1]
+        eps = values[n-2][1]-values[n-1][1] if len(values) > 1 else 0
         
         other_concepts = sorted_indexes[n:]
         for concept in other_concepts:
-- 
2.43.0


From 5822fb85d5db4016ae79da8b0d662a2953f01351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:17 +0000
Subject: [PATCH 14/49] fix: algorithm2_weighted starts from the objects of the
 current attributes

---
 fca/algorithms/factors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fca/algorithms/factors.py b/fca/algorithms/factors.py
index fa3e54b..3acacb4 100644
--- a/fca/algorithms/factors.py
+++ b/fca/algorithms/factors.py
@@ -142,7 +142,7 @@ def algorithm2_weighted(cxt, fidelity=1):
         V = 0
         to_remove = set()
         while True:
-            D_objs = cxt.oprime(D)
+            D_objs = cxt.aprime(D)
             ls_measures = [(score(_oplus(D_objs, j, cxt, U)), j)
                            for j in set(cxt.attributes) - D]
             if ls_measures:
-- 
2.43.0


From c46ed3869fd4414fff727ea987b1d1e0d70054ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:17 +0000
Subject: [PATCH 15/49] fix: no factors for a context without incidences
 instead of a division by zero

---
 fca/algorithms/factors.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fca/algorithms/factors.py b/fca/algorithms/factors.py
index 3acacb4..4b43789 100644
--- a/fca/algorithms/factors.py
+++ b/fca/algorithms/factors.py
@@ -82,6 +82,8 @@ def algorithm2(cxt, fidelity=1):
     """
     U = set(cxt.object_attribute_pairs)
     len_initial = len(U)
+    if not len_initial:
+        return
     while (len_initial - len(U)) / len_initial < fidelity:
         D = set()
         V = 0
@@ -137,6 +139,8 @@ def algorithm2_weighted(cxt, fidelity=1):
 
     U = set(cxt.object_attribute_pairs)
     len_initial = len(U)
+    if not len_initial:
+        return
     while (len_initial - len(U)) / len_initial < fidelity:
         D = set()
         V = 0
-- 
2.43.0


From 032b1f9414440995e1bd62184bedb0f1800db987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:29 +0000
Subject: [PATCH 16/49] fix: subseteq_table indexes by integers and accepts
 tables without rows

---
 fca/compare_context.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fca/compare_context.py b/fca/compare_context.py
index 1d49fdc..a7fefa7 100644
--- a/fca/compare_context.py
+++ b/fca/compare_context.py
@@ -18,9 +18,11 @@ def subseteq_table(table_left, table_right):
                          %(len(table_left[0]), len(table_right[0])))
 
     row_length = len(table_left)
+    if row_length == 0:
+        return True
     table_size = row_length * len(table_left[0])
     for i in range(table_size):
-        a = (i / row_length)
+        a = (i // row_length)
         b = (i % row_length)
         if not (table_left[b][a] <= table_right[b][a]):
             return False
-- 
2.43.0


From c7b8aaaab66990924189e8db5a3f89562fa6349e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:29 +0000
Subject: [PATCH 17/49] fix: completing a partial context leaves it unchanged
 when it is inconsistent

---
 fca/partial_context.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/fca/partial_context.py b/fca/partial_context.py
index ebe336c..14da00f 100644
--- a/fca/partial_context.py
+++ b/fca/partial_context.py
@@ -96,20 +96,23 @@ class PartialContext(object):
         self.objects.append(name)
         
     def complete(self, implications):
+        completed = []
         for o in self.objects:
             xintent = self.x_context.get_object_intent(o)
             new_xintent = closure(xintent, implications)
             qintent = self.q_context.get_object_intent(o)
             if not new_xintent <= qintent:
-                # TODO: undo the modifications
                 raise ValueError(
                     'implications are inconsistent with the partial context')
-            self.x_context.set_object_intent(new_xintent, o)
             new_qintent = set([a for a in qintent
                                  if a in new_xintent or
                                  closure(new_xintent | {a}, implications)
                                                                     <= qintent
                              ])
+            completed.append((o, xintent, qintent, new_xintent, new_qintent))
+        # modify only after all objects turned out to be consistent
+        for o, xintent, qintent, new_xintent, new_qintent in completed:
+            self.x_context.set_object_intent(new_xintent, o)
             self.q_context.set_object_intent(new_qintent, o)
             # TODO: Remove printing
             if xintent != new_xintent or qintent != new_qintent:
-- 
2.43.0


From afb134bb37bc93eb2740fe26c20190f311adc009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:29 +0000
Subject: [PATCH 18/49] fix: ExplorationDB deletes examples and attributes with
 the existing context methods

---
 fca/algorithms/exploration_/exploration.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fca/algorithms/exploration_/exploration.py b/fca/algorithms/exploration_/exploration.py
index 70dda74..526511d 100644
--- a/fca/algorithms/exploration_/exploration.py
+++ b/fca/algorithms/exploration_/exploration.py
@@ -84,7 +84,7 @@ class ExplorationDB(object):
         
     @context_modifier
     def delete_example(self, name):
-        self._cxt.delete_object_by_name(name)
+        self._cxt.delete_object(name)
     
     @context_modifier
     def edit_example(self, name, old_name, intent):
@@ -106,7 +106,7 @@ class ExplorationDB(object):
         
     @context_modifier
     def delete_attribute(self, name):
-        self._cxt.delete_attribute_by_name(name)
+        self._cxt.delete_attribute(name)
 
     @context_modifier
     def touch(self):
-- 
2.43.0


From 75f7f7cbd919b38a345a5dee1d9edbda6937a087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:29 +0000
Subject: [PATCH 19/49] fix: ExplorationDB.edit_attribute checks the new
 intents and the new name

---
 fca/algorithms/exploration_/exploration.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/fca/algorithms/exploration_/exploration.py b/fca/algorithms/exploration_/exploration.py
index 526511d..a985fed 100644
--- a/fca/algorithms/exploration_/exploration.py
+++ b/fca/algorithms/exploration_/exploration.py
@@ -117,18 +117,13 @@ class ExplorationDB(object):
         intents = []
         for obj in self._cxt.objects:
             if obj in extent:
-                intents.append(self._cxt.get_object_intent(obj).add(old_name))
+                intents.append(self._cxt.get_object_intent(obj) | {old_name})
             else:
-                intents.append(self._cxt.get_object_intent(obj).discard(old_name))
+                intents.append(self._cxt.get_object_intent(obj) - {old_name})
         self._check_intents(intents)
 
-        first = False
-        for attribute in self._cxt.attributes:
-            if name == attribute:
-                if first:
-                    raise NotUniqueAttributeName()
-                else:
-                    first = True
+        if name != old_name and name in self._cxt.attributes:
+            raise NotUniqueAttributeName()
         self._cxt.set_attribute_extent(extent, old_name)
         self._cxt.rename_attribute(old_name, name)
             
-- 
2.43.0


From 470204e45051bf914d36b2ee89200802a756e085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:29 +0000
Subject: [PATCH 20/49] fix: ExplorationDB.edit_example refuses a used name
 before changing anything

---
 fca/algorithms/exploration_/exploration.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/fca/algorithms/exploration_/exploration.py b/fca/algorithms/exploration_/exploration.py
index a985fed..b570960 100644
--- a/fca/algorithms/exploration_/exploration.py
+++ b/fca/algorithms/exploration_/exploration.py
@@ -89,14 +89,13 @@ class ExplorationDB(object):
     @context_modifier
     def edit_example(self, name, old_name, intent):
         old_intent = self._cxt.get_object_intent(old_name)
+        if old_name != name and name in self._cxt.objects:
+            raise NotUniqueObjectName()
         if intent != old_intent:
             self._check_intents([intent])
             self._cxt.set_object_intent(intent, old_name)
         if old_name != name:
-            if name in self._cxt.objects:
-                raise NotUniqueObjectName()
-            else:
-                self._cxt.rename_object(old_name, name)
+            self._cxt.rename_object(old_name, name)
         
     @context_modifier
     def add_attribute(self, name, extent):
-- 
2.43.0


From 6111212d461574b1bf5b1cf7fc47026b502955ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:29 +0000
Subject: [PATCH 21/49] fix: recompute open implications after completing a
 partial context

---
 fca/algorithms/exploration_/exploration.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fca/algorithms/exploration_/exploration.py b/fca/algorithms/exploration_/exploration.py
index b570960..baf5faf 100644
--- a/fca/algorithms/exploration_/exploration.py
+++ b/fca/algorithms/exploration_/exploration.py
@@ -142,6 +142,7 @@ class ExplorationDB(object):
         # TODO: refactor
         if type(self._cxt) == PartialContext:
             self._cxt.complete(self._implications)
+            self.touch()
     
     objects = property(get_object_names)
     attributes = property(get_attribute_names)
-- 
2.43.0


From e63b22c6c2bb3e94e834df718a09247aee24a206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:29 +0000
Subject: [PATCH 22/49] fix: editing an object or attribute may not break
 confirmed implications of the other kind

---
 fca/algorithms/exploration.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/fca/algorithms/exploration.py b/fca/algorithms/exploration.py
index fc0ae0f..4dba84a 100644
--- a/fca/algorithms/exploration.py
+++ b/fca/algorithms/exploration.py
@@ -206,16 +206,26 @@ class BasicExploration(object):
     def edit_attribute(self, new_extent, name):
         if not self.check_extent_for_conflicts(new_extent):
             raise BasisConflict(new_extent)
-        else:
-            self.context.set_attribute_extent(new_extent, name)
-            self.recompute_basis()
+        for obj in self.context.objects:
+            intent = self.context.get_object_intent(obj) - {name}
+            if obj in new_extent:
+                intent.add(name)
+            if not self.check_intent_for_conflicts(intent):
+                raise BasisConflict(intent)
+        self.context.set_attribute_extent(new_extent, name)
+        self.recompute_basis()
             
     def edit_object(self, new_intent, name):
         if not self.check_intent_for_conflicts(new_intent):
             raise BasisConflict(new_intent)
-        else:
-            self.context.set_object_intent(new_intent, name)
-            self.recompute_basis()
+        for att in self.context.attributes:
+            extent = self.context.get_attribute_extent(att) - {name}
+            if att in new_intent:
+                extent.add(name)
+            if not self.check_extent_for_conflicts(extent):
+                raise BasisConflict(extent)
+        self.context.set_object_intent(new_intent, name)
+        self.recompute_basis()
 
 
 if __name__ == "__main__":    
-- 
2.43.0


From 970404fb6df543610fe9cbb5a4eade1450b053d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:03 +0000
Subject: [PATCH 23/49] fix: read_cxt reads names as literals instead of
 evaluating them as code

---
 fca/readwrite/cxt.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/fca/readwrite/cxt.py b/fca/readwrite/cxt.py
index f119e5d..e8a52bf 100644
--- a/fca/readwrite/cxt.py
+++ b/fca/readwrite/cxt.py
@@ -1,6 +1,8 @@
 # -*- coding: utf-8 -*-
 """Holds function that read context from tab separated txt file"""
 
+import ast
+
 import fca
 
 def read_cxt(path):
@@ -69,16 +71,18 @@ def read_cxt(path):
     for _ in range(number_of_objects):
         next_obj_s = input_file.readline().strip()
         try:
-            next_obj = eval(next_obj_s)
-        except (NameError, SyntaxError):
+            next_obj = ast.literal_eval(next_obj_s)
+        except (ValueError, SyntaxError, TypeError, MemoryError,
+                RecursionError):
             next_obj = next_obj_s
         objects.append(next_obj)
     attributes = []
     for _ in range(number_of_attributes):
         next_att_s = input_file.readline().strip()
         try:
-            next_att = eval(next_att_s)
-        except (NameError, SyntaxError):
+            next_att = ast.literal_eval(next_att_s)
+        except (ValueError, SyntaxError, TypeError, MemoryError,
+                RecursionError):
             next_att = next_att_s
         attributes.append(next_att)
 
-- 
2.43.0


From 6466229430d8e419939ed76a3c6f9e01e732e536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:03 +0000
Subject: [PATCH 24/49] fix: uread_cxt does not decode strings a second time

---
 fca/readwrite/cxt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fca/readwrite/cxt.py b/fca/readwrite/cxt.py
index e8a52bf..729992c 100644
--- a/fca/readwrite/cxt.py
+++ b/fca/readwrite/cxt.py
@@ -149,8 +149,8 @@ def uread_cxt(path):
     number_of_attributes = int(input_file.readline().strip())
     input_file.readline() # Empty line
 
-    objects = [str(input_file.readline().strip(), "utf-8") for i in range(number_of_objects)]
-    attributes = [str(input_file.readline().strip(), "utf-8") for i in range(number_of_attributes)]
+    objects = [input_file.readline().strip() for i in range(number_of_objects)]
+    attributes = [input_file.readline().strip() for i in range(number_of_attributes)]
 
     table = []
     for i in range(number_of_objects):
-- 
2.43.0


From b50704fbf5aeea34578009143e8e5beb84532792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:03 +0000
Subject: [PATCH 25/49] fix: read and write tab and comma separated files as
 text

---
 fca/readwrite/comma_separated.py |  2 +-
 fca/readwrite/tab_separated.py   | 20 ++++++++++----------
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/fca/readwrite/comma_separated.py b/fca/readwrite/comma_separated.py
index 7867d44..ce03923 100644
--- a/fca/readwrite/comma_separated.py
+++ b/fca/readwrite/comma_separated.py
@@ -36,7 +36,7 @@ def read_mv_csv(path):
     ['attr1', 'attr2', 'attr3']
 
     """
-    input_file = open(path, "rb")
+    input_file = open(path, "r")
     rdr = csv.reader(input_file, delimiter=",")
     
     objects = []
diff --git a/fca/readwrite/tab_separated.py b/fca/readwrite/tab_separated.py
index 456f2a5..86cb1b4 100644
--- a/fca/readwrite/tab_separated.py
+++ b/fca/readwrite/tab_separated.py
@@ -79,7 +79,7 @@ def read_txt(path):
     ['a', 'b', 'c', 'd']
 
     """
-    input_file = open(path, "rb")
+    input_file = open(path, "r")
     rdr = csv.reader(input_file, delimiter="\t")
     rec = next(rdr) # read attributes names
 
@@ -105,7 +105,7 @@ def read_txt(path):
     # TODO: It's hack
     # Strange things happen with csv in case of non standard characters
     if len(attributes) != len(table[0]):
-        input_file = open(path, "rb")
+        input_file = open(path, "r")
         attributes = input_file.readline().split("\t")[:-1]
         input_file.close()
 
@@ -144,7 +144,7 @@ def read_mv_txt(path):
     ['attr1', 'attr2', 'attr3']
 
     """
-    input_file = open(path, "rb")
+    input_file = open(path, "r")
     rdr = csv.reader(input_file, delimiter="\t")
     rec = next(rdr) # read objects names
     
@@ -172,7 +172,7 @@ def read_mv_txt(path):
     # Strange things happen with csv in case some of "non standard" characters
     if ((len(table) != 0) and len(attributes) != len(table[0]))\
         or len(table) != len(objects):
-        input_file = open(path, "rb")
+        input_file = open(path, "r")
         objects = input_file.readline().strip().split("\t")
         attributes = input_file.readline().strip().split("\t")
         input_file.close()
@@ -211,19 +211,19 @@ def uread_mv_txt(path):
     ['attr1', 'attr2', 'attr3']
 
     """
-    input_file = open(path, "rb")
+    input_file = open(path, "r")
     rdr = csv.reader(input_file, delimiter="\t")
     rec = next(rdr) # read objects names
     
     objects = []
     for obj in rec:
-        objects.append(str(obj, "utf-8").strip())
+        objects.append(str(obj).strip())
     
     rec = next(rdr) # read attributes names
 
     attributes = []
     for attr in rec:
-        attributes.append(str(attr, "utf-8").strip())
+        attributes.append(str(attr).strip())
     
     next(rdr) # empty line
     
@@ -239,7 +239,7 @@ def uread_mv_txt(path):
     # Strange things happen with csv in case some of "non standard" characters
     if ((len(table) != 0) and len(attributes) != len(table[0]))\
         or len(table) != len(objects):
-        input_file = open(path, "rb")
+        input_file = open(path, "r")
         objects = input_file.readline().strip().split("\t")
         attributes = input_file.readline().strip().split("\t")
         input_file.close()
@@ -264,10 +264,10 @@ def write_mv_txt(context, path):
 def uwrite_mv_txt(context, path):
     output_file = open(path, "w")
 
-    output_file.write("\t".join(context.objects).encode("utf-8"))
+    output_file.write("\t".join(context.objects))
     output_file.write("\n")
 
-    output_file.write("\t".join(context.attributes).encode("utf-8"))
+    output_file.write("\t".join(context.attributes))
     output_file.write("\n\n")
 
     for i in range(len(context.objects)):
-- 
2.43.0


From de9e531c22dea258f9101a1c2275fc0549d42401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:03 +0000
Subject: [PATCH 26/49] fix: read_txt_with_names does not take the object name
 for a value

---
 fca/readwrite/tab_separated.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fca/readwrite/tab_separated.py b/fca/readwrite/tab_separated.py
index 86cb1b4..c3333d5 100644
--- a/fca/readwrite/tab_separated.py
+++ b/fca/readwrite/tab_separated.py
@@ -31,7 +31,7 @@ def read_txt_with_names(path):
     for rec in rdr:
         objects.append(rec[0])                  # read objects names
         line = []
-        for num in rec:
+        for num in rec[1:]:
             if num == "0":
                 line.append(False)
             elif num == "1":
-- 
2.43.0


From 6a8a240011196977ee61f4120dc88c516902064b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:03 +0000
Subject: [PATCH 27/49] fix: read_txt accepts tables without objects

---
 fca/readwrite/tab_separated.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fca/readwrite/tab_separated.py b/fca/readwrite/tab_separated.py
index c3333d5..b83ce6d 100644
--- a/fca/readwrite/tab_separated.py
+++ b/fca/readwrite/tab_separated.py
@@ -39,7 +39,7 @@ def read_txt_with_names(path):
         table.append(line)
     input_file.close()
 
-    if len(attributes) != len(table[0]):
+    if len(table) != 0 and len(attributes) != len(table[0]):
         input_file = open(path, "r")
         attributes = input_file.readline().split("\t")[:-1]
         input_file.close()
@@ -104,7 +104,7 @@ def read_txt(path):
 
     # TODO: It's hack
     # Strange things happen with csv in case of non standard characters
-    if len(attributes) != len(table[0]):
+    if len(table) != 0 and len(attributes) != len(table[0]):
         input_file = open(path, "r")
         attributes = input_file.readline().split("\t")[:-1]
         input_file.close()
-- 
2.43.0


From e70512a58f8cf5256bcc442371684fa1c4790279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:03 +0000
Subject: [PATCH 28/49] fix: ManyValuedContext keeps the given values

---
 fca/mvcontext.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fca/mvcontext.py b/fca/mvcontext.py
index a1d1fd8..a9da72b 100644
--- a/fca/mvcontext.py
+++ b/fca/mvcontext.py
@@ -54,6 +54,8 @@ class ManyValuedContext(Context):
         super().__init__(cross_table=table,
                          objects=objects,
                          attributes=attributes)
+        # the table of the binary context holds truth values only
+        self.cross_table = [list(row) for row in table]
         # if len(table) != len(objects):
         #     raise ValueError("Number of objects (=%i) and number of cross table"
         #            " rows(=%i) must agree" % (len(objects), len(table)))
-- 
2.43.0


From 9b96e709fa8a2c48134aa80e9f596dd9fbc3b65f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:03 +0000
Subject: [PATCH 29/49] fix: read_csv reads 0 as False

---
 fca/readwrite/comma_separated.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fca/readwrite/comma_separated.py b/fca/readwrite/comma_separated.py
index ce03923..b28dede 100644
--- a/fca/readwrite/comma_separated.py
+++ b/fca/readwrite/comma_separated.py
@@ -65,7 +65,8 @@ def read_csv(path):
     @note: uses *read_mv_csv* add then treats many valued context as binary
     """
     mvcxt = read_mv_csv(path)
-    return fca.Context(mvcxt.table, mvcxt.objects, mvcxt.attributes)
+    table = [[int(val) for val in row] for row in mvcxt.table]
+    return fca.Context(table, mvcxt.objects, mvcxt.attributes)
 
 if __name__ == "__main__":
     import doctest
-- 
2.43.0


From d543e848d49c934dcf531ba4c06e93d81e450bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:03 +0000
Subject: [PATCH 30/49] fix: write_xml writes text to a text file

---
 fca/readwrite/xml_.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fca/readwrite/xml_.py b/fca/readwrite/xml_.py
index 5fefff8..bcb4edc 100644
--- a/fca/readwrite/xml_.py
+++ b/fca/readwrite/xml_.py
@@ -28,7 +28,7 @@ def write_xml(path, cs):
     objects_ids = dict([(objects[i], "o{0}".format(i+1))  for i in range(len(objects))])
     attributes_ids = dict([(attributes[i], "a{0}".format(i+1))  for i in range(len(attributes))])
 
-    with open(path, "wb") as out:
+    with open(path, "w", encoding="utf-8") as out:
         impl = getDOMImplementation()
 
         newdoc = impl.createDocument(None, "conceptsystem", None)
@@ -38,7 +38,7 @@ def write_xml(path, cs):
         for obj in objects:
             obj_element = newdoc.createElement("object")
             obj_element.setAttribute("id", objects_ids[obj])
-            textnode = newdoc.createTextNode(obj.encode("utf-8"))
+            textnode = newdoc.createTextNode(obj)
             obj_element.appendChild(textnode)
             element.appendChild(obj_element)
         top_element.appendChild(element)
@@ -47,7 +47,7 @@ def write_xml(path, cs):
         for attr in attributes:
             attr_element = newdoc.createElement("attribute")
             attr_element.setAttribute("id", attributes_ids[attr])
-            textnode = newdoc.createTextNode(attr.encode("utf-8"))
+            textnode = newdoc.createTextNode(attr)
             attr_element.appendChild(textnode)
             element.appendChild(attr_element)
         top_element.appendChild(element)
-- 
2.43.0


From 3fe5d0d61f1736bf49e592c0fe3ef2c2fad24e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:03 +0000
Subject: [PATCH 31/49] fix: read_xml gives the parser a binary file

---
 fca/readwrite/xml_.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/fca/readwrite/xml_.py b/fca/readwrite/xml_.py
index bcb4edc..425b04f 100644
--- a/fca/readwrite/xml_.py
+++ b/fca/readwrite/xml_.py
@@ -177,8 +177,8 @@ def read_xml(path):
     p.EndElementHandler = end_element
     p.CharacterDataHandler = char_data
     
-    f = open(path)
-    p.ParseFile(f)
+    with open(path, "rb") as f:
+        p.ParseFile(f)
     
     return cs
     
@@ -262,8 +262,8 @@ def uread_xml(path):
     p.EndElementHandler = end_element
     p.CharacterDataHandler = char_data
     
-    f = open(path)
-    p.ParseFile(f)
+    with open(path, "rb") as f:
+        p.ParseFile(f)
 
     return cs
 
-- 
2.43.0


From bf897c5c1e7639107d25eee8f5d7b1e235b25bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:03 +0000
Subject: [PATCH 32/49] fix: read_xml keeps blanks inside names that contain
 entities

---
 fca/readwrite/xml_.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fca/readwrite/xml_.py b/fca/readwrite/xml_.py
index 425b04f..47ac208 100644
--- a/fca/readwrite/xml_.py
+++ b/fca/readwrite/xml_.py
@@ -172,6 +172,7 @@ def read_xml(path):
         buffer += data
     
     p = xml.parsers.expat.ParserCreate()
+    p.buffer_text = True    # blanks next to entities belong to the name
     
     p.StartElementHandler = start_element
     p.EndElementHandler = end_element
@@ -257,6 +258,7 @@ def uread_xml(path):
         buffer += data
 
     p = xml.parsers.expat.ParserCreate(encoding="UTF-8")
+    p.buffer_text = True    # blanks next to entities belong to the name
 
     p.StartElementHandler = start_element
     p.EndElementHandler = end_element
-- 
2.43.0


From 61ab39f29c2d04d97ae7a990b979e9c633b7ea97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:03 +0000
Subject: [PATCH 33/49] fix: equal negative implications print and hash alike

---
 fca/implication.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/fca/implication.py b/fca/implication.py
index c9c8135..49c4e61 100644
--- a/fca/implication.py
+++ b/fca/implication.py
@@ -123,15 +123,17 @@ class UnitImplication(Implication):
 class NegativeImplication(Implication):
     def __repr__(self):
         try:
-            premise = ", ".join([element for element in self.premise])
+            premise = ", ".join([element for element in sorted(self.premise)])
             conclusion = ("not (" +
-                          ", ".join([element for element in self.conclusion]) +
+                          ", ".join([element
+                                     for element in sorted(self.conclusion)]) +
                           ")")
         except:
-            premise = ", ".join([str(element) for element in self.premise])
+            premise = ", ".join([str(element)
+                                 for element in sorted(self.premise)])
             conclusion = ("not (" +
                           ", ".join([str(element)
-                                     for element in self.conclusion]) +
+                                     for element in sorted(self.conclusion)]) +
                           ")")
         return " => ".join((premise, conclusion,))
 
-- 
2.43.0


From 1b6708077381aa5f5aeec120ac9a7a2b52be40c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:03 +0000
Subject: [PATCH 34/49] fix: a negative implication does not equal the ordinary
 one

---
 fca/implication.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fca/implication.py b/fca/implication.py
index 49c4e61..869444f 100644
--- a/fca/implication.py
+++ b/fca/implication.py
@@ -137,6 +137,10 @@ class NegativeImplication(Implication):
                           ")")
         return " => ".join((premise, conclusion,))
 
+    def __eq__(self, other):
+        return isinstance(other, NegativeImplication) and super().__eq__(other)
+
+    __hash__ = Implication.__hash__
 
     def is_respected(self, some_set):
         """Checks whether *some_set* respects the negative implication"""
-- 
2.43.0


From 2e631ec0f93cedbdba601811fd8d0354714f3838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:03 +0000
Subject: [PATCH 35/49] fix: minimize does not lose an implication that occurs
 twice in the list

---
 fca/algorithms/implication_covers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fca/algorithms/implication_covers.py b/fca/algorithms/implication_covers.py
index ddafc21..c49b5e8 100644
--- a/fca/algorithms/implication_covers.py
+++ b/fca/algorithms/implication_covers.py
@@ -152,7 +152,8 @@ def minimize(cover, close=closure_operators.simple_closure):
         i += 1
         print('maximizing premise ', i)
         cover.remove(imp)
-        imp._premise = close(imp.premise, cover)
+        # a new implication: the same object may occur in the list again
+        imp = Implication(close(imp.premise, cover), imp.conclusion)
         if not imp.conclusion <= imp.premise:
             cover.append(imp)
         print((len(cover), 'implications'))
-- 
2.43.0


From a4ef6519db681d99d675c5341588de6e38c95d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:03 +0000
Subject: [PATCH 36/49] fix: patterns occur in a context exactly if some object
 has them, also objects with all attributes

---
 fca/algorithms/patterns.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/fca/algorithms/patterns.py b/fca/algorithms/patterns.py
index 369fc39..33c9e90 100644
--- a/fca/algorithms/patterns.py
+++ b/fca/algorithms/patterns.py
@@ -88,8 +88,7 @@ class NotANegativePattern(NotAPatternException):
 def iterate_positive_concepts(positive_cxt, negative_cxt):
     reduced_pos_cxt = positive_cxt.reduce_attributes().reduce_objects()
     for cpt in reduced_pos_cxt.concepts:
-        if negative_cxt.aclosure(cpt.intent) == set(
-                negative_cxt.attributes):
+        if not negative_cxt.aprime(cpt.intent):
             yield cpt
 
 
@@ -130,9 +129,9 @@ class BasicPatternExploration:
         return sorted(out, key=lambda x: -x[1])
 
     def confirm_pattern(self, pattern):
-        if self.positive_cxt.aclosure(pattern) == set(self.positive_cxt.attributes):
+        if not self.positive_cxt.aprime(pattern):
             raise NotAPositivePattern(pattern)
-        elif self.negative_cxt.aclosure(pattern) != set(self.negative_cxt.attributes):
+        elif self.negative_cxt.aprime(pattern):
             raise NotANegativePattern(pattern)
         self.confirmed_patterns.append(frozenset(pattern))
         return self
-- 
2.43.0


From 4d37cb3218a14d1342ce3af327edfc3f2ad62d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:03 +0000
Subject: [PATCH 37/49] fix: a negative example that contains a confirmed
 pattern is refused

---
 fca/algorithms/patterns.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fca/algorithms/patterns.py b/fca/algorithms/patterns.py
index 33c9e90..c2ad6d8 100644
--- a/fca/algorithms/patterns.py
+++ b/fca/algorithms/patterns.py
@@ -150,6 +150,9 @@ class BasicPatternExploration:
         if pattern is not None:
             if set(pattern) - set(obj_intent) != set():
                 raise NotNegativeExample(obj_intent, pattern)
+        for confirmed in self.confirmed_patterns:
+            if confirmed <= set(obj_intent):
+                raise ConfirmedPatternsConflict(obj_intent, confirmed)
         self.negative_cxt.add_object_with_intent(obj_intent, obj_name)
         return self
 
-- 
2.43.0


From 4465d149c5438be0870092d6126c854ee3aaf5e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:03 +0000
Subject: [PATCH 38/49] fix: the default pattern generator yields patterns with
 examples, as its callers expect

---
 fca/algorithms/patterns.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/fca/algorithms/patterns.py b/fca/algorithms/patterns.py
index c2ad6d8..ac50646 100644
--- a/fca/algorithms/patterns.py
+++ b/fca/algorithms/patterns.py
@@ -92,17 +92,22 @@ def iterate_positive_concepts(positive_cxt, negative_cxt):
             yield cpt
 
 
+def iterate_positive_patterns(positive_cxt, negative_cxt):
+    for cpt in iterate_positive_concepts(positive_cxt, negative_cxt):
+        yield cpt.intent, positive_cxt.aprime(cpt.intent)
+
+
 class BasicPatternExploration:
 
     def __init__(self, init_positive_cxt, init_negative_cxt,
-                 expert=None, pattern_generator=iterate_positive_concepts):
+                 expert=None, pattern_generator=iterate_positive_patterns):
         """
         :param init_positive_cxt:
         :param init_negative_cxt:
         :param expert: a function that returns negative examples to a given
             pattern
         :param pattern_generator: a function that takes positive and negative
-            contexts and returns patterns
+            contexts and returns pairs of a pattern and its examples
         """
         if set(init_positive_cxt.attributes) != set(init_negative_cxt.attributes):
             raise AttributeMismatch(init_positive_cxt.attributes,
@@ -121,7 +126,7 @@ class BasicPatternExploration:
     def get_unconfirmed_patterns_with_examples(self):
         unexplained_examples = list(self.iterate_unexplained_examples())
         out = []
-        for pattern, freq in self.iterate_patterns_with_examples():
+        for pattern, _ in self.iterate_patterns_with_examples():
             if not self.is_explained(pattern):
                 covered_examples = [example[0] for example in unexplained_examples
                                     if pattern <= example[1]]
-- 
2.43.0


From 126d58ffc622157b4f92871e4958ad60ea0f6499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:47 +0000
Subject: [PATCH 39/49] fix: sessions of one exploration do not replace each
 other's accepted implications

---
 fca/algorithms/exploration2/exploration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fca/algorithms/exploration2/exploration.py b/fca/algorithms/exploration2/exploration.py
index 8dd900f..d2549c8 100644
--- a/fca/algorithms/exploration2/exploration.py
+++ b/fca/algorithms/exploration2/exploration.py
@@ -112,5 +112,5 @@ class Exploration(object):
         self._cxt = copy(cxt)
 
     def create_session(self):
-        return ExplorationSession(self._cxt)
+        return ExplorationSession(copy(self._cxt))
 
-- 
2.43.0


From 80c9628025e247b8c57f3c12e8624f1ae87765fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:07 +0000
Subject: [PATCH 40/49] fix: a unit implication does not equal the negative one

---
 fca/implication.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fca/implication.py b/fca/implication.py
index 869444f..032212f 100644
--- a/fca/implication.py
+++ b/fca/implication.py
@@ -72,6 +72,8 @@ class Implication(object):
         return self.__repr__()
 
     def __eq__(self, other):
+        if isinstance(other, NegativeImplication) and not isinstance(self, NegativeImplication):
+            return 0
         if ((self.premise == other.premise) and
                 (self.conclusion == other.conclusion)):
             return 1
-- 
2.43.0


From af2473e7e387d0be4bc5d942bb30297a2c3e5899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:07 +0000
Subject: [PATCH 41/49] fix: a deep copy of a negative implication is negative

---
 fca/implication.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fca/implication.py b/fca/implication.py
index 032212f..833288a 100644
--- a/fca/implication.py
+++ b/fca/implication.py
@@ -144,6 +144,9 @@ class NegativeImplication(Implication):
 
     __hash__ = Implication.__hash__
 
+    def __deepcopy__(self, memo):
+        return NegativeImplication(self._premise.copy(), self._conclusion.copy())
+
     def is_respected(self, some_set):
         """Checks whether *some_set* respects the negative implication"""
         # if some_set contains every element from premise and any
-- 
2.43.0


From eac1673bfea4985ea6a8c2cb05d1cb397a8d910c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:13 +0000
Subject: [PATCH 42/49] fix: blanks at the ends of parsed pieces of a name in
 an xml file survive

---
 fca/readwrite/xml_.py | 26 ++++++++++----------------
 1 file changed, 10 insertions(+), 16 deletions(-)

diff --git a/fca/readwrite/xml_.py b/fca/readwrite/xml_.py
index 47ac208..49824c1 100644
--- a/fca/readwrite/xml_.py
+++ b/fca/readwrite/xml_.py
@@ -145,14 +145,14 @@ def read_xml(path):
         global new_obj, new_attr, buffer
         if name == "object":
             if new_obj:
-                d_objects[new_obj] = buffer
-                objects.append(buffer)
+                d_objects[new_obj] = buffer.strip()
+                objects.append(buffer.strip())
                 new_obj = None
                 buffer = ""
         elif name == "attribute":
             if new_attr:
-                d_attributes[new_attr] = buffer
-                attributes.append(buffer)
+                d_attributes[new_attr] = buffer.strip()
+                attributes.append(buffer.strip())
                 new_attr = None
                 buffer = ""
         elif name == "concept":
@@ -166,13 +166,10 @@ def read_xml(path):
     
     def char_data(data):
         global buffer
-        if data[0] == "\n":
-            return
-        data = data.strip()
         buffer += data
     
     p = xml.parsers.expat.ParserCreate()
-    p.buffer_text = True    # blanks next to entities belong to the name
+    p.buffer_text = True
     
     p.StartElementHandler = start_element
     p.EndElementHandler = end_element
@@ -231,14 +228,14 @@ def uread_xml(path):
         global new_obj, new_attr, buffer
         if name == "object":
             if new_obj:
-                d_objects[new_obj] = buffer
-                objects.append(buffer)
+                d_objects[new_obj] = buffer.strip()
+                objects.append(buffer.strip())
                 new_obj = None
                 buffer = ""
         elif name == "attribute":
             if new_attr:
-                d_attributes[new_attr] = buffer
-                attributes.append(buffer)
+                d_attributes[new_attr] = buffer.strip()
+                attributes.append(buffer.strip())
                 new_attr = None
                 buffer = ""
         elif name == "concept":
@@ -252,13 +249,10 @@ def uread_xml(path):
 
     def char_data(data):
         global buffer
-        if data[0] == "\n":
-            return
-        data = data.strip()
         buffer += data
 
     p = xml.parsers.expat.ParserCreate(encoding="UTF-8")
-    p.buffer_text = True    # blanks next to entities belong to the name
+    p.buffer_text = True
 
     p.StartElementHandler = start_element
     p.EndElementHandler = end_element
-- 
2.43.0


From 97eb2aa0551e13ca8beb05d9240bc8d5fced2e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:16 +0000
Subject: [PATCH 43/49] fix: conditional factorisation restarts when a factor
 covers nothing new

It raised 'Algorithm stuck, something went wrong' when attributes had to be
added to reach the minimum size and the result covered no new pair.
---
 fca/algorithms/factors.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/fca/algorithms/factors.py b/fca/algorithms/factors.py
index 4b43789..ed453f4 100644
--- a/fca/algorithms/factors.py
+++ b/fca/algorithms/factors.py
@@ -239,10 +239,10 @@ def algorithm2_w_condition(cxt, fidelity: float = 1,
                 else:
                     to_remove = to_remove_U
             elif good_factor(cpt=fca.Concept(C, D)):
-                if len(to_remove) == 0:
-                    raise Exception(
-                        f'Algorithm stuck, something went wrong, pairs left '
-                        f'{len(U)}')
+                if len(to_remove) == 0:  # nothing new is covered, restart
+                    U = {u for u in U if u[1] not in Dj}
+                    removed_atts |= Dj
+                    break
                 U -= to_remove
                 # print(f'Factor out: {len(C)}, {len(D)}')
                 yield fca.Concept(C, D), len(to_remove) / len_initial, (len_initial - len(U)) / len_initial
-- 
2.43.0


From d90a25c67be03595469b80e37c355fb9e2748cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:21 +0000
Subject: [PATCH 44/49] fix: conditional factorisation does not repeat what is
 covered

Without repetitions it could hand out a factor all of whose pairs had an
object or an attribute of an earlier factor, when attributes had to be added
to reach the minimum size.
---
 fca/algorithms/factors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fca/algorithms/factors.py b/fca/algorithms/factors.py
index ed453f4..f3dc4b5 100644
--- a/fca/algorithms/factors.py
+++ b/fca/algorithms/factors.py
@@ -239,7 +239,7 @@ def algorithm2_w_condition(cxt, fidelity: float = 1,
                 else:
                     to_remove = to_remove_U
             elif good_factor(cpt=fca.Concept(C, D)):
-                if len(to_remove) == 0:  # nothing new is covered, restart
+                if V == 0:  # nothing new is covered, restart
                     U = {u for u in U if u[1] not in Dj}
                     removed_atts |= Dj
                     break
-- 
2.43.0


From 38bad356773ee41ca46c4bdb6d0e86a5d02f4a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:15 +0000
Subject: [PATCH 45/49] fix: edits of a many-valued context keep its values

The edits inherited from Context rebuilt the table from the boolean shadow, so
deleting an object or an attribute, or adding an attribute, replaced every
value by True or False, and adding an object failed.
---
 fca/mvcontext.py | 36 ++++++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/fca/mvcontext.py b/fca/mvcontext.py
index a9da72b..0399ae6 100644
--- a/fca/mvcontext.py
+++ b/fca/mvcontext.py
@@ -83,6 +83,42 @@ class ManyValuedContext(Context):
         
     table = property(get_table)
 
+    def add_object(self, row, obj_name):
+        """Add new object with given values to context"""
+        if len(row) != len(self.attributes):
+            raise ValueError("Number of values (=%i) and number of attributes"
+                             " (=%i) must agree" % (len(row),
+                                                    len(self.attributes)))
+        self.__init__(self.table + [list(row)],
+                      self.objects + [obj_name],
+                      self.attributes)
+
+    def add_attribute(self, col, attr_name):
+        """Add new attribute with given values to context"""
+        if len(col) != len(self.objects):
+            raise ValueError("Number of values (=%i) and number of objects"
+                             " (=%i) must agree" % (len(col),
+                                                    len(self.objects)))
+        self.__init__([row + [value] for row, value in zip(self.table, col)],
+                      self.objects,
+                      self.attributes + [attr_name])
+
+    def delete_object(self, name):
+        i = self.object_indices[name]
+        self.__init__(self.table[:i] + self.table[i+1:],
+                      self.objects[:i] + self.objects[i+1:],
+                      self.attributes)
+
+    def delete_attribute(self, name):
+        self.delete_attributes([name])
+
+    def delete_attributes(self, names):
+        deleted = set(self.attribute_indices[name] for name in names)
+        kept = [j for j in range(len(self.attributes)) if j not in deleted]
+        self.__init__([[row[j] for j in kept] for row in self.table],
+                      self.objects,
+                      [self.attributes[j] for j in kept])
+
     def extract_subcontext(self, attribute_names):
         """Create a subcontext with only indicated attributes"""
         return ManyValuedContext(self._extract_subtable(attribute_names),
-- 
2.43.0


From 105daa2463abbed43a13198e4549a4fd9ad49dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:15 +0000
Subject: [PATCH 46/49] fix: copies and transpositions of a many-valued context
 keep its values

copy.deepcopy and transpose were inherited from Context; copies became binary
contexts (or held True and False in place of the values).
---
 fca/mvcontext.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/fca/mvcontext.py b/fca/mvcontext.py
index 0399ae6..aa6cd7b 100644
--- a/fca/mvcontext.py
+++ b/fca/mvcontext.py
@@ -3,6 +3,8 @@
 Holds class for many valued context
 """
 
+import copy
+
 from fca import Context
 
 class ManyValuedContext(Context):
@@ -83,6 +85,17 @@ class ManyValuedContext(Context):
         
     table = property(get_table)
 
+    def __deepcopy__(self, memo):
+        return ManyValuedContext(copy.deepcopy(self.table, memo),
+                                 self.objects[:],
+                                 self.attributes[:])
+
+    def transpose(self):
+        """Return new context with transposed table"""
+        table = [[row[j] for row in self.table]
+                 for j in range(len(self.attributes))]
+        return ManyValuedContext(table, self.attributes[:], self.objects[:])
+
     def add_object(self, row, obj_name):
         """Add new object with given values to context"""
         if len(row) != len(self.attributes):
-- 
2.43.0


From 7d4a1d99806cd6fc4f3aef55f323ad05bc102ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:15 +0000
Subject: [PATCH 47/49] fix: a many-valued context can be printed

The inherited __repr__ looked each value up among True and False and raised
KeyError for any other value.
---
 fca/mvcontext.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/fca/mvcontext.py b/fca/mvcontext.py
index aa6cd7b..64d143d 100644
--- a/fca/mvcontext.py
+++ b/fca/mvcontext.py
@@ -85,6 +85,12 @@ class ManyValuedContext(Context):
         
     table = property(get_table)
 
+    def __repr__(self):
+        output = ", ".join(map(str, self.attributes)) + "\n"
+        for name, row in zip(self.objects, self.table):
+            output += str(name) + "\t" + ", ".join(map(str, row)) + "\n"
+        return output
+
     def __deepcopy__(self, memo):
         return ManyValuedContext(copy.deepcopy(self.table, memo),
                                  self.objects[:],
-- 
2.43.0


From 63af3f3de8ee1d17bc9e9cbb3300e996ce53ef56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:42 +0000
Subject: [PATCH 48/49] fix: the conditional factorisation hands out the factor
 with all attributes left

When a factor grew to hold every attribute still available, generation ended
without handing it out, so that the incidences it covers stayed uncovered (a
context with a single concept had no factor at all).
---
 fca/algorithms/factors.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fca/algorithms/factors.py b/fca/algorithms/factors.py
index f3dc4b5..71cddd2 100644
--- a/fca/algorithms/factors.py
+++ b/fca/algorithms/factors.py
@@ -215,10 +215,11 @@ def algorithm2_w_condition(cxt, fidelity: float = 1,
             Dprime = cxt.aprime(D)
             ls_measures = [(len(_oplus(Dprime, j, cxt, U)), j)
                            for j in available_atts - D]
-            if not ls_measures:
+            if not ls_measures and (V == 0 or
+                                    not good_factor(cpt=fca.Concept(C, D))):
                 # print(f'Empty ls_measures. len(U) = {len(U)}, {set(u[1] for u in U)}, len(D) = {len(D)}, len(avail_atts) = {len(available_atts)}')
                 return
-            maxDj = max(ls_measures, key=lambda x: x[0])
+            maxDj = max(ls_measures, key=lambda x: x[0], default=(0, None))
             # print(D, Dprime, maxDj, V)
             # print(cxt)
             if maxDj[0] > V or not good_factor(cpt=fca.Concept(C, D)):  # update the values
-- 
2.43.0


From 0357191c47500e2f08efde77fd224a93580cda23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:13 +0000
Subject: [PATCH 49/49] fix: scales can be edited like the contexts they are

---
 fca/scale.py | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/fca/scale.py b/fca/scale.py
index 5d3ace0..e20746f 100644
--- a/fca/scale.py
+++ b/fca/scale.py
@@ -28,6 +28,28 @@ class Scale(Context):
                                     context.attributes)
 
 
+def _edit(name):
+    """An edit of a scale: that of the context it is
+
+    The edits of a context end with its constructor, those of scales take
+    other arguments.
+    """
+    def edit(self, *args, **kwargs):
+        context = Context(self.table, self.objects, self.attributes)
+        getattr(context, name)(*args, **kwargs)
+        Context.__init__(self, context.table, context.objects,
+                         context.attributes)
+    edit.__name__ = name
+    edit.__doc__ = getattr(Context, name).__doc__
+    return edit
+
+
+for _name in ("add_attribute", "add_object", "set_attribute_extent",
+              "set_object_intent", "delete_object", "delete_attribute",
+              "delete_attributes", "rename_object", "rename_attribute"):
+    setattr(Scale, _name, _edit(_name))
+
+
 class NominalScale(Scale):
     def __init__(self, attribute, mvcontext):
         """Generate a nominal scale for an attribute based on its values in the
-- 
2.43.0

