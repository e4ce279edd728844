From 37b137180ee53ddc4cb3d3a0f626cac62ebc1465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:34 +0000
Subject: [PATCH 01/45] fix: multiclans.is_right_regular stored and returned
 the regular flag

---
 algebraixlib/algebras/multiclans.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/algebraixlib/algebras/multiclans.py b/algebraixlib/algebras/multiclans.py
index ff0539b..83bf8b0 100644
--- a/algebraixlib/algebras/multiclans.py
+++ b/algebraixlib/algebras/multiclans.py
@@ -609,8 +609,8 @@ def is_right_regular(mclan, _checked=True) -> bool:
         right_set = rel.get_right_set()
         right_regular = all(
             _relations.is_right_functional(rel) and right_set == rel.get_right_set() for rel in itr)
-        mclan.cache_regular(CacheStatus.from_bool(right_regular))
-    return mclan.cached_is_regular
+        mclan.cache_right_regular(CacheStatus.from_bool(right_regular))
+    return mclan.cached_is_right_regular
 
 
 def is_reflexive(mclan, _checked=True) -> bool:
-- 
2.43.0


From 25c9b96bf173645c8f554b706bac1bc71ca01232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:34 +0000
Subject: [PATCH 02/45] fix: multiclans.superstrict must keep the
 multiplicities of its first argument

---
 algebraixlib/algebras/multiclans.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algebraixlib/algebras/multiclans.py b/algebraixlib/algebras/multiclans.py
index 83bf8b0..188e62b 100644
--- a/algebraixlib/algebras/multiclans.py
+++ b/algebraixlib/algebras/multiclans.py
@@ -299,7 +299,7 @@ class Algebra:
         result = _extension.binary_multi_extend(multiclan1, multiclan2, _functools.partial(
             _sets.superstrict, _checked=False), _checked=False)
         for elem, multi in result.data.items():
-            result.data[elem] = multiclan2.data[elem]
+            result.data[elem] = multiclan1.data[elem]
         if not result.is_empty:
             result.cache_multiclan(CacheStatus.IS)
             if multiclan1.cached_is_functional:
-- 
2.43.0


From 997fc2ed7e50f47c0dc6fe08f412603e821fb60d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:34 +0000
Subject: [PATCH 03/45] fix: plain integer offset of multiclan slices was
 replaced by the limit

---
 algebraixlib/algebras/multiclans.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algebraixlib/algebras/multiclans.py b/algebraixlib/algebras/multiclans.py
index 188e62b..e8ecf0c 100644
--- a/algebraixlib/algebras/multiclans.py
+++ b/algebraixlib/algebras/multiclans.py
@@ -698,7 +698,7 @@ def _to_listgen_check_args(mclan: 'P(P(M x M) x N)', offset: '( A )', limit: '(
         if isinstance(offset, _mo.Atom) and isinstance(offset.value, int):
             pass
         elif isinstance(offset, int):
-            offset = _mo.Atom(limit)
+            offset = _mo.Atom(offset)
         elif offset is _undef.Undef():
             return _undef.make_or_raise_undef(2)
         else:
-- 
2.43.0


From d053a1050ce44dca2470ee48c26affc56ba7483e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:54 +0000
Subject: [PATCH 04/45] fix: slicing a multiclan inside one repeated row (or
 with limit 0) gave wrong multiplicities

---
 algebraixlib/algebras/multiclans.py | 48 +++++++----------------------
 1 file changed, 11 insertions(+), 37 deletions(-)

diff --git a/algebraixlib/algebras/multiclans.py b/algebraixlib/algebras/multiclans.py
index e8ecf0c..d144a44 100644
--- a/algebraixlib/algebras/multiclans.py
+++ b/algebraixlib/algebras/multiclans.py
@@ -731,43 +731,17 @@ def _to_listgen_slice(counter_list: [()], offset, limit):
         # Effectively no offset and limit. Return sorted list as-is.
         return counter_list
 
-    # Find the list indices of the first and last tuple (representing a relation and a multiplicity)
-    # and the resulting multiplicities in these first and last tuples (which may be different from
-    # their original multiplicities).
-    start_index = first_multiple = None
-    end_index = last_multiple = None
-    start_offset_next_tuple = 0
-    for index, counter_entry in enumerate(counter_list):
-        # Calculate the starting offset of the next tuple (by adding the multiplicity of the
-        # current tuple).
-        start_offset_next_tuple += counter_entry[1]
-        if start_index is None and start_offset < start_offset_next_tuple:
-            start_index = index
-            first_multiple = start_offset_next_tuple - start_offset
-            assert first_multiple <= counter_list[start_index][1]
-        if start_index is not None and end_offset <= start_offset_next_tuple:
-            end_index = index
-            last_multiple = counter_list[end_index][1] - (start_offset_next_tuple - end_offset)
-            assert counter_list[end_index][1] > (start_offset_next_tuple - end_offset)
-            break
-    if start_index is None:
-        # No start_index found: start_offset is bigger than all existing offsets. Nothing selected.
-        assert end_index is None
-        return []
-    if end_index is None:
-        # No end_index found: end_offset is bigger than all existing offsets. Put end_index beyond
-        # list bounds.
-        end_index = len(counter_list)
-
-    # If needed, adjust the multiplicities of the first and last tuple in the selected range.
-    if start_index < len(counter_list) and counter_list[start_index][1] != first_multiple:
-        counter_list[start_index] = (counter_list[start_index][0], first_multiple)
-    if end_index < len(counter_list) and counter_list[end_index][1] != last_multiple:
-        counter_list[end_index] = (counter_list[end_index][0], last_multiple)
-
-    # Create and return a generator expression to avoid another copy of the data.
-    limited_list_iter = (counter_tuple for counter_tuple in counter_list[start_index:end_index + 1])
-    return limited_list_iter
+    # Keep the part of every tuple (representing a relation and its multiplicity) that falls into the
+    # requested range of positions. (Start and end of the range may be in the same tuple.)
+    sliced_list = []
+    position = 0
+    for elem, multiplicity in counter_list:
+        next_position = position + multiplicity
+        sliced_multiplicity = min(next_position, end_offset) - max(position, start_offset)
+        if sliced_multiplicity > 0:
+            sliced_list.append((elem, sliced_multiplicity))
+        position = next_position
+    return sliced_list
 
 
 def multiclan_to_listgen(mclan: 'P(P(M x M) x N)', offset: '( A )', limit: '( A )',
-- 
2.43.0


From 1b8fbd9976b5768575ca192a5c6cd6c134518d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:54 +0000
Subject: [PATCH 05/45] fix: clans.from_set marked clans with different right
 components as right-regular

---
 algebraixlib/algebras/clans.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algebraixlib/algebras/clans.py b/algebraixlib/algebras/clans.py
index c273c6c..72cb95c 100644
--- a/algebraixlib/algebras/clans.py
+++ b/algebraixlib/algebras/clans.py
@@ -702,7 +702,7 @@ def from_set(left: '( M )', *values: '( M )') -> 'PP(M x M)':
         direct_load=True)
     clan.cache_clan(CacheStatus.IS)
     clan.cache_functional(CacheStatus.IS).cache_right_functional(CacheStatus.IS)
-    clan.cache_regular(CacheStatus.IS).cache_right_regular(CacheStatus.IS)
+    clan.cache_regular(CacheStatus.IS)
     return clan
 
 
-- 
2.43.0


From f0f72bda9f8aca4b442997fb68d83dab27de1247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:54 +0000
Subject: [PATCH 06/45] fix: asking whether an empty set or multiset is
 right-regular raised StopIteration

---
 algebraixlib/mathobjects/multiset.py | 1 +
 algebraixlib/mathobjects/set.py      | 1 +
 2 files changed, 2 insertions(+)

diff --git a/algebraixlib/mathobjects/multiset.py b/algebraixlib/mathobjects/multiset.py
index a68bfe1..0740e1f 100755
--- a/algebraixlib/mathobjects/multiset.py
+++ b/algebraixlib/mathobjects/multiset.py
@@ -66,6 +66,7 @@ def _init_cache_empty() -> int:
     flags.f.functional = CacheStatus.IS
     flags.f.right_functional = CacheStatus.IS
     flags.f.regular = CacheStatus.IS
+    flags.f.right_regular = CacheStatus.IS
     # These three are defined for multiclans (multisets of relations), where they inherit the
     # definition from (non-multi) relations.
     flags.f.reflexive = CacheStatus.IS
diff --git a/algebraixlib/mathobjects/set.py b/algebraixlib/mathobjects/set.py
index 95507fb..be3d57f 100755
--- a/algebraixlib/mathobjects/set.py
+++ b/algebraixlib/mathobjects/set.py
@@ -93,6 +93,7 @@ def _init_cache_empty() -> int:
     flags.f.relation = CacheStatus.IS
     flags.f.functional = CacheStatus.IS
     flags.f.regular = CacheStatus.IS
+    flags.f.right_regular = CacheStatus.IS
     flags.f.right_functional = CacheStatus.IS
     flags.f.reflexive = CacheStatus.IS
     flags.f.symmetric = CacheStatus.IS
-- 
2.43.0


From 4a7409dedc719b5ad5da3c701206218de7cb1736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:24 +0000
Subject: [PATCH 07/45] fix: membership in relations, clans and multiclans is
 decided element by element

Ground sets cannot tell {{}} (a clan) from a relation, or {{}, a->b} from a relation.
---
 algebraixlib/algebras/clans.py      | 39 ++++++++++-------------------
 algebraixlib/algebras/multiclans.py | 38 +++++++++-------------------
 algebraixlib/algebras/relations.py  | 37 ++++++++-------------------
 3 files changed, 36 insertions(+), 78 deletions(-)

diff --git a/algebraixlib/algebras/clans.py b/algebraixlib/algebras/clans.py
index 72cb95c..fe687c0 100644
--- a/algebraixlib/algebras/clans.py
+++ b/algebraixlib/algebras/clans.py
@@ -400,11 +400,11 @@ def is_member(obj: _mo.MathObject) -> bool:
 
      :return: ``True`` if ``obj`` is a :term:`clan`, ``False`` if not.
 
-    .. note:: This function may call :meth:`~.MathObject.get_ground_set` on ``obj``. The result of
-        this operation is cached.
+    .. note:: This function may examine all elements of ``obj``. The result of this operation is
+        cached.
     """
     if obj.cached_clan == CacheStatus.UNKNOWN:
-        is_clan = obj.get_ground_set().is_subset(get_ground_set())
+        is_clan = obj.is_set and all(_relations.is_member(elem) for elem in obj)
         obj.cache_clan(CacheStatus.from_bool(is_clan))
     return obj.cached_is_clan
 
@@ -424,31 +424,18 @@ def is_absolute_member(obj: _mo.MathObject) -> bool:
 
      :return: ``True`` if ``obj`` is an :term:`absolute clan`, ``False`` if not.
 
-    .. note:: This function may call :meth:`~.MathObject.get_ground_set` on ``obj``. The result
-        of this operation is cached.
+    .. note:: This function may examine all elements of ``obj``. The result of this operation is
+        cached.
     """
-    if obj.cached_is_not_clan:
-        # If known to not be a clan, it's also not an absolute clan. No further caching.
+    if not is_member(obj):
+        # If it is not a clan, it's also not an absolute clan. (That it is not a clan has been
+        # cached in is_member().)
         return False
-    # The `or` clause in this `if` statement is a safety thing. It should never hit.
-    if obj.cached_absolute == CacheStatus.UNKNOWN or obj.cached_clan == CacheStatus.UNKNOWN:
-        # The 'absolute' state has not yet been cached. Determine whether obj is an absolute clan.
-        is_absolute_clan = obj.get_ground_set().is_subset(get_absolute_ground_set())
-        if obj.cached_clan == CacheStatus.UNKNOWN:
-            if is_absolute_clan:
-                # If it is an absolute clan, it is also a clan.
-                obj.cache_clan(CacheStatus.IS)
-            else:
-                # If it is not an absolute clan, it may still be a clan.
-                is_clan = is_member(obj)
-                if not is_clan:
-                    # If it is neither an absolute clan nor a clan, exit. (That it is not a clan
-                    # has already been cached in is_member().)
-                    return False
-        # At this point, cached_clan == IS. Cache whether this is an absolute clan.
-        assert obj.cached_is_clan
-        obj.cache_absolute(CacheStatus.from_bool(is_absolute_clan))
-    # At this point, cached_clan == IS. Return whether it is an absolute clan.
+    if obj.cached_absolute == CacheStatus.UNKNOWN:
+        # The 'absolute' state has not yet been cached. Determine whether obj is an absolute
+        # clan.
+        is_absolute = all(_relations.is_absolute_member(elem) for elem in obj)
+        obj.cache_absolute(CacheStatus.from_bool(is_absolute))
     return obj.cached_is_absolute
 
 
diff --git a/algebraixlib/algebras/multiclans.py b/algebraixlib/algebras/multiclans.py
index d144a44..c43838d 100644
--- a/algebraixlib/algebras/multiclans.py
+++ b/algebraixlib/algebras/multiclans.py
@@ -369,11 +369,11 @@ def is_member(obj: _mo.MathObject) -> bool:
 
      :return: ``True`` if ``obj`` is a :term:`multiclan`, ``False`` if not.
 
-    .. note:: This function may call :meth:`~.MathObject.get_ground_set` on ``obj``. The result of
-        this operation is cached.
+    .. note:: This function may examine all elements of ``obj``. The result of this operation is
+        cached.
     """
     if obj.cached_multiclan == CacheStatus.UNKNOWN:
-        is_multiclan = obj.get_ground_set().is_subset(get_ground_set())
+        is_multiclan = obj.is_multiset and all(_relations.is_member(elem) for elem in obj.data)
         obj.cache_multiclan(CacheStatus.from_bool(is_multiclan))
     return obj.cached_is_multiclan
 
@@ -393,33 +393,19 @@ def is_absolute_member(obj: _mo.MathObject) -> bool:
 
      :return: ``True`` if ``obj`` is an :term:`absolute clan`, ``False`` if not.
 
-    .. note:: This function may call :meth:`~.MathObject.get_ground_set` on ``obj``. The result
-        of this operation is cached.
+    .. note:: This function may examine all elements of ``obj``. The result of this operation is
+        cached.
     """
-    if obj.cached_is_not_multiclan:
-        # If known to not be a multiclan, it's also not an absolute multiclan. No further caching.
+    if not is_member(obj):
+        # If it is not a multiclan, it is also not an absolute multiclan. (That it is not a
+        # multiclan has been
+        # cached in is_member().)
         return False
-    # The `or` clause in this `if` statement is a safety thing. It should never hit.
-    if obj.cached_absolute == CacheStatus.UNKNOWN \
-            or obj.cached_multiclan == CacheStatus.UNKNOWN:
+    if obj.cached_absolute == CacheStatus.UNKNOWN:
         # The 'absolute' state has not yet been cached. Determine whether obj is an absolute
         # multiclan.
-        is_absolute_mclan = obj.get_ground_set().is_subset(get_absolute_ground_set())
-        if obj.cached_multiclan == CacheStatus.UNKNOWN:
-            if is_absolute_mclan:
-                # If it is an absolute multiclan, it is also a multiclan.
-                obj.cache_multiclan(CacheStatus.IS)
-            else:
-                # If it is not an absolute multiclan, it may still be a multiclan.
-                is_mclan = is_member(obj)
-                if not is_mclan:
-                    # If it is neither an absolute multiclan nor a multiclan, exit. (That it is
-                    # not a multiclan has already been cached in is_member().)
-                    return False
-        # At this point, cached_multiclan == IS. Cache whether this is an absolute multiclan.
-        assert obj.cached_is_multiclan
-        obj.cache_absolute(CacheStatus.from_bool(is_absolute_mclan))
-    # At this point, cached_multiclan == IS. Return whether it is an absolute multiclan.
+        is_absolute = all(_relations.is_absolute_member(elem) for elem in obj.data)
+        obj.cache_absolute(CacheStatus.from_bool(is_absolute))
     return obj.cached_is_absolute
 
 
diff --git a/algebraixlib/algebras/relations.py b/algebraixlib/algebras/relations.py
index bf0181b..8c03ed0 100644
--- a/algebraixlib/algebras/relations.py
+++ b/algebraixlib/algebras/relations.py
@@ -192,11 +192,11 @@ def is_member(obj: _mo.MathObject) -> bool:
 
      :return: ``True`` if ``obj`` is a :term:`relation`, ``False`` if not.
 
-    .. note:: This function may call :meth:`~.MathObject.get_ground_set` on ``obj``. The result
-        of this operation is cached.
+    .. note:: This function may examine all elements of ``obj``. The result of this operation is
+        cached.
     """
     if obj.cached_relation == CacheStatus.UNKNOWN:
-        is_relation = obj.get_ground_set().is_subset(get_ground_set())
+        is_relation = obj.is_set and all(_couplets.is_member(elem) for elem in obj)
         obj.cache_relation(CacheStatus.from_bool(is_relation))
     return obj.cached_is_relation
 
@@ -216,33 +216,18 @@ def is_absolute_member(obj: _mo.MathObject) -> bool:
 
      :return: ``True`` if ``obj`` is an :term:`absolute relation`, ``False`` if not.
 
-    .. note:: This function may call :meth:`~.MathObject.get_ground_set` on ``obj``. The result
-        of this operation is cached.
+    .. note:: This function may examine all elements of ``obj``. The result of this operation is
+        cached.
     """
-    if obj.cached_is_not_relation:
-        # If known to not be a relation, it's also not an absolute relation. No further caching.
+    if not is_member(obj):
+        # If it is not a relation, it's also not an absolute relation. (That it is not a relation has been
+        # cached in is_member().)
         return False
-    # The `or` clause in this `if` statement is a safety thing. It should never hit.
-    if obj.cached_absolute == CacheStatus.UNKNOWN \
-            or obj.cached_relation == CacheStatus.UNKNOWN:
+    if obj.cached_absolute == CacheStatus.UNKNOWN:
         # The 'absolute' state has not yet been cached. Determine whether obj is an absolute
         # relation.
-        is_absolute_relation = obj.get_ground_set().is_subset(get_absolute_ground_set())
-        if obj.cached_relation == CacheStatus.UNKNOWN:
-            if is_absolute_relation:
-                # If it is an absolute relation, it is also a relation.
-                obj.cache_relation(CacheStatus.IS)
-            else:
-                # If it is not an absolute relation, it may still be a relation.
-                is_relation = is_member(obj)
-                if not is_relation:
-                    # If it is neither an absolute relation nor a relation, exit. (That it is not a
-                    # relation has already been cached in is_member().)
-                    return False
-        # At this point, cached_relation == IS. Cache whether this is an absolute relation.
-        assert obj.cached_is_relation
-        obj.cache_absolute(CacheStatus.from_bool(is_absolute_relation))
-    # At this point, cached_relation == IS. Return whether it is an absolute relation.
+        is_absolute = all(_couplets.is_absolute_member(elem) for elem in obj)
+        obj.cache_absolute(CacheStatus.from_bool(is_absolute))
     return obj.cached_is_absolute
 
 
-- 
2.43.0


From af7069bf6f1495107cc33839e39cae74627ac072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:24 +0000
Subject: [PATCH 08/45] fix: regularity queries on sets of clans raised
 AttributeError

---
 algebraixlib/algebras/properties.py | 37 ++++++++++-------------------
 1 file changed, 12 insertions(+), 25 deletions(-)

diff --git a/algebraixlib/algebras/properties.py b/algebraixlib/algebras/properties.py
index 271e2d4..9830533 100755
--- a/algebraixlib/algebras/properties.py
+++ b/algebraixlib/algebras/properties.py
@@ -326,16 +326,10 @@ def is_regular(mo: _mo.MathObject, _checked: bool=True) -> bool:
         return _multiclans.is_regular(mo, _checked=False)
 
     # Check higher (not yet defined) algebras.
-    if mo.get_ground_set().get_powerset_level(_clans.get_ground_set()) > 0:
-        mo_iter = iter(mo)
-        elem1 = next(mo_iter)
-        if not is_regular(elem1):
-            mo.cache_regular(CacheStatus.IS_NOT)
-            return False
-        elem1_lefts = elem1.get_lefts()
-        regular = all(
-            is_regular(elem, _checked=False) and elem.get_lefts() == elem1_lefts
-            for elem in mo_iter)
+    regular = _is_powerset_property(mo, _clans.get_ground_set(), is_regular)
+    if regular is not _undef.Undef():
+        if regular:
+            regular = len({elem.get_left_set() for elem in mo}) == 1
         mo.cache_regular(CacheStatus.from_bool(regular))
         return mo.cached_is_regular
 
@@ -374,16 +368,10 @@ def is_right_regular(mo: _mo.MathObject, _checked: bool=True) -> bool:
         return _multiclans.is_right_regular(mo, _checked=False)
 
     # Check higher (not yet defined) algebras.
-    if mo.get_ground_set().get_powerset_level(_clans.get_ground_set()) > 0:
-        mo_iter = iter(mo)
-        elem1 = next(mo_iter)
-        if not is_right_regular(elem1):
-            mo.cache_right_regular(CacheStatus.IS_NOT)
-            return False
-        elem1_rights = elem1.get_rights()
-        right_regular = all(
-            is_right_regular(elem, _checked=False) and elem.get_rights() == elem1_rights
-            for elem in mo_iter)
+    right_regular = _is_powerset_property(mo, _clans.get_ground_set(), is_right_regular)
+    if right_regular is not _undef.Undef():
+        if right_regular:
+            right_regular = len({elem.get_right_set() for elem in mo}) == 1
         mo.cache_right_regular(CacheStatus.from_bool(right_regular))
         return mo.cached_is_right_regular
 
@@ -409,9 +397,8 @@ def _is_powerset_property(mo: _mo.MathObject, ground_set, method) -> bool:
         if it  isn't an element of an n-th power set.
     """
     if mo.get_ground_set().get_powerset_level(ground_set) > 0:
-        for element in mo:
-            result = method(element)
-            if result is _undef.Undef() or not result:
-                return result
-        return True
+        results = [method(element) for element in mo]
+        if any(result is _undef.Undef() for result in results):
+            return _undef.Undef()
+        return all(results)
     return _undef.Undef()
-- 
2.43.0


From e14c30bc3b29226b6fcdaf78f015752eda7e9bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:24 +0000
Subject: [PATCH 09/45] fix: functional cross-unions marked results as not
 right-functional without knowing it

---
 algebraixlib/algebras/clans.py      | 4 ----
 algebraixlib/algebras/multiclans.py | 4 ----
 2 files changed, 8 deletions(-)

diff --git a/algebraixlib/algebras/clans.py b/algebraixlib/algebras/clans.py
index fe687c0..1c3debb 100644
--- a/algebraixlib/algebras/clans.py
+++ b/algebraixlib/algebras/clans.py
@@ -163,8 +163,6 @@ class Algebra:
         if not result.is_empty:
             result.cache_clan(CacheStatus.IS)
             result.cache_functional(CacheStatus.IS)
-            if clan1.cached_is_not_right_functional or clan2.cached_is_not_right_functional:
-                result.cache_right_functional(CacheStatus.IS_NOT)
         return result
 
     @staticmethod
@@ -232,8 +230,6 @@ class Algebra:
         if not result.is_empty:
             result.cache_clan(CacheStatus.IS)
             result.cache_right_functional(CacheStatus.IS)
-            if clan1.cached_is_not_functional or clan2.cached_is_not_functional:
-                result.cache_functional(CacheStatus.IS_NOT)
         return result
 
     @staticmethod
diff --git a/algebraixlib/algebras/multiclans.py b/algebraixlib/algebras/multiclans.py
index c43838d..a434e73 100644
--- a/algebraixlib/algebras/multiclans.py
+++ b/algebraixlib/algebras/multiclans.py
@@ -162,8 +162,6 @@ class Algebra:
         if not result.is_empty:
             result.cache_multiclan(CacheStatus.IS)
             result.cache_functional(CacheStatus.IS)
-            if mclan1.cached_is_not_right_functional or mclan2.cached_is_not_right_functional:
-                result.cache_right_functional(CacheStatus.IS_NOT)
         return result
 
     @staticmethod
@@ -192,8 +190,6 @@ class Algebra:
         if not result.is_empty:
             result.cache_multiclan(CacheStatus.IS)
             result.cache_right_functional(CacheStatus.IS)
-            if multiclan1.cached_is_not_functional or multiclan2.cached_is_not_functional:
-                result.cache_functional(CacheStatus.IS_NOT)
         return result
 
     @staticmethod
-- 
2.43.0


From 1ced999dab5f1f33201cc3628fc4ffae33764c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:24 +0000
Subject: [PATCH 10/45] fix: lhs_cross_functional_union marked regular or
 right-functional results as not being so

---
 algebraixlib/algebras/clans.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/algebraixlib/algebras/clans.py b/algebraixlib/algebras/clans.py
index 1c3debb..554df5f 100644
--- a/algebraixlib/algebras/clans.py
+++ b/algebraixlib/algebras/clans.py
@@ -196,10 +196,8 @@ class Algebra:
             result.cache_clan(CacheStatus.IS)
             if lhs.cached_is_functional:
                 result.cache_functional(CacheStatus.IS)
-            if lhs.cached_is_not_right_functional or rhs.cached_is_not_right_functional:
+            if lhs.cached_is_not_right_functional:
                 result.cache_right_functional(CacheStatus.IS_NOT)
-            if not rhs.is_empty and not lhs_rest.is_empty:
-                result.cache_regular(CacheStatus.IS_NOT)
         return result
 
     @staticmethod
-- 
2.43.0


From 250f0d56034b81805fe92d07072af2ec8aab6461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:54 +0000
Subject: [PATCH 11/45] fix: power set of the empty set was marked as not
 regular

---
 algebraixlib/algebras/sets.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/algebraixlib/algebras/sets.py b/algebraixlib/algebras/sets.py
index 48dd7af..be20334 100644
--- a/algebraixlib/algebras/sets.py
+++ b/algebraixlib/algebras/sets.py
@@ -569,8 +569,9 @@ def power_set(set_: _mo.Set):
             result.cache_absolute(set_.cached_absolute)
             result.cache_functional(set_.cached_functional)
             result.cache_right_functional(set_.cached_right_functional)
-            result.cache_regular(CacheStatus.IS_NOT)
-            result.cache_right_regular(CacheStatus.IS_NOT)
+            if not set_.is_empty:
+                result.cache_regular(CacheStatus.IS_NOT)
+                result.cache_right_regular(CacheStatus.IS_NOT)
     return result
 
 
-- 
2.43.0


From f462b34220b702cb20aedad5bacf38c388fab979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:56 +0000
Subject: [PATCH 12/45] fix: parts of a partition were marked as non-clans
 because the whole is not a clan

---
 algebraixlib/partition.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/algebraixlib/partition.py b/algebraixlib/partition.py
index 5499ef8..f620db2 100644
--- a/algebraixlib/partition.py
+++ b/algebraixlib/partition.py
@@ -17,6 +17,7 @@ r"""Operations for partitioning :term:`set`\s and :term:`multiset`\s."""
 import collections as _collections
 
 import algebraixlib.mathobjects as _mo
+from algebraixlib.cache_status import CacheStatus
 
 
 def _create_partition_dict_from_set(set_, class_invariant_func):
@@ -87,14 +88,18 @@ def partition(set_or_mset, class_invariant_func):
     if set_or_mset.is_set:
         partition_dict = _create_partition_dict_from_set(set_or_mset, class_invariant_func)
         # Create the resulting Set of Sets from the partition components.
+        # (A part of a set that is not a clan may still be a clan.)
+        clan_status = CacheStatus.IS if set_or_mset.cached_is_clan else CacheStatus.UNKNOWN
         return _mo.Set((_mo.Set(components, direct_load=True)
-            .cache_clan(set_or_mset.cached_clan)
+            .cache_clan(clan_status)
             for components in partition_dict.values()), direct_load=True)
     elif set_or_mset.is_multiset:
         partition_dict = _create_partition_dict_from_multiset(set_or_mset, class_invariant_func)
         # Create the resulting Set of Multisets from the partition components.
+        # (A part of a multiset that is not a multiclan may still be a multiclan.)
+        multiclan_status = CacheStatus.IS if set_or_mset.cached_is_multiclan else CacheStatus.UNKNOWN
         return _mo.Set((_mo.Multiset(counter, direct_load=True)
-            .cache_multiclan(set_or_mset.cached_multiclan)
+            .cache_multiclan(multiclan_status)
             for counter in partition_dict.values()), direct_load=True)
     else:
         raise AssertionError('First argument must be Set or Multiset')
@@ -118,13 +123,15 @@ def make_labeled_partition(set_or_mset, class_invariant_func):
     """
     if set_or_mset.is_set:
         partition_dict = _create_partition_dict_from_set(set_or_mset, class_invariant_func)
+        clan_status = CacheStatus.IS if set_or_mset.cached_is_clan else CacheStatus.UNKNOWN
         return _mo.Set((_mo.Couplet(label, _mo.Set(components, direct_load=True)
-                .cache_clan(set_or_mset.cached_clan), direct_load=True)
+                .cache_clan(clan_status), direct_load=True)
             for label, components in partition_dict.items()), direct_load=True)
     elif set_or_mset.is_multiset:
         partition_dict = _create_partition_dict_from_multiset(set_or_mset, class_invariant_func)
+        multiclan_status = CacheStatus.IS if set_or_mset.cached_is_multiclan else CacheStatus.UNKNOWN
         return _mo.Set((_mo.Couplet(label, _mo.Multiset(counter, direct_load=True)
-                .cache_multiclan(set_or_mset.cached_multiclan), direct_load=True)
+                .cache_multiclan(multiclan_status), direct_load=True)
             for label, counter in partition_dict.items()), direct_load=True)
     else:
         raise AssertionError('First argument must be Set or Multiset')
-- 
2.43.0


From 57d06fd4e370b0c84bee576965c5834e0d79b2b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:56 +0000
Subject: [PATCH 13/45] fix: indexing a multiclan returned a multiset flagged
 as empty

---
 algebraixlib/mathobjects/multiset.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/algebraixlib/mathobjects/multiset.py b/algebraixlib/mathobjects/multiset.py
index 0740e1f..efddd9a 100755
--- a/algebraixlib/mathobjects/multiset.py
+++ b/algebraixlib/mathobjects/multiset.py
@@ -305,12 +305,12 @@ class Multiset(MathObject):
     def _getitem_multiclan(self, left):
         """Return a multiset with the rights of all the couplets in all relations that have a
         left of ``left``."""
-        result = Multiset()
+        result = _collections.Counter()
         for rel in self:
             rel_result = rel[left]
             if rel_result is not _ud.Undef():
-                result.data.update(rel_result)
-        return result
+                result.update(rel_result)
+        return Multiset(result, direct_load=True)
 
     def _getitem_multirelation(self, left):
         """Return a multiset with the rights of all the couplets that have a left of ``left``."""
-- 
2.43.0


From 52ae29a4e10f757b4c9bd6990f055373f7dae9d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:56 +0000
Subject: [PATCH 14/45] fix: unchecked unary_extend failed on undefined
 arguments

---
 algebraixlib/extension.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algebraixlib/extension.py b/algebraixlib/extension.py
index 73729ac..4365216 100644
--- a/algebraixlib/extension.py
+++ b/algebraixlib/extension.py
@@ -111,7 +111,7 @@ def unary_extend(set_: 'P( M )', op, _checked=True) -> 'P( M )':
             return _undef.make_or_raise_undef2(set_)
     else:
         assert _sets.is_member_or_undef(set_)
-        if set is _undef.Undef():
+        if set_ is _undef.Undef():
             return _undef.make_or_raise_undef(2)
 
     def _get_values(_set):
-- 
2.43.0


From 8eef5fd0192a084b228484c6cd21f00b889eb7fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:56 +0000
Subject: [PATCH 15/45] fix: multiclans.get_rights_for_left raised
 StopIteration for an empty multiclan

---
 algebraixlib/algebras/multiclans.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/algebraixlib/algebras/multiclans.py b/algebraixlib/algebras/multiclans.py
index a434e73..012cddf 100644
--- a/algebraixlib/algebras/multiclans.py
+++ b/algebraixlib/algebras/multiclans.py
@@ -482,6 +482,9 @@ def get_rights_for_left(mclan: 'P(P(M x M) x N)', left: '( M )', _checked=True)
             return _undef.make_or_raise_undef(2)
         if left is _undef.Undef():
             return _mo.Set()
+    if mclan.is_empty:
+        # The empty multiset has no rights for any left.
+        return mclan
     clan_itr = iter(mclan)
     rights = _sets.multify(_relations.get_rights_for_left(next(clan_itr), left, _checked=False))
     for rel in clan_itr:
-- 
2.43.0


From 596a6567aa8997052b065d07783f8aabe3649448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:35 +0000
Subject: [PATCH 16/45] fix: couplets with an empty set as right component had
 no ground set (AssertionError)

---
 algebraixlib/structure.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/algebraixlib/structure.py b/algebraixlib/structure.py
index f4a482f..8779897 100644
--- a/algebraixlib/structure.py
+++ b/algebraixlib/structure.py
@@ -309,9 +309,8 @@ class CartesianProduct(Structure):
         :param right: The ground set of the :term:`right component` of a couplet. Must be an
             instance of `Structure`.
         """
-        right_is_struct = isinstance(right, Structure)
-        right_not_struct = type(right) != Structure
-        assert right_is_struct and right_not_struct
+        assert isinstance(left, Structure)
+        assert isinstance(right, Structure)
         self._left = left
         self._right = right
 
-- 
2.43.0


From 608b45d8b20401e020cc0671533e15cc4263d332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:01 +0000
Subject: [PATCH 17/45] fix: subset tests of structures against unions ignored
 the members of the union

---
 algebraixlib/structure.py | 48 +++++++++++++++++++--------------------
 1 file changed, 23 insertions(+), 25 deletions(-)

diff --git a/algebraixlib/structure.py b/algebraixlib/structure.py
index 8779897..6a8d58c 100644
--- a/algebraixlib/structure.py
+++ b/algebraixlib/structure.py
@@ -161,6 +161,8 @@ class GenesisSetA(Structure):
         :return: ``True`` if ``self`` is a subset of ``other``.
         """
         assert isinstance(other, Structure)
+        if isinstance(other, Union):
+            return other.has_superset_of(self)
         return type(other) == GenesisSetA or type(other) == GenesisSetM
 
     def get_powerset_level(self, other: Structure) -> int:
@@ -215,6 +217,8 @@ class GenesisSetM(Structure):
         :return: ``True`` if ``self`` is a subset of ``other``.
         """
         assert isinstance(other, Structure)
+        if isinstance(other, Union):
+            return other.has_superset_of(self)
         return type(other) == GenesisSetM
 
     def get_powerset_level(self, other):
@@ -262,6 +266,8 @@ class GenesisSetN(Structure):
         :return: ``True`` if ``self`` is a subset of ``other``.
         """
         assert isinstance(other, Structure)
+        if isinstance(other, Union):
+            return other.has_superset_of(self)
         return type(other) == GenesisSetN
 
     def get_powerset_level(self, other):
@@ -331,8 +337,7 @@ class CartesianProduct(Structure):
 
         -   A `CartesianProduct` and both left and right components must be subsets of left and
             right components of ``other``, or
-        -   A :class:`~Union` that contains an instance of `CartesianProduct` where both left and
-            right component are subsets of left and right components of ``other``, or
+        -   A :class:`~Union` with a member of which ``self`` is a subset, or
         -   `GenesisSetM` (everything in our system is a subset of :math:`M`).
 
         :param other: Must be an instance of `Structure`.
@@ -348,10 +353,7 @@ class CartesianProduct(Structure):
         elif isinstance(other, CartesianProduct):
             return is_subset_of_cart_prod(other)
         elif isinstance(other, Union):
-            for union_elem in other.data:
-                if isinstance(union_elem, CartesianProduct):
-                    if is_subset_of_cart_prod(union_elem):
-                        return True
+            return other.has_superset_of(self)
         return False
 
     def get_powerset_level(self, other: Structure) -> int:
@@ -447,31 +449,25 @@ class Union(Structure):
         -   If ``other`` is a union, we compare against each element of it.
         -   If ``other`` is not a union, we compare directly against it.
 
-        Is also ``True`` if ``other`` is `GenesisSetM` (everything in our system is an element of
-        :math:`M`).
-
         :param other: Must be an instance of `Structure`.
         :return: ``True`` if ``self`` is a subset of ``other``.
         """
         assert isinstance(other, Structure)
+        for element in self.data:
+            if not element.is_subset(other):
+                return False  # If any element is not a subset of other, return False.
+        return True  # Only return True if all elements are a subset of other.
 
-        def is_subset_of_union(elem, union):
-            for union_elem in union:
-                if elem.is_subset(union_elem):
-                    return True  # If elem is a subset of any element of union, return True.
-            return False  # Only return False if elem is not a subset of any element of union.
+    def has_superset_of(self, structure: Structure) -> bool:
+        """Return ``True`` if ``structure`` is a :term:`subset` of a member of this :term:`union`.
 
-        if isinstance(other, GenesisSetM):
-            return True
-        elif isinstance(other, Union):
-            for element in self.data:
-                if not is_subset_of_union(element, other.data):
-                    return False  # If any element is not a subset of other, return False.
-        else:
-            for element in self.data:
-                if not element.is_subset(other):
-                    return False  # If any element is not a subset of other, return False.
-        return True  # Only return True if all elements are a subset of other.
+        :param structure: Must be an instance of `Structure` (but not a union).
+        :return: ``True`` if ``structure`` is a subset of any member of this union.
+        """
+        for element in self.data:
+            if structure.is_subset(element):
+                return True
+        return False
 
     def get_powerset_level(self, other: Structure) -> int:
         """Return the number of power set levels between ``self`` and ``other``.
@@ -548,6 +544,8 @@ class PowerSet(Structure):
             return True
         elif isinstance(other, PowerSet):
             return self._base_set.is_subset(other._base_set)
+        elif isinstance(other, Union):
+            return other.has_superset_of(self)
         return False
 
     def get_powerset_level(self, other: Structure) -> int:
-- 
2.43.0


From 72eac279cdbde51e2a62e9e92ff3159c84b13c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:01 +0000
Subject: [PATCH 18/45] fix: unions of structures kept members that are subsets
 of other members

---
 algebraixlib/structure.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/algebraixlib/structure.py b/algebraixlib/structure.py
index 6a8d58c..de35c2a 100644
--- a/algebraixlib/structure.py
+++ b/algebraixlib/structure.py
@@ -416,13 +416,12 @@ class Union(Structure):
                 if new_element.is_subset(existing_element):
                     # To be added element is subset of existing element: nothing to add.
                     break
-                elif existing_element.is_subset(new_element):
-                    # To be added element is (real) superset of existing element: exchange them.
-                    writeable_union.remove(existing_element)
-                    writeable_union.add(new_element)
-                    break
             else:
-                # To be added element is neither subset nor superset of existing: add it.
+                # To be added element is not a subset of existing: add it and remove all elements
+                # of which it is a (real) superset.
+                for existing_element in list(writeable_union):
+                    if existing_element.is_subset(new_element):
+                        writeable_union.remove(existing_element)
                 writeable_union.add(new_element)
 
         writeable_union = set()
-- 
2.43.0


From d469b51e5b8b1ee5d34945442d21339b514e0987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:31 +0000
Subject: [PATCH 19/45] fix: a union with a single member was equal to this
 member in one direction only

---
 algebraixlib/structure.py | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/algebraixlib/structure.py b/algebraixlib/structure.py
index de35c2a..ff543c6 100644
--- a/algebraixlib/structure.py
+++ b/algebraixlib/structure.py
@@ -117,6 +117,8 @@ class Structure(object):
         :return: ``True`` if ``self`` is structurally equivalent to ``other``.
         """
         assert isinstance(other, Structure)
+        if isinstance(other, Union):
+            return other.is_same(self)
         return type(other) == Structure
 
     # ----------------------------------------------------------------------------------------------
@@ -181,6 +183,8 @@ class GenesisSetA(Structure):
         :return: ``True`` if ``self`` is structurally equivalent to ``other``.
         """
         assert isinstance(other, Structure)
+        if isinstance(other, Union):
+            return other.is_same(self)
         return type(other) == GenesisSetA
 
     # ----------------------------------------------------------------------------------------------
@@ -237,6 +241,8 @@ class GenesisSetM(Structure):
         :return: ``True`` if ``self`` is structurally equivalent to ``other``.
         """
         assert isinstance(other, Structure)
+        if isinstance(other, Union):
+            return other.is_same(self)
         return type(other) == GenesisSetM
 
     # ----------------------------------------------------------------------------------------------
@@ -286,6 +292,8 @@ class GenesisSetN(Structure):
         :return: ``True`` if ``self`` is structurally equivalent to ``other``.
         """
         assert isinstance(other, Structure)
+        if isinstance(other, Union):
+            return other.is_same(self)
         return type(other) == GenesisSetN
 
     # ----------------------------------------------------------------------------------------------
@@ -374,6 +382,8 @@ class CartesianProduct(Structure):
         assert isinstance(other, Structure)
         if isinstance(other, CartesianProduct):
             return (self.left == other.left) and (self.right == other.right)
+        elif isinstance(other, Union):
+            return other.is_same(self)
         return False
 
     # ----------------------------------------------------------------------------------------------
@@ -472,9 +482,12 @@ class Union(Structure):
         """Return the number of power set levels between ``self`` and ``other``.
 
         :param other: Must be an instance of `Structure`.
-        :return: An integer >= 0. Is always 0 for type `CartesianProduct`.
+        :return: An integer >= 0. Is always 0 for unions with more than one member; a union with a
+            single member is that member.
         """
         assert isinstance(other, Structure)
+        if len(self.data) == 1:
+            return _misc.get_single_iter_elem(self.data).get_powerset_level(other)
         return 0
 
     def is_same(self, other: Structure) -> bool:
@@ -500,6 +513,9 @@ class Union(Structure):
         """Return a hash based on the member values. (It must match the implementation of `is_same`,
         to which `Structure.__eq__` redirects equality comparisons.) Is always cached.
         """
+        if len(self.data) == 1:
+            # A union with a single member is the same as (and must hash like) this member.
+            return hash(_misc.get_single_iter_elem(self.data))
         return _misc.get_hash(_misc.get_full_class_name(self), self.data)
 
     def __repr__(self):
@@ -574,6 +590,8 @@ class PowerSet(Structure):
         assert isinstance(other, Structure)
         if isinstance(other, PowerSet):
             return self._base_set == other._base_set
+        elif isinstance(other, Union):
+            return other.is_same(self)
         return False
 
     # ----------------------------------------------------------------------------------------------
-- 
2.43.0


From 7a1185f6eb1d07fc3389c5f8baaab7c80cfbf239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:32 +0000
Subject: [PATCH 20/45] fix: pickling failed on PyPy and restored hashes of
 another process

---
 algebraixlib/mathobjects/atom.py       |  5 +++++
 algebraixlib/mathobjects/mathobject.py | 14 ++++++++++++++
 2 files changed, 19 insertions(+)

diff --git a/algebraixlib/mathobjects/atom.py b/algebraixlib/mathobjects/atom.py
index f83ad58..7b44eb0 100755
--- a/algebraixlib/mathobjects/atom.py
+++ b/algebraixlib/mathobjects/atom.py
@@ -195,6 +195,11 @@ class Atom(MathObject):
         """Return the instance's string representation."""
         return repr(self._value)
 
+    def __setstate__(self, state):
+        """Restore the state that was created by `__getstate__` and recalculate the hash."""
+        super().__setstate__(state)
+        self._hash = _get_hash('algebraixlib.mathobjects.atom.Atom', self._value)
+
     def __getnewargs__(self):
         """Necessary to allow Atom to be pickled"""
         return Atom.__repr__(self),
diff --git a/algebraixlib/mathobjects/mathobject.py b/algebraixlib/mathobjects/mathobject.py
index d584512..cef5bbb 100755
--- a/algebraixlib/mathobjects/mathobject.py
+++ b/algebraixlib/mathobjects/mathobject.py
@@ -106,6 +106,20 @@ class MathObject(_abc.ABC):
         self._flags = _Flags(asint=cached_flags)
 
     # noinspection PyUnusedLocal
+    def __getstate__(self):
+        """Return the state for pickling. The flags are represented by an integer (`ctypes` types can't
+        be pickled everywhere), and the hash is omitted since it is only valid in this process."""
+        state = self.__dict__.copy()
+        state['_flags'] = self._flags.asint
+        state.pop('_hash', None)
+        return state
+
+    def __setstate__(self, state):
+        """Restore the state that was created by `__getstate__`."""
+        self.__dict__.update(state)
+        self._flags = _Flags(asint=state['_flags'])
+        self._hash = 0  # Is calculated on demand.
+
     def __deepcopy__(self, _memo):
         """Override of deepcopy to return self - all MathObjects are immutable."""
         return self
-- 
2.43.0


From 0250598e87783db7a507c6109e10ecd20377116b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:00 +0000
Subject: [PATCH 21/45] fix: import_csv marked regular tables as not regular
 when cells are missing in all rows

---
 algebraixlib/import_export/csv.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/algebraixlib/import_export/csv.py b/algebraixlib/import_export/csv.py
index 5017bc9..ebc6b0b 100755
--- a/algebraixlib/import_export/csv.py
+++ b/algebraixlib/import_export/csv.py
@@ -153,7 +153,7 @@ def import_csv(csv_file_or_filepath, types: {}=None, skip_rows: int=0, index_col
             yield key, val
 
     _util.get_left_cached.left_cache = {}
-    import_csv.regular = True  # Set to false if any row is missing one or more values
+    import_csv.regular = True  # Set to false if the rows don't all have the same columns.
 
     assert ((index_column is not None) & (has_dup_rows is False)) or (index_column is None)
 
@@ -163,16 +163,19 @@ def import_csv(csv_file_or_filepath, types: {}=None, skip_rows: int=0, index_col
         reader = _csv.DictReader(csv_file, fieldnames=columns)
 
         _index = 0
+        first_keys = None
         for row in reader:
             filtered_row = {key: val for key, val in _filter_row(row)}
-            if import_csv.regular and len(row) != len(filtered_row):
-                import_csv.regular = False
             for key, val in types.items():
                 if key in filtered_row:
                     filtered_row[key] = val(filtered_row[key])
             if index_column is not None:
                 filtered_row[index_column] = _index
                 _index += 1
+            if first_keys is None:
+                first_keys = filtered_row.keys()
+            elif import_csv.regular and first_keys != filtered_row.keys():
+                import_csv.regular = False
             yield _mo.Set(
                 (_mo.Couplet(left=_util.get_left_cached(left), right=_mo.Atom(right),
                 direct_load=True) for left, right in filtered_row.items()), direct_load=True)\
-- 
2.43.0


From b25f62ff7dad20e75ea0267d29921aeb42c7c2ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:00 +0000
Subject: [PATCH 22/45] fix: import_csv changed line breaks inside of cells
 when reading from a file path

---
 algebraixlib/import_export/csv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algebraixlib/import_export/csv.py b/algebraixlib/import_export/csv.py
index ebc6b0b..6960ead 100755
--- a/algebraixlib/import_export/csv.py
+++ b/algebraixlib/import_export/csv.py
@@ -192,7 +192,7 @@ def import_csv(csv_file_or_filepath, types: {}=None, skip_rows: int=0, index_col
                 .cache_clan(CacheStatus.IS).cache_functional(CacheStatus.IS)\
                 .cache_regular(CacheStatus.from_bool(import_csv.regular))
     else:
-        with open(csv_file_or_filepath, encoding='utf-8', errors='ignore') as file:
+        with open(csv_file_or_filepath, encoding='utf-8', errors='ignore', newline='') as file:
             if has_dup_rows:
                 return _mo.Multiset(_import_csv(file), direct_load=True).cache_multiclan(
                     CacheStatus.IS).cache_functional(CacheStatus.IS).cache_regular(
-- 
2.43.0


From 58d999f8661f63b2467f7d55c4ad91726563469a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:00 +0000
Subject: [PATCH 23/45] fix: nested tuples were exported as lists in object
 JSON

---
 algebraixlib/import_export/mojson.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/algebraixlib/import_export/mojson.py b/algebraixlib/import_export/mojson.py
index 5d7c7cb..c43b9b5 100755
--- a/algebraixlib/import_export/mojson.py
+++ b/algebraixlib/import_export/mojson.py
@@ -40,11 +40,11 @@ def encode(obj):
     if isinstance(obj, frozenset):
         return {'__cls__': 'builtin.frozenset', '__val__': [encode(elem) for elem in obj]}
     if isinstance(obj, list):
-        return {'__cls__': 'builtin.list', '__val__': obj}
+        return {'__cls__': 'builtin.list', '__val__': [encode(elem) for elem in obj]}
     if isinstance(obj, range):
         return {'__cls__': 'builtin.range', '__val__': [obj.start, obj.stop, obj.step]}
     if isinstance(obj, tuple):
-        return {'__cls__': 'builtin.tuple', '__val__': obj}
+        return {'__cls__': 'builtin.tuple', '__val__': [encode(elem) for elem in obj]}
     if isinstance(obj, _mo.Atom):
         return {'__cls__': 'Atom', '__val__': encode(obj.value)}
     if isinstance(obj, _mo.Couplet):
-- 
2.43.0


From 65c6a2da7aa6a0953eeae3951ffdc50b8728a16c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:26 +0000
Subject: [PATCH 24/45] fix: export_csv failed with StopIteration for empty
 tables

---
 algebraixlib/import_export/csv.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/algebraixlib/import_export/csv.py b/algebraixlib/import_export/csv.py
index 6960ead..a89f891 100755
--- a/algebraixlib/import_export/csv.py
+++ b/algebraixlib/import_export/csv.py
@@ -61,9 +61,11 @@ def export_csv(absolute_clan_or_multiclan, file_or_path, ordered_lefts=None, sor
 
     if ordered_lefts is None:
         # Since this clan is regular, get first relation to acquire left set.
-        rel = next(iter(absolute_clan_or_multiclan))
-        # left_set is sorted to guarantee consistent iterations
-        ordered_lefts = sorted([left.value for left in rel.get_left_set()])
+        # left_set is sorted to guarantee consistent iterations. (An empty clan has no columns.)
+        ordered_lefts = []
+        for rel in absolute_clan_or_multiclan:
+            ordered_lefts = sorted([left.value for left in rel.get_left_set()])
+            break
 
     # Generate dictionaries that associates left components with their right components for each
     # relation.
-- 
2.43.0


From 3278c3423258f89838bb1fac9f206ab331ca3db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:41 +0000
Subject: [PATCH 25/45] fix: ordering of atoms with values of different types
 was not transitive

---
 algebraixlib/mathobjects/atom.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/algebraixlib/mathobjects/atom.py b/algebraixlib/mathobjects/atom.py
index 7b44eb0..5131d2c 100755
--- a/algebraixlib/mathobjects/atom.py
+++ b/algebraixlib/mathobjects/atom.py
@@ -179,6 +179,11 @@ class Atom(MathObject):
                     return self.value < other.value
             except TypeError:
                 pass
+            if self.type != other.type:
+                # Group by type to make sure that the order is transitive.
+                type_name, other_type_name = repr(self.type), repr(other.type)
+                if type_name != other_type_name:
+                    return type_name < other_type_name
             return repr(self.value) < repr(other.value)
         else:
             return super()._less_than(other)
-- 
2.43.0


From a7117d65fb6758c9835e8f1feceb202038a53e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:46 +0000
Subject: [PATCH 26/45] fix: import_graph failed for file objects when no
 format is given

---
 algebraixlib/import_export/rdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algebraixlib/import_export/rdf.py b/algebraixlib/import_export/rdf.py
index f8a8904..60bf86f 100644
--- a/algebraixlib/import_export/rdf.py
+++ b/algebraixlib/import_export/rdf.py
@@ -48,7 +48,7 @@ def import_graph(graph_file_or_filepath, rdf_format: str=None) -> 'PP(A x A)':
     if rdf_format is None:
         try:
             rdf_format = _rdflib.util.guess_format(graph_file_or_filepath) or 'turtle'
-        except AttributeError:
+        except (AttributeError, TypeError):
             rdf_format = 'turtle'
 
     graph = _rdflib.Graph()
-- 
2.43.0


From d67f4324e7019df24cc1d4e291d3ddc1f6385fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:46 +0000
Subject: [PATCH 27/45] fix: import_graph did not convert blank nodes to IRIs

---
 algebraixlib/import_export/rdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algebraixlib/import_export/rdf.py b/algebraixlib/import_export/rdf.py
index 60bf86f..e8be4a0 100644
--- a/algebraixlib/import_export/rdf.py
+++ b/algebraixlib/import_export/rdf.py
@@ -53,7 +53,7 @@ def import_graph(graph_file_or_filepath, rdf_format: str=None) -> 'PP(A x A)':
 
     graph = _rdflib.Graph()
     graph.parse(source=graph_file_or_filepath, format=rdf_format)
-    graph.skolemize()
+    graph = graph.skolemize()
     return _convert_graph_to_mathobjects(graph)
 
 
-- 
2.43.0


From 9f2953c775fddab3b12aa22ef0d69793293991ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:46 +0000
Subject: [PATCH 28/45] fix: export_table failed with StopIteration for an
 empty table

---
 algebraixlib/import_export/rdf.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/algebraixlib/import_export/rdf.py b/algebraixlib/import_export/rdf.py
index e8be4a0..014e4e5 100644
--- a/algebraixlib/import_export/rdf.py
+++ b/algebraixlib/import_export/rdf.py
@@ -194,10 +194,11 @@ class _ExportTable(_abc.ABC):
 
     def _write_body(self):
         self._body_start()
-        relation_itr = iter(self._clan)
-        self._write_row(next(relation_itr))
-        for relation in relation_itr:
-            self._row_between_relations()
+        is_first_row = True
+        for relation in self._clan:
+            if not is_first_row:
+                self._row_between_relations()
+            is_first_row = False
             self._write_row(relation)
         self._body_end()
 
-- 
2.43.0


From 0df891b76fdd320640ce2ccec8addf6322be825c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:46 +0000
Subject: [PATCH 29/45] fix: export_table wrote invalid JSON for missing values
 and for special characters

---
 algebraixlib/import_export/rdf.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/algebraixlib/import_export/rdf.py b/algebraixlib/import_export/rdf.py
index 014e4e5..646ee97 100644
--- a/algebraixlib/import_export/rdf.py
+++ b/algebraixlib/import_export/rdf.py
@@ -15,6 +15,7 @@
 # If not, see <http://www.gnu.org/licenses/>.
 # --------------------------------------------------------------------------------------------------
 import abc as _abc
+import json as _json
 import rdflib as _rdflib
 
 import algebraixlib.algebras.clans as _clans
@@ -292,6 +293,7 @@ def export_table(file_or_path, lefts: 'P( A )', table: 'PP(A x A)', out_format:
         def _body_end(self):
             self._file.write(']}')
         def _row_start(self):
+            self._is_first_item = True
             self._file.write('{')
         def _row_between_relations(self):
             self._file.write(',')
@@ -301,8 +303,9 @@ def export_table(file_or_path, lefts: 'P( A )', table: 'PP(A x A)', out_format:
             pass
         def _write_item(self, left, right, prefix_separator):
             if right is not _ud.Undef():
-                if prefix_separator:
+                if not self._is_first_item:
                     self._file.write(', ')
+                self._is_first_item = False
                 self._write_atom(left)
                 self._file.write(': {"type":')
                 if isinstance(right.value, _rdflib.URIRef):
@@ -320,7 +323,7 @@ def export_table(file_or_path, lefts: 'P( A )', table: 'PP(A x A)', out_format:
                 self._write_atom(right)
                 self._file.write('}\n')
         def _write_atom(self, atom: _mo.Atom):
-            self._file.write('"' + str(atom.value) + '"')
+            self._file.write(_json.dumps(str(atom.value), ensure_ascii=False))
 
     assert _clans.is_absolute_member(table)
     sorted_lefts = sorted(lefts)
-- 
2.43.0


From fcd4313ef83ac11d63a64db4172294fa9240d8bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:46 +0000
Subject: [PATCH 30/45] fix: export_table wrote values that are not in the
 lexical space of their data type

---
 algebraixlib/import_export/rdf.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/algebraixlib/import_export/rdf.py b/algebraixlib/import_export/rdf.py
index 646ee97..b5ae724 100644
--- a/algebraixlib/import_export/rdf.py
+++ b/algebraixlib/import_export/rdf.py
@@ -270,7 +270,7 @@ def export_table(file_or_path, lefts: 'P( A )', table: 'PP(A x A)', out_format:
             if right is not _ud.Undef():
                 self._write_atom(right)
         def _write_atom(self, atom: _mo.Atom):
-            data = str(atom.value).replace('"', '""')
+            data = _get_lexical_form(atom).replace('"', '""')
             self._file.write('"' + data + '"')
 
     # noinspection PyPep8
@@ -323,7 +323,7 @@ def export_table(file_or_path, lefts: 'P( A )', table: 'PP(A x A)', out_format:
                 self._write_atom(right)
                 self._file.write('}\n')
         def _write_atom(self, atom: _mo.Atom):
-            self._file.write(_json.dumps(str(atom.value), ensure_ascii=False))
+            self._file.write(_json.dumps(_get_lexical_form(atom), ensure_ascii=False))
 
     assert _clans.is_absolute_member(table)
     sorted_lefts = sorted(lefts)
@@ -336,6 +336,14 @@ def export_table(file_or_path, lefts: 'P( A )', table: 'PP(A x A)', out_format:
     writer.export(file_or_path)
 
 
+def _get_lexical_form(atom: _mo.Atom) -> str:
+    """Return the lexical form of the RDF term that represents ``atom`` (as defined for its XSD data
+    type; for example ``true`` for ``True``)."""
+    if isinstance(atom.value, _rdflib.term.Identifier):
+        return str(atom.value)
+    return str(_rdflib.Literal(atom.value))
+
+
 def _convert_graph_to_mathobjects(rdflib_graph: _rdflib.Graph) -> 'PP(A x A)':
     """Return a `graph` from the data in the `~_rdflib.Graph` `rdflib_graph`."""
     return _mo.Set(_make_triple_from_graph(triple_tuple) for triple_tuple in rdflib_graph)
-- 
2.43.0


From 4bb63af1365156c31475e41c75114f2d28b2e0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:28 +0000
Subject: [PATCH 31/45] fix: relations that contain other than reflexive
 couplets were never reflexive

---
 algebraixlib/algebras/relations.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/algebraixlib/algebras/relations.py b/algebraixlib/algebras/relations.py
index 8c03ed0..2679a01 100644
--- a/algebraixlib/algebras/relations.py
+++ b/algebraixlib/algebras/relations.py
@@ -421,7 +421,8 @@ def is_reflexive(rel, _checked=True) -> bool:
         if rel is _undef.Undef():
             return _undef.make_or_raise_undef(2)
     if rel.cached_reflexive == CacheStatus.UNKNOWN:
-        reflexive = all(_couplets.is_reflexive(couplet, _checked=False) for couplet in rel)
+        elements = {elem for couplet in rel for elem in (couplet.left, couplet.right)}
+        reflexive = all(_mo.Couplet(elem, direct_load=True) in rel.data for elem in elements)
         rel.cache_reflexive(CacheStatus.from_bool(reflexive))
     return rel.cached_reflexive == CacheStatus.IS
 
-- 
2.43.0


From ec1c12833b5cd51c26cfe9196c9b52b65d2294ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:28 +0000
Subject: [PATCH 32/45] fix: triple_match failed with IndexError for an empty
 string

---
 algebraixlib/util/rdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algebraixlib/util/rdf.py b/algebraixlib/util/rdf.py
index a37f8c5..aa8a769 100644
--- a/algebraixlib/util/rdf.py
+++ b/algebraixlib/util/rdf.py
@@ -122,7 +122,7 @@ def triple_match(rdf_graph: 'PP(A x M)', subject=None, predicate=None, object_=N
 
     def add(rdf_left, value):
         if value is not None:
-            if isinstance(value, str) and value[0] in '?$':
+            if isinstance(value, str) and value[:1] in ('?', '$'):
                 projection[rdf_left] = value
             else:
                 pattern[rdf_left] = value
-- 
2.43.0


From 57e062af1f9d8a95d7a3a70185494ff52d42f96a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:08 +0000
Subject: [PATCH 33/45] fix: import_json failed for lists that contain scalar
 values

---
 algebraixlib/import_export/json.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/algebraixlib/import_export/json.py b/algebraixlib/import_export/json.py
index ec77a51..73197b6 100755
--- a/algebraixlib/import_export/json.py
+++ b/algebraixlib/import_export/json.py
@@ -26,13 +26,19 @@ def import_json(json_file_or_filepath) -> 'P( A x M )':
     def _process_nodes(nodes):
         if isinstance(nodes, list):
             for list_data in nodes:
-                yield _mo.Set(*list(_process_nodes(list_data)))
+                if isinstance(list_data, (str, int, float)):
+                    yield _mo.Atom(list_data)
+                else:
+                    yield _mo.Set(_process_nodes(list_data))
         else:
             for key, value in nodes.items():
                 if isinstance(value, list):
                     for list_data in value:
-                        child = _process_nodes(list_data)
-                        yield _mo.Couplet(_mo.Atom(key), _mo.Set(child), direct_load=True)
+                        if isinstance(list_data, (str, int, float)):
+                            child = _mo.Atom(list_data)
+                        else:
+                            child = _mo.Set(_process_nodes(list_data))
+                        yield _mo.Couplet(_mo.Atom(key), child, direct_load=True)
                 elif isinstance(value, dict):
                     children = _process_nodes(value)
                     yield _mo.Couplet(_mo.Atom(key), _mo.Set(children), direct_load=True)
-- 
2.43.0


From b3c8dff7301218571ff68ece59838cbe3d2a8756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:01 +0000
Subject: [PATCH 34/45] fix: get_left_set/get_right_set of a set mixing sets
 and an empty multiset are undefined, not an AssertionError

---
 algebraixlib/mathobjects/set.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/algebraixlib/mathobjects/set.py b/algebraixlib/mathobjects/set.py
index be3d57f..c41383f 100755
--- a/algebraixlib/mathobjects/set.py
+++ b/algebraixlib/mathobjects/set.py
@@ -204,7 +204,7 @@ class Set(MathObject):
             _itr = iter(self)
             left_set = next(_itr).get_left_set()
             for elem in _itr:
-                left_set = _sets().union(elem.get_left_set(), left_set, _checked=False)
+                left_set = _sets().union(elem.get_left_set(), left_set)
             return left_set
 
         return _undef.make_or_raise_undef()
@@ -217,7 +217,7 @@ class Set(MathObject):
             _itr = iter(self)
             left_set = next(_itr).get_right_set()
             for elem in _itr:
-                left_set = _sets().union(elem.get_right_set(), left_set, _checked=False)
+                left_set = _sets().union(elem.get_right_set(), left_set)
             return left_set
 
         return _undef.make_or_raise_undef()
-- 
2.43.0


From 95d44c2b628b48d8f10aaee53edafedaeb51e246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:18 +0000
Subject: [PATCH 35/45] fix: Multiset built from a dictionary lost the count of
 keys that denote the same element

---
 algebraixlib/mathobjects/multiset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algebraixlib/mathobjects/multiset.py b/algebraixlib/mathobjects/multiset.py
index efddd9a..2559b74 100755
--- a/algebraixlib/mathobjects/multiset.py
+++ b/algebraixlib/mathobjects/multiset.py
@@ -117,7 +117,7 @@ class Multiset(MathObject):
                 else:
                     # only asserting in non direct mode, assumption is direct load has good data.
                     assert isinstance(elements[key], int) and elements[key] > 0
-                    self._data[auto_convert(key)] = elements[key]
+                    self._data[auto_convert(key)] += elements[key]
         elif isinstance(elements, str):
             # Strings are iterable, but we treat them as a single value in this case.
             self._data = _collections.Counter({auto_convert(elements): 1})
-- 
2.43.0


From 54b1e86eee162d8569dbf337f263f018358fea97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:22 +0000
Subject: [PATCH 36/45] fix: unpickling Undef() with protocols 0 and 1 created
 a second undefined value

---
 algebraixlib/undef.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/algebraixlib/undef.py b/algebraixlib/undef.py
index c6af9d4..93f7763 100644
--- a/algebraixlib/undef.py
+++ b/algebraixlib/undef.py
@@ -51,6 +51,10 @@ class Undef:
         """Prevent comparisons on Undef; raise a TypeError."""
         raise TypeError("Boolean conversion is not supported by Undef")
 
+    def __reduce__(self):
+        """Keep the single instance when copying and unpickling (with every pickle protocol)."""
+        return Undef, ()
+
     def __repr__(self):
         """Return the instance's code representation."""
         return 'Undef()'
-- 
2.43.0


From bc47a4f7718fa0ec72d104bb19ecff3cec192c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:49 +0000
Subject: [PATCH 37/45] fix: an undefined limit made multiclan slices fail
 instead of being undefined

---
 algebraixlib/algebras/multiclans.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/algebraixlib/algebras/multiclans.py b/algebraixlib/algebras/multiclans.py
index 012cddf..bbae2ac 100644
--- a/algebraixlib/algebras/multiclans.py
+++ b/algebraixlib/algebras/multiclans.py
@@ -691,10 +691,10 @@ def _to_listgen_check_args(mclan: 'P(P(M x M) x N)', offset: '( A )', limit: '(
         if isinstance(limit, _mo.Atom) \
                 and (isinstance(limit.value, int) or limit.value == float('inf')):
             pass
-        elif isinstance(limit, int) or limit == float('inf'):
-            limit = _mo.Atom(limit)
         elif limit is _undef.Undef():
             return _undef.make_or_raise_undef(2)
+        elif isinstance(limit, int) or limit == float('inf'):
+            limit = _mo.Atom(limit)
         else:
             return _undef.make_or_raise_undef()
     else:
-- 
2.43.0


From 285394848f59ab37b7055976a70ff7fa48eb14b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:44 +0000
Subject: [PATCH 38/45] fix: power set level of structures over unions was 0,
 get_left_set of sets of clans with different structures was undefined

---
 algebraixlib/structure.py | 21 +++++++--------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/algebraixlib/structure.py b/algebraixlib/structure.py
index ff543c6..a58b537 100644
--- a/algebraixlib/structure.py
+++ b/algebraixlib/structure.py
@@ -482,13 +482,11 @@ class Union(Structure):
         """Return the number of power set levels between ``self`` and ``other``.
 
         :param other: Must be an instance of `Structure`.
-        :return: An integer >= 0. Is always 0 for unions with more than one member; a union with a
-            single member is that member.
+        :return: An integer >= 0. The level that all members have, or 0 if their levels differ.
         """
         assert isinstance(other, Structure)
-        if len(self.data) == 1:
-            return _misc.get_single_iter_elem(self.data).get_powerset_level(other)
-        return 0
+        levels = {element.get_powerset_level(other) for element in self.data}
+        return levels.pop() if len(levels) == 1 else 0
 
     def is_same(self, other: Structure) -> bool:
         """Return ``True`` if ``self`` is structurally equivalent to ``other``.
@@ -571,15 +569,10 @@ class PowerSet(Structure):
             A result of 0 may mean that the two ground sets are equal or that they are not related.
         """
 
-        def recurse_through_powerset_levels(structure_under_test, powerset_level=0):
-            if type(structure_under_test) != PowerSet:
-                return 0
-            powerset_level += 1
-            if structure_under_test.base_set.is_subset(other):
-                return powerset_level
-            return recurse_through_powerset_levels(structure_under_test.base_set, powerset_level)
-
-        return recurse_through_powerset_levels(self)
+        if self.base_set.is_subset(other):
+            return 1
+        base_level = self.base_set.get_powerset_level(other)
+        return base_level + 1 if base_level > 0 else 0
 
     def is_same(self, other: Structure) -> bool:
         """Return ``True`` if ``self`` is structurally equivalent to ``other``.
-- 
2.43.0


From ab4257f8fb8e47a2bc05794f6b9938d39faae805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:25 +0000
Subject: [PATCH 39/45] fix: the short LaTeX form of a set decides on
 parentheses by the elements it shows

---
 algebraixlib/util/latexprinter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algebraixlib/util/latexprinter.py b/algebraixlib/util/latexprinter.py
index 1d3bcb8..219fa85 100755
--- a/algebraixlib/util/latexprinter.py
+++ b/algebraixlib/util/latexprinter.py
@@ -202,7 +202,7 @@ def set_to_latex(set_: _mo.Set, short: bool=False, _depth: int=0):
 
         if short and set_.cardinality > Config.short_set_len + 1:
             is_couplet_list = [elem.is_couplet
-                for elem in _itertools.islice(set_, Config.short_set_len)]
+                for elem in _itertools.islice(sorted(set_.data), Config.short_set_len)]
         else:
             is_couplet_list = [elem.is_couplet for elem in set_]
         parenthesize_couplets = any(is_couplet_list) and not all(is_couplet_list)
-- 
2.43.0


From 808ad8b4f6b5929e4f88f4c3dbb278d1c71adfa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:25 +0000
Subject: [PATCH 40/45] fix: the short LaTeX form of a multiset abbreviates by
 elements and says how many it leaves out

---
 algebraixlib/util/latexprinter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/algebraixlib/util/latexprinter.py b/algebraixlib/util/latexprinter.py
index 219fa85..7a63212 100755
--- a/algebraixlib/util/latexprinter.py
+++ b/algebraixlib/util/latexprinter.py
@@ -265,11 +265,12 @@ def mset_to_latex(mset: _mo.Multiset, short: bool=False, _depth: int=0):
 
     result = _Tokens.left_bracket_dyn + start
 
-    if short and mset.cardinality > Config.short_set_len + 1:
+    if short and len(mset.data) > Config.short_set_len + 1:
         result += separator.join(
             [latex_mset(elem_key, multiple) for elem_key, multiple in _itertools.islice(
                 sorted(mset.data.items()), Config.short_set_len)])
         result += separator + _Tokens.ellipsis
+        result += '({0})'.format(len(mset.data) - Config.short_set_len)
     else:
         result += separator.join([latex_mset(elem_key, multiple)
                                   for elem_key, multiple in sorted(mset.data.items())])
-- 
2.43.0


From 93d099a3f182db196d2bdf0dd2d7ffd5a3f73c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:25 +0000
Subject: [PATCH 41/45] fix: create_simple_web_page raised KeyError for every
 object and did not escape what it shows

---
 algebraixlib/util/html.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/algebraixlib/util/html.py b/algebraixlib/util/html.py
index 4200cd9..92543bc 100755
--- a/algebraixlib/util/html.py
+++ b/algebraixlib/util/html.py
@@ -210,10 +210,11 @@ def create_simple_web_page(mathobj: _mo.MathObject) -> str:
         <h2>Input:</h2>
         <div id="dataAlgebraArea">{data_algebra_in!s}</div>
         <h2>Output:</h2>
-        <div id="latexArea">$$\(\require{color}\){latex_out}$$</div>
+        <div id="latexArea">$$\(\require{{color}}\){latex_out}$$</div>
     </body></html>
     """
     web_out = web_template.format(
-        data_algebra_in=mathobj, latex_out=_latexprinter.math_object_to_latex(mathobj))
+        data_algebra_in=as_html_handle_basic_parameter(mathobj),
+        latex_out=_html.escape(_latexprinter.math_object_to_latex(mathobj)))
     print(web_out)
     return web_out
-- 
2.43.0


From da9b089ad6cd0e8eca5f493dc5b98c38bf2faac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:25 +0000
Subject: [PATCH 42/45] fix: HTML pages showed a string construct one character
 per line

---
 algebraixlib/util/html.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algebraixlib/util/html.py b/algebraixlib/util/html.py
index 92543bc..6b8126d 100755
--- a/algebraixlib/util/html.py
+++ b/algebraixlib/util/html.py
@@ -150,7 +150,7 @@ def as_html_handle_data_algebra(mathobj):
     if isinstance(mathobj, _mo.MathObject):
         # print this one math object
         return "$$" + _html.escape(_latexprinter.math_object_to_latex(mathobj)) + "$$"
-    elif isinstance(mathobj, _collections.Iterable):
+    elif isinstance(mathobj, _collections.Iterable) and not isinstance(mathobj, str):
         temp = ""
         for elem in mathobj:
             if isinstance(elem, _mo.MathObject):
-- 
2.43.0


From 4f6eade6e606dd85489122e3f8a79c7f7f11c4df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:25 +0000
Subject: [PATCH 43/45] fix: core repeated characters of strings that are
 shorter than what it keeps

---
 algebraixlib/util/miscellaneous.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algebraixlib/util/miscellaneous.py b/algebraixlib/util/miscellaneous.py
index 544d598..e6a300b 100755
--- a/algebraixlib/util/miscellaneous.py
+++ b/algebraixlib/util/miscellaneous.py
@@ -331,7 +331,7 @@ def core(string: str, begin_len: int=0, end_len: int=0) -> str:
     :param end_len: The length, in characters, of the ending part of the string.
     """
 
-    if begin_len > 0 and end_len > 0 and begin_len - end_len < len(string):
+    if begin_len > 0 and end_len > 0 and begin_len + end_len < len(string):
         string = string[:begin_len] + '\n...\n' + string[-end_len:]
     return string
 
-- 
2.43.0


From c1fb3127102285a300c47993686ddef53c5035b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:48 +0000
Subject: [PATCH 44/45] fix: mo_to_str cut components off lines that were short
 enough

---
 algebraixlib/util/mathobjectprinter.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/algebraixlib/util/mathobjectprinter.py b/algebraixlib/util/mathobjectprinter.py
index 40e6ae5..c682d9c 100755
--- a/algebraixlib/util/mathobjectprinter.py
+++ b/algebraixlib/util/mathobjectprinter.py
@@ -85,8 +85,9 @@ def mo_to_str(math_object: _mo.MathObject, abbreviated=False, indent_text='   ',
             math_object.right, abbreviated, indent_text, indent + indent_text, max_line_len)
 
         if math_object.right.is_atom:
-            if len(mo_str) + len(right) > max_line_len:
-                pos = max_line_len - len('...') - len(mo_str) - len(right) \
+            line_len = len(mo_str) - (mo_str.rfind('\n') + 1)
+            if line_len + len(right) > max_line_len:
+                pos = max_line_len - len('...') - line_len - len(right) \
                     - len(_couplet_post_text() + '\n')
                 right = right[:pos]
                 right += '...'
-- 
2.43.0


From dceae4fc6f15f18f71bc54020e1cd556ea754dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:53 +0000
Subject: [PATCH 45/45] fix: print_var failed or formatted braces in the text
 to append

---
 algebraixlib/util/miscellaneous.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/algebraixlib/util/miscellaneous.py b/algebraixlib/util/miscellaneous.py
index e6a300b..c64d6ac 100755
--- a/algebraixlib/util/miscellaneous.py
+++ b/algebraixlib/util/miscellaneous.py
@@ -130,9 +130,9 @@ def print_var(variable_name, frames_up: int=0, skip: bool=False, short: bool=Fal
         except Exception:
             format_str_len = ''
 
-        format_str = '{{variable_name}}{format_str_len} {format_str_val}{append}'.format(
-            format_str_len=format_str_len, format_str_val=format_str_val, append=append)
-        var_str = format_str.format(**format_vals)
+        format_str = '{{variable_name}}{format_str_len} {format_str_val}'.format(
+            format_str_len=format_str_len, format_str_val=format_str_val)
+        var_str = format_str.format(**format_vals) + append
         var_str_ind = _textwrap.indent(var_str, indent)
         if indent_first != indent:
             var_str_ind = indent_first + var_str_ind[len(indent):]
-- 
2.43.0

