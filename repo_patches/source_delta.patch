From 7d553e324e823f92df153d5ebd2453859aef61d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:13 +0000
Subject: [PATCH 01/13] fix: SortedList.update keeps the list intact when
 values cannot be compared

The large-update path appended the new values to the sublists before sorting.
When the sort raised, those values stayed in the sublists while the length,
the maxes and the positional index did not know of them.
---
 src/sortedcontainers/sortedlist.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/sortedcontainers/sortedlist.py b/src/sortedcontainers/sortedlist.py
index aecf787..40321d2 100644
--- a/src/sortedcontainers/sortedlist.py
+++ b/src/sortedcontainers/sortedlist.py
@@ -277,8 +277,7 @@ class SortedList(MutableSequence):
 
         if _maxes:
             if len(values) * 4 >= self._len:
-                _lists.append(values)
-                values = reduce(iadd, _lists, [])
+                values = reduce(iadd, chain(_lists, (values,)), [])
                 values.sort()
                 self._clear()
             else:
@@ -1777,8 +1776,7 @@ class SortedKeyList(SortedList):
 
         if _maxes:
             if len(values) * 4 >= self._len:
-                _lists.append(values)
-                values = reduce(iadd, _lists, [])
+                values = reduce(iadd, chain(_lists, (values,)), [])
                 values.sort(key=self._key)
                 self._clear()
             else:
-- 
2.43.0


From 3077825df9fd057785fc8ff53fc28a8a36f8e98d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:12 +0000
Subject: [PATCH 02/13] fix: SortedSet stays consistent when added values
 cannot be compared

add, update and symmetric_difference_update changed the set before the sorted
list. When ordering the new values raised, the set held values that the list
did not, and update left the list empty.
---
 src/sortedcontainers/sortedset.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/sortedcontainers/sortedset.py b/src/sortedcontainers/sortedset.py
index f2416bf..d95ad8b 100644
--- a/src/sortedcontainers/sortedset.py
+++ b/src/sortedcontainers/sortedset.py
@@ -335,7 +335,11 @@ class SortedSet(MutableSet, Sequence):
         _set = self._set
         if value not in _set:
             _set.add(value)
-            self._list.add(value)
+            try:
+                self._list.add(value)
+            except BaseException:
+                _set.remove(value)
+                raise
 
     _add = add
 
@@ -599,9 +603,12 @@ class SortedSet(MutableSet, Sequence):
         """
         _set = self._set
         _list = self._list
-        _set.symmetric_difference_update(other)
+        diff = _set.symmetric_difference(other)
+        values = sorted(diff, key=self._key)
+        _set.clear()
+        _set.update(diff)
         _list.clear()
-        _list.update(_set)
+        _list.update(values)
         return self
 
     __ixor__ = symmetric_difference_update
@@ -646,10 +653,10 @@ class SortedSet(MutableSet, Sequence):
         _list = self._list
         values = set(chain(*iterables))
         if (4 * len(values)) > len(_set):
-            _list = self._list
+            ordered = sorted(_set.union(values), key=self._key)
             _set.update(values)
             _list.clear()
-            _list.update(_set)
+            _list.update(ordered)
         else:
             _add = self._add
             for value in values:
-- 
2.43.0


From 3d4d47651014cb29e6f3847cab6a3dea7c209450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:19 +0000
Subject: [PATCH 03/13] fix: SortedDict stays consistent when setdefault or
 update fails

Both stored items in the dict before ordering the keys. When a key could not
be compared, or update was given a malformed pair, the dict held items that
the sorted key list did not, and update left the key list empty.
---
 src/sortedcontainers/sorteddict.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/sortedcontainers/sorteddict.py b/src/sortedcontainers/sorteddict.py
index 273c9ce..074b885 100644
--- a/src/sortedcontainers/sorteddict.py
+++ b/src/sortedcontainers/sorteddict.py
@@ -480,8 +480,8 @@ class SortedDict(dict):
         """
         if key in self:
             return self[key]
-        dict.__setitem__(self, key, default)
         self._list_add(key)
+        dict.__setitem__(self, key, default)
         return default
 
     def update(self, *args, **kwargs):
@@ -498,8 +498,10 @@ class SortedDict(dict):
 
         """
         if not self:
-            dict.update(self, *args, **kwargs)
-            self._list_update(dict.__iter__(self))
+            pairs = dict(*args, **kwargs)
+            keys = sorted(pairs, key=self._key)
+            dict.update(self, pairs)
+            self._list_update(keys)
             return
 
         if not kwargs and len(args) == 1 and isinstance(args[0], dict):
@@ -508,9 +510,12 @@ class SortedDict(dict):
             pairs = dict(*args, **kwargs)
 
         if (10 * len(pairs)) > len(self):
-            dict.update(self, pairs)
+            items = dict.copy(self)
+            items.update(pairs)
+            keys = sorted(items, key=self._key)
+            dict.update(self, items)
             self._list_clear()
-            self._list_update(dict.__iter__(self))
+            self._list_update(keys)
         else:
             for key in pairs:
                 self._setitem(key, pairs[key])
-- 
2.43.0


From 15ffe84fbcd0ad4469daf0fd84079c7635cbf780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:28 +0000
Subject: [PATCH 04/13] fix: num * SortedKeyList keeps the key function

SortedKeyList inherited SortedList.__rmul__, which built the result without
the key function and so in the wrong order.
---
 src/sortedcontainers/sortedlist.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sortedcontainers/sortedlist.py b/src/sortedcontainers/sortedlist.py
index 40321d2..1a4e120 100644
--- a/src/sortedcontainers/sortedlist.py
+++ b/src/sortedcontainers/sortedlist.py
@@ -2425,6 +2425,8 @@ class SortedKeyList(SortedList):
         values = reduce(iadd, self._lists, []) * num
         return self.__class__(values, key=self._key)
 
+    __rmul__ = __mul__
+
     def __reduce__(self):
         values = reduce(iadd, self._lists, [])
         return (type(self), (values, self.key))
-- 
2.43.0


From e8a2cbfd37772daee1d111d9be124c5895b73aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:37 +0000
Subject: [PATCH 05/13] fix: iterable - SortedSet keeps the key function

The inherited Set.__rsub__ built its result without the key function, unlike
every other set operator, so values came out in the wrong order or could not
be compared at all.
---
 src/sortedcontainers/sortedset.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/sortedcontainers/sortedset.py b/src/sortedcontainers/sortedset.py
index d95ad8b..529fa44 100644
--- a/src/sortedcontainers/sortedset.py
+++ b/src/sortedcontainers/sortedset.py
@@ -13,7 +13,7 @@ Sorted set implementations:
 
 """
 
-from collections.abc import MutableSet, Sequence, Set
+from collections.abc import Iterable, MutableSet, Sequence, Set
 from itertools import chain
 from operator import eq, ge, gt, le, lt, ne
 from textwrap import dedent
@@ -476,6 +476,20 @@ class SortedSet(MutableSet, Sequence):
 
     __sub__ = difference
 
+    def __rsub__(self, other):
+        """Return the difference of `other` and this set as a new sorted set.
+
+        ``ss.__rsub__(iterable)`` <==> ``iterable - ss``
+
+        :param other: `other` iterable
+        :return: new sorted set
+
+        """
+        if not isinstance(other, Iterable):
+            return NotImplemented
+        diff = set(other).difference(self._set)
+        return self._fromset(diff, key=self._key)
+
     def difference_update(self, *iterables):
         """Remove all values of `iterables` from this sorted set.
 
-- 
2.43.0


From 847d2bf74cf71868c78f693c87cf1681486d0ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:48 +0000
Subject: [PATCH 06/13] fix: a failed removal leaves SortedSet and SortedDict
 consistent

discard, remove and del took the value out of the hash structure before looking
for it in the sorted list. For a value equal to a stored one but not orderable,
like 1+0j for 1, the list then raised TypeError and the two disagreed.
---
 src/sortedcontainers/sorteddict.py | 4 +++-
 src/sortedcontainers/sortedset.py  | 7 +++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/sortedcontainers/sorteddict.py b/src/sortedcontainers/sorteddict.py
index 074b885..3bfa2cb 100644
--- a/src/sortedcontainers/sorteddict.py
+++ b/src/sortedcontainers/sorteddict.py
@@ -227,8 +227,10 @@ class SortedDict(dict):
         :raises KeyError: if key not found
 
         """
-        dict.__delitem__(self, key)
+        if key not in self:
+            raise KeyError(key)
         self._list_remove(key)
+        dict.__delitem__(self, key)
 
     def __iter__(self):
         """Return an iterator over the keys of the sorted dict.
diff --git a/src/sortedcontainers/sortedset.py b/src/sortedcontainers/sortedset.py
index 529fa44..8fba85f 100644
--- a/src/sortedcontainers/sortedset.py
+++ b/src/sortedcontainers/sortedset.py
@@ -397,8 +397,8 @@ class SortedSet(MutableSet, Sequence):
         """
         _set = self._set
         if value in _set:
-            _set.remove(value)
             self._list.remove(value)
+            _set.remove(value)
 
     _discard = discard
 
@@ -450,8 +450,11 @@ class SortedSet(MutableSet, Sequence):
         :raises KeyError: if `value` is not in sorted set
 
         """
-        self._set.remove(value)
+        _set = self._set
+        if value not in _set:
+            raise KeyError(value)
         self._list.remove(value)
+        _set.remove(value)
 
     def difference(self, *iterables):
         """Return the difference of two or more sets as a new sorted set.
-- 
2.43.0


From a7c5c818098cf168cb03f014602c56ecad9f9d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:08 +0000
Subject: [PATCH 07/13] fix: a failed intersection_update leaves SortedSet
 consistent

With an equal but unorderable value in the argument (1+0j for 1), the hash
set was changed and the list emptied before the sort raised.
---
 src/sortedcontainers/sortedset.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sortedcontainers/sortedset.py b/src/sortedcontainers/sortedset.py
index 8fba85f..6128938 100644
--- a/src/sortedcontainers/sortedset.py
+++ b/src/sortedcontainers/sortedset.py
@@ -568,9 +568,10 @@ class SortedSet(MutableSet, Sequence):
         """
         _set = self._set
         _list = self._list
-        _set.intersection_update(*iterables)
+        values = sorted(_set.intersection(*iterables), key=self._key)
+        _set.intersection_update(values)
         _list.clear()
-        _list.update(_set)
+        _list.update(values)
         return self
 
     __iand__ = intersection_update
-- 
2.43.0


From 32d2de6982f5b760be78971bc13ab7a8d69f4698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:05 +0000
Subject: [PATCH 08/13] fix: _check of SortedSet and SortedDict notices a
 duplicate in the list

A value or key twice in the sorted list, standing in for one missing
from it, kept the lengths equal and passed unnoticed.
---
 src/sortedcontainers/sorteddict.py | 1 +
 src/sortedcontainers/sortedset.py  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/sortedcontainers/sorteddict.py b/src/sortedcontainers/sorteddict.py
index 3bfa2cb..9f67329 100644
--- a/src/sortedcontainers/sorteddict.py
+++ b/src/sortedcontainers/sorteddict.py
@@ -560,6 +560,7 @@ class SortedDict(dict):
         _list._check()
         assert len(self) == len(_list)
         assert all(key in self for key in _list)
+        assert len(self) == len(set(_list))
 
 
 def _view_delitem(self, index):
diff --git a/src/sortedcontainers/sortedset.py b/src/sortedcontainers/sortedset.py
index 6128938..9906faf 100644
--- a/src/sortedcontainers/sortedset.py
+++ b/src/sortedcontainers/sortedset.py
@@ -718,3 +718,4 @@ class SortedSet(MutableSet, Sequence):
         _list._check()
         assert len(_set) == len(_list)
         assert all(value in _set for value in _list)
+        assert len(_set) == len(set(_list))
-- 
2.43.0


From 95d3422406eeb6fac461dc10e9d38d1c06178eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:19 +0000
Subject: [PATCH 09/13] fix: a failed difference_update leaves SortedSet
 consistent

---
 src/sortedcontainers/sortedset.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sortedcontainers/sortedset.py b/src/sortedcontainers/sortedset.py
index 9906faf..d0751a9 100644
--- a/src/sortedcontainers/sortedset.py
+++ b/src/sortedcontainers/sortedset.py
@@ -513,9 +513,10 @@ class SortedSet(MutableSet, Sequence):
         _list = self._list
         values = set(chain(*iterables))
         if (4 * len(values)) > len(_set):
-            _set.difference_update(values)
+            ordered = sorted(_set.difference(values), key=self._key)
+            _set.intersection_update(ordered)
             _list.clear()
-            _list.update(_set)
+            _list.update(ordered)
         else:
             _discard = self._discard
             for value in values:
-- 
2.43.0


From 40726547011aa94d9d24469b6261dd70c8b165d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:34 +0000
Subject: [PATCH 10/13] fix: items view membership is that of a dict's items
 view

---
 src/sortedcontainers/sorteddict.py | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/src/sortedcontainers/sorteddict.py b/src/sortedcontainers/sorteddict.py
index 9f67329..f0c241f 100644
--- a/src/sortedcontainers/sorteddict.py
+++ b/src/sortedcontainers/sorteddict.py
@@ -663,6 +663,36 @@ class SortedItemsView(ItemsView, Sequence):
     def _from_iterable(cls, it):
         return SortedSet(it)
 
+    def __contains__(self, item):
+        """Return true if `item` is a key-value pair of the sorted dict.
+
+        ``siv.__contains__(item)`` <==> ``item in siv``
+
+        Like the items view of `dict`, only pairs are members and the
+        ``__missing__`` method of the sorted dict is not called.
+
+        >>> sd = SortedDict({'a': 1, 'b': 2, 'c': 3})
+        >>> ('a', 1) in sd.items()
+        True
+        >>> 'a' in sd.items()
+        False
+
+        :param item: search for item in sorted items view
+        :return: true if `item` in sorted items view
+
+        """
+        if not isinstance(item, tuple) or len(item) != 2:
+            return False
+
+        key, value = item
+        _mapping = self._mapping
+
+        if key not in _mapping:
+            return False
+
+        stored = _mapping[key]
+        return stored is value or stored == value
+
     def __getitem__(self, index):
         """Lookup item at `index` in sorted items view.
 
-- 
2.43.0


From 98808c72ca1a9b7ed81122acafef0d253d04b6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:13 +0000
Subject: [PATCH 11/13] fix: SortedDict.update takes the same values from a
 dict subclass whatever the sizes

A small update read them through the operand's own __getitem__, a large
one (like dict.update) from its storage.
---
 src/sortedcontainers/sorteddict.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sortedcontainers/sorteddict.py b/src/sortedcontainers/sorteddict.py
index f0c241f..9d99f2f 100644
--- a/src/sortedcontainers/sorteddict.py
+++ b/src/sortedcontainers/sorteddict.py
@@ -506,7 +506,7 @@ class SortedDict(dict):
             self._list_update(keys)
             return
 
-        if not kwargs and len(args) == 1 and isinstance(args[0], dict):
+        if not kwargs and len(args) == 1 and type(args[0]) is dict:
             pairs = args[0]
         else:
             pairs = dict(*args, **kwargs)
-- 
2.43.0


From b512e1f13210ad0fc7032b11a1bf66a982add63a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:44 +0000
Subject: [PATCH 12/13] fix: SortedDict takes the keyword argument 'self' as an
 item, like dict

---
 src/sortedcontainers/sorteddict.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/sortedcontainers/sorteddict.py b/src/sortedcontainers/sorteddict.py
index 9d99f2f..2d5793c 100644
--- a/src/sortedcontainers/sorteddict.py
+++ b/src/sortedcontainers/sorteddict.py
@@ -94,7 +94,7 @@ class SortedDict(dict):
 
     """
 
-    def __init__(self, *args, **kwargs):
+    def __init__(*args, **kwargs):
         """Initialize sorted dict instance.
 
         Optional key-function argument defines a callable that, like the `key`
@@ -131,6 +131,7 @@ class SortedDict(dict):
         True
 
         """
+        self, *args = args  # 'self' may be a keyword argument
         if args and (args[0] is None or callable(args[0])):
             _key = self._key = args[0]
             args = args[1:]
@@ -486,7 +487,7 @@ class SortedDict(dict):
         dict.__setitem__(self, key, default)
         return default
 
-    def update(self, *args, **kwargs):
+    def update(*args, **kwargs):
         """Update sorted dict with items from `args` and `kwargs`.
 
         Overwrites existing items.
@@ -499,6 +500,8 @@ class SortedDict(dict):
         :param kwargs: keyword arguments mapping
 
         """
+        self, *args = args  # 'self' may be a keyword argument
+
         if not self:
             pairs = dict(*args, **kwargs)
             keys = sorted(pairs, key=self._key)
-- 
2.43.0


From a6804448ac46df65971009a56a13d2e7972525db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:40 +0000
Subject: [PATCH 13/13] fix: an interrupted or concurrent read cannot leave or
 see half a positional index

The index was filled before its offset was set. A read interrupted in
between left the list answering wrongly for good, and other threads
reading at that moment got wrong positions.
---
 src/sortedcontainers/sortedlist.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/sortedcontainers/sortedlist.py b/src/sortedcontainers/sortedlist.py
index 1a4e120..25edcd4 100644
--- a/src/sortedcontainers/sortedlist.py
+++ b/src/sortedcontainers/sortedlist.py
@@ -661,8 +661,8 @@ class SortedList(MutableSequence):
         row0 = list(map(len, self._lists))
 
         if len(row0) == 1:
-            self._index[:] = row0
             self._offset = 0
+            self._index[:] = row0
             return
 
         head = iter(row0)
@@ -673,8 +673,8 @@ class SortedList(MutableSequence):
             row1.append(row0[-1])
 
         if len(row1) == 1:
-            self._index[:] = row1 + row0
             self._offset = 1
+            self._index[:] = row1 + row0
             return
 
         size = 2 ** (int(log(len(row1) - 1, 2)) + 1)
@@ -687,8 +687,11 @@ class SortedList(MutableSequence):
             row = list(starmap(add, zip(head, tail)))
             tree.append(row)
 
-        reduce(iadd, reversed(tree), self._index)
+        # The offset comes first and the index in one step: an interrupted or
+        # concurrent read then never leaves or sees one without the other.
+
         self._offset = size * 2 - 1
+        self._index[:] = reduce(iadd, reversed(tree), [])
 
     def __delitem__(self, index):
         """Remove value at `index` from sorted list.
-- 
2.43.0

