From 5bb632cf4036bc1ec18b10714b1670615fbfe8fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:21:52 +0000
Subject: [PATCH 01/53] fix: fire_any/fire_all return False/True when event has
 no listeners

---
 nion/utils/Event.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nion/utils/Event.py b/nion/utils/Event.py
index 104f800..21b4639 100644
--- a/nion/utils/Event.py
+++ b/nion/utils/Event.py
@@ -127,6 +127,8 @@ class Event:
                 return False
             except Exception as e:
                 self.__print_event_exception(listener)
+        else:
+            return False
 
     def fire_all(self, *args, **keywords):
         """Calls listeners (in order added) until one returns False or else return True."""
@@ -142,3 +144,5 @@ class Event:
                 return True
             except Exception as e:
                 self.__print_event_exception(listener)
+        else:
+            return True
-- 
2.43.0


From eaf31d1a42c1fb78c947619f1256894031b9c58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:21:52 +0000
Subject: [PATCH 02/53] fix: event listener follows owner even if owner is
 falsy

---
 nion/utils/Event.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nion/utils/Event.py b/nion/utils/Event.py
index 21b4639..8d7f1bc 100644
--- a/nion/utils/Event.py
+++ b/nion/utils/Event.py
@@ -75,7 +75,7 @@ class Event:
         weak_listener = weakref.ref(listener, remove_listener)
         with self.__weak_listeners_mutex:
             self.__weak_listeners.append(weak_listener)
-        if owner:
+        if owner is not None:
             def owner_gone(weak_owner):
                 listener = self.__listeners[id(weak_owner)][0]
                 listener.close()
-- 
2.43.0


From c01a8f6a3ed8afd1f21375bc28dd910c40c77e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:21:52 +0000
Subject: [PATCH 03/53] fix: filtered list full replacement reports the item
 actually removed at each index

---
 nion/utils/ListModel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nion/utils/ListModel.py b/nion/utils/ListModel.py
index 7ad5f4b..ab555f2 100644
--- a/nion/utils/ListModel.py
+++ b/nion/utils/ListModel.py
@@ -533,7 +533,7 @@ class FilteredListModel(Observable.Observable):
                     self.__insert_item(item, sort_key)
             else:
                 # requires sorting and not already sorted or not sorted: fall back to full replacement
-                for item in old_items:
+                for item in reversed(old_items):
                     # remove all items
                     self.__items.pop()
                     self.notify_remove_item(self.__items_key, item, len(self.__items))
-- 
2.43.0


From 28f2814b90a79ed2615016734be7241bc2eda24d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:22:54 +0000
Subject: [PATCH 04/53] fix: closed listener no longer makes fire_all stop and
 return False

---
 nion/utils/Event.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/nion/utils/Event.py b/nion/utils/Event.py
index 8d7f1bc..8eb24c4 100644
--- a/nion/utils/Event.py
+++ b/nion/utils/Event.py
@@ -30,6 +30,10 @@ class EventListener:
                 pass
             self.call = void
 
+    @property
+    def is_closed(self) -> bool:
+        return self.__listener_fn is None
+
     def close(self):
         self.__listener_fn = None
         def void(*args, **kwargs):
@@ -138,7 +142,7 @@ class Event:
                 with self.__weak_listeners_mutex:
                     listeners = [weak_listener() for weak_listener in self.__weak_listeners]
                 for listener in listeners:
-                    if listener:
+                    if listener and not listener.is_closed:
                         if not listener.call(*args, **keywords):
                             return False
                 return True
-- 
2.43.0


From f9865e54dee6abd26754a77cb60c1ea1ab544d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:22:56 +0000
Subject: [PATCH 05/53] fix: grouped inserts into filtered list keep master
 order when reverse is set without sort key

---
 nion/utils/ListModel.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/nion/utils/ListModel.py b/nion/utils/ListModel.py
index ab555f2..1cac3ed 100644
--- a/nion/utils/ListModel.py
+++ b/nion/utils/ListModel.py
@@ -391,12 +391,12 @@ class FilteredListModel(Observable.Observable):
             if self.__change_level > 0:
                 return
             if self.filter.matches(item):
-                self.__insert_item(item, self.sort_key)
+                self.__insert_item(item, self.sort_key, self.sort_reverse)
 
-    def __insert_item(self, item, sort_key) -> None:
+    def __insert_item(self, item, sort_key, sort_reverse) -> None:
         items = self.__items
         if sort_key is not None:
-            sort_operator = operator.gt if self.sort_reverse else operator.lt
+            sort_operator = operator.gt if sort_reverse else operator.lt
             before_index = self.__find_sorted_index_for_item(item, items, sort_key, sort_operator)
         else:
             before_index = self.__find_unsorted_index_for_item(item, self._get_master_items(), self.filter)
@@ -513,9 +513,11 @@ class FilteredListModel(Observable.Observable):
             self.begin_changes_event.fire(self.__items_key)
             if self.__items_sorted:
                 sort_key = self.sort_key
+                sort_reverse = self.sort_reverse
                 if not sort_key:
                     indexes = {item: index for index, item in enumerate(items)}
                     sort_key = lambda x: indexes[x]
+                    sort_reverse = False  # master order; reverse only applies to sort key
                 old_items_set = set(old_items)
                 new_items_set = set(items)
                 insert_items_set = new_items_set - old_items_set
@@ -530,7 +532,7 @@ class FilteredListModel(Observable.Observable):
                         items_removed += 1
                 # insert using sorting
                 for item in insert_items_set:
-                    self.__insert_item(item, sort_key)
+                    self.__insert_item(item, sort_key, sort_reverse)
             else:
                 # requires sorting and not already sorted or not sorted: fall back to full replacement
                 for item in reversed(old_items):
-- 
2.43.0


From 476ead795fe47c73da8d09727ea350abca41b456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:22:58 +0000
Subject: [PATCH 06/53] fix: filtered list reorders items moved or changed
 during grouped changes

---
 nion/utils/ListModel.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/nion/utils/ListModel.py b/nion/utils/ListModel.py
index 1cac3ed..d5ab86a 100644
--- a/nion/utils/ListModel.py
+++ b/nion/utils/ListModel.py
@@ -511,15 +511,20 @@ class FilteredListModel(Observable.Observable):
             # import time
             # t0 = time.perf_counter()
             self.begin_changes_event.fire(self.__items_key)
+            sort_key = self.sort_key
+            sort_reverse = self.sort_reverse
+            if not sort_key:
+                indexes = {item: index for index, item in enumerate(items)}
+                sort_key = lambda x: indexes[x]
+                sort_reverse = False  # master order; reverse only applies to sort key
+            old_items_set = set(old_items)
+            new_items_set = set(items)
+            # items which stay in the list may have been moved or may have changed during the group of changes.
+            kept_keys = [sort_key(item) for item in old_items if item in new_items_set]
+            sort_operator = operator.gt if sort_reverse else operator.lt
+            if any(sort_operator(key, previous_key) for previous_key, key in zip(kept_keys, kept_keys[1:])):
+                self.__items_sorted = False
             if self.__items_sorted:
-                sort_key = self.sort_key
-                sort_reverse = self.sort_reverse
-                if not sort_key:
-                    indexes = {item: index for index, item in enumerate(items)}
-                    sort_key = lambda x: indexes[x]
-                    sort_reverse = False  # master order; reverse only applies to sort key
-                old_items_set = set(old_items)
-                new_items_set = set(items)
                 insert_items_set = new_items_set - old_items_set
                 remove_items_set = old_items_set - new_items_set
                 items_removed = 0
-- 
2.43.0


From 530ad6b802f6250514fa721673ee0418b19badf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:22:59 +0000
Subject: [PATCH 07/53] fix: filtered list moves a changed item to its sorted
 position

---
 nion/utils/ListModel.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/nion/utils/ListModel.py b/nion/utils/ListModel.py
index d5ab86a..1d642c1 100644
--- a/nion/utils/ListModel.py
+++ b/nion/utils/ListModel.py
@@ -440,18 +440,17 @@ class FilteredListModel(Observable.Observable):
                 if sort_key is not None:
                     # are items sorted?
                     sort_operator = operator.gt if self.sort_reverse else operator.lt
-                    before_index = self.__find_sorted_index_for_item(item, items, sort_key, sort_operator)
                     if item in items:
-                        # item already in list?
+                        # item already in list? search the other items, which are known to be sorted.
                         index = items.index(item)
-                        if before_index < index:
+                        other_items = items[:index] + items[index + 1:]
+                        before_index = self.__find_sorted_index_for_item(item, other_items, sort_key, sort_operator)
+                        if before_index != index:
                             self.__removed_master_item(index, item)
                             self.__inserted_master_item(before_index, item)
-                        elif before_index > index:
-                            self.__removed_master_item(index, item)
-                            self.__inserted_master_item(before_index - 1, item)
                     else:
                         # item is not in list, just insert
+                        before_index = self.__find_sorted_index_for_item(item, items, sort_key, sort_operator)
                         self.__inserted_master_item(before_index, item)
                 else:
                     # items are not sorted
-- 
2.43.0


From 262304a2a278d85430f9ec757dcbc2369dd7a18f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:23:01 +0000
Subject: [PATCH 08/53] fix: filtered list selections use filtered indexes
 rather than master indexes

---
 nion/utils/ListModel.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/nion/utils/ListModel.py b/nion/utils/ListModel.py
index 1d642c1..5e3b169 100644
--- a/nion/utils/ListModel.py
+++ b/nion/utils/ListModel.py
@@ -403,6 +403,8 @@ class FilteredListModel(Observable.Observable):
         self.__items.insert(before_index, item)
         self.begin_changes_event.fire(self.__items_key)
         self.notify_insert_item(self.__items_key, item, before_index)
+        for selection in self.__selections:
+            selection.insert_index(before_index)
         self.end_changes_event.fire(self.__items_key)
 
     def __remove_item(self, item):
@@ -410,6 +412,8 @@ class FilteredListModel(Observable.Observable):
         del self.__items[item_index]
         self.begin_changes_event.fire(self.__items_key)
         self.notify_remove_item(self.__items_key, item, item_index)
+        for selection in self.__selections:
+            selection.remove_index(item_index)
         self.end_changes_event.fire(self.__items_key)
 
     # thread safe
@@ -533,6 +537,8 @@ class FilteredListModel(Observable.Observable):
                         item_index = index - items_removed
                         del self.__items[item_index]
                         self.notify_remove_item(self.__items_key, item, item_index)
+                        for selection in self.__selections:
+                            selection.remove_index(item_index)
                         items_removed += 1
                 # insert using sorting
                 for item in insert_items_set:
@@ -629,8 +635,6 @@ class FilteredListModel(Observable.Observable):
 
                 self.__item_changed_event_listeners[id(item)] = item.item_changed_event.listen(item_content_changed) if hasattr(item, "item_changed_event") else None
                 self.__inserted_master_item(before_index, item)
-                for selection in self.__selections:
-                    selection.insert_index(before_index)
 
     # thread safe.
     def __item_removed(self, key, item, index):
@@ -642,8 +646,6 @@ class FilteredListModel(Observable.Observable):
                     self.__item_changed_event_listeners[id(item)].close()
                 del self.__item_changed_event_listeners[id(item)]
                 self.__removed_master_item(index, item)
-                for selection in self.__selections:
-                    selection.remove_index(index)
 
 
 class MappedListModel(Observable.Observable):
-- 
2.43.0


From f89546e45ffb49c6470ad751bfbf224e2af15425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:23:02 +0000
Subject: [PATCH 09/53] fix: flattened list selections use flattened index for
 inserted items

---
 nion/utils/ListModel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nion/utils/ListModel.py b/nion/utils/ListModel.py
index 5e3b169..f820fbe 100644
--- a/nion/utils/ListModel.py
+++ b/nion/utils/ListModel.py
@@ -907,7 +907,7 @@ class FlattenedListModel(Observable.Observable):
             self.__items.insert(master_index, item)
             self.notify_insert_item(self.__items_key, item, master_index)
             for selection in self.__selections:
-                selection.insert_index(before_index)
+                selection.insert_index(master_index)
 
     def __child_item_removed(self, master_item, key, item, index):
         if key == self.__child_items_key:
-- 
2.43.0


From 86b7d71829ff7b59185caaed76302c07a00db75a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:23:04 +0000
Subject: [PATCH 10/53] fix: deep copy of TextFilter can match items

---
 nion/utils/ListModel.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nion/utils/ListModel.py b/nion/utils/ListModel.py
index f820fbe..128d6d4 100644
--- a/nion/utils/ListModel.py
+++ b/nion/utils/ListModel.py
@@ -177,6 +177,7 @@ class TextFilter(Filter):
         result = super().__deepcopy__(memo)
         result.__key = self.__key
         result.__text = self.__text
+        result.__lower_text = self.__lower_text
         return result
 
     def matches(self, d) -> bool:
-- 
2.43.0


From 904bca52327b5bee09d09f0ffd9fdc92e825b68e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:23:06 +0000
Subject: [PATCH 11/53] fix: clearing a single style selection leaves only one
 index selected

---
 nion/utils/Selection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nion/utils/Selection.py b/nion/utils/Selection.py
index 7dc5e85..e7ac856 100644
--- a/nion/utils/Selection.py
+++ b/nion/utils/Selection.py
@@ -77,7 +77,7 @@ class IndexedSelection:
     def clear(self) -> None:
         old_index = copy.copy(self.__indexes)
         if self.selection_style == Style.single:
-            self.__indexes.add(0)
+            self.__indexes = {0}
             self.__anchor_index = 0
         else:
             self.__indexes = set()
-- 
2.43.0


From cab074dc9be957c1fc4ae58de336d5a97f0f8255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:23:08 +0000
Subject: [PATCH 12/53] fix: selection anchor moves to a selected index when
 the anchor is removed

---
 nion/utils/Selection.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/nion/utils/Selection.py b/nion/utils/Selection.py
index e7ac856..8120b29 100644
--- a/nion/utils/Selection.py
+++ b/nion/utils/Selection.py
@@ -86,6 +86,7 @@ class IndexedSelection:
             self.__changed_event.fire()
 
     def __update_anchor_index(self) -> None:
+        self.__anchor_index = None
         for index in self.__indexes:
             if self.__anchor_index is None or index < self.__anchor_index:
                 self.__anchor_index = index
@@ -196,10 +197,10 @@ class IndexedSelection:
                     new_indexes.add(index - 1)
                 else:
                     new_indexes.add(index)
-        if self.__anchor_index is not None:
-            if remove_index == self.__anchor_index:
-                self.__update_anchor_index()
-            elif remove_index < self.__anchor_index:
-                self.__anchor_index -= 1
+        was_anchor_removed = remove_index == self.__anchor_index
+        if self.__anchor_index is not None and remove_index < self.__anchor_index:
+            self.__anchor_index -= 1
         if self.__indexes != new_indexes:
             self.__indexes = new_indexes
+        if was_anchor_removed:
+            self.__update_anchor_index()
-- 
2.43.0


From 2a1c8b4235163dc217f9abfd9c6b62b6e36f4618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:24:52 +0000
Subject: [PATCH 13/53] fix: clearing a persistent property clears its storage
 key

---
 nion/utils/Persistence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nion/utils/Persistence.py b/nion/utils/Persistence.py
index 7f76fe1..df59313 100644
--- a/nion/utils/Persistence.py
+++ b/nion/utils/Persistence.py
@@ -594,7 +594,7 @@ class PersistentObject:
                 for property_key in properties:
                     self.persistent_object_context.property_changed(self, property_key, properties[property_key])
             else:
-                self.persistent_object_context.clear_property(self, name)
+                self.persistent_object_context.clear_property(self, property.key)
 
     def __update_modified(self, modified):
         self.__modified_count += 1
-- 
2.43.0


From adb06f13f400c38794f48eac70ae68f564812648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:24:54 +0000
Subject: [PATCH 14/53] fix: replaced or cleared persistent item is detached
 from its context and parent

---
 nion/utils/Persistence.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nion/utils/Persistence.py b/nion/utils/Persistence.py
index df59313..d97c98d 100644
--- a/nion/utils/Persistence.py
+++ b/nion/utils/Persistence.py
@@ -682,6 +682,9 @@ class PersistentObject:
         old_value = item.value
         item.value = value
         self.__update_modified(datetime.datetime.utcnow())
+        if old_value:
+            old_value.persistent_object_context = None
+            old_value.persistent_object_parent = None
         if value:
             value.persistent_object_parent = PersistentObjectParent(self, item_name=name)
         # the persistent_object_parent and item need to be established before
-- 
2.43.0


From bd09ef9a6ef73f69d988c527900a87126c7dea86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:24:56 +0000
Subject: [PATCH 15/53] fix: persistent object with hidden item can be deep
 copied

---
 nion/utils/Persistence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nion/utils/Persistence.py b/nion/utils/Persistence.py
index d97c98d..494ef46 100644
--- a/nion/utils/Persistence.py
+++ b/nion/utils/Persistence.py
@@ -393,7 +393,7 @@ class PersistentObject:
             new_value = copy.deepcopy(value)
             self._set_persistent_property_value(key, new_value)
         for key in self.__items.keys():
-            self.set_item(key, copy.deepcopy(getattr(item, key)))
+            self.set_item(key, copy.deepcopy(item.get_item(key)))
         for key in self.__relationships.keys():
             for child_item in getattr(item, key):
                 self.append_item(key, copy.deepcopy(child_item, memo))
-- 
2.43.0


From 7c971d6b5d03790721256130077c39a63c538ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:24:58 +0000
Subject: [PATCH 16/53] fix: subscribing without registered function to an
 already registered object

---
 nion/utils/Persistence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nion/utils/Persistence.py b/nion/utils/Persistence.py
index 494ef46..261df2a 100644
--- a/nion/utils/Persistence.py
+++ b/nion/utils/Persistence.py
@@ -222,7 +222,7 @@ class PersistentObjectContext:
         self.__subscriptions.setdefault(object_uuid, list()).append((registered, unregistered))
         weak_object = self.__objects.get(object_uuid)
         object = weak_object and weak_object()
-        if object is not None:
+        if object is not None and registered:
             registered(object)
 
     def _set_persistent_storage_for_object(self, object, persistent_storage):
-- 
2.43.0


From 4c5f3e348ba4592befad222387ced58ed5f9b5c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:25:00 +0000
Subject: [PATCH 17/53] fix: subscribing from a registration callback gets
 called only once

---
 nion/utils/Persistence.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nion/utils/Persistence.py b/nion/utils/Persistence.py
index 261df2a..b28020d 100644
--- a/nion/utils/Persistence.py
+++ b/nion/utils/Persistence.py
@@ -184,7 +184,7 @@ class PersistentObjectContext:
         object_uuid = object.uuid
         weak_object = weakref.ref(object)
         self.__objects[object_uuid] = weak_object
-        for registered, unregistered in self.__subscriptions.get(object_uuid, list()):
+        for registered, unregistered in list(self.__subscriptions.get(object_uuid, list())):
             if registered:
                 registered(object)
         self.registration_event.fire(object, None)
@@ -198,7 +198,7 @@ class PersistentObjectContext:
         object_uuid = object.uuid
         weak_object = self.__objects.get(object_uuid)
         object = weak_object() if weak_object else None
-        for registered, unregistered in self.__subscriptions.get(object_uuid, list()):
+        for registered, unregistered in list(self.__subscriptions.get(object_uuid, list())):
             if unregistered:
                 unregistered(object)
         self.registration_event.fire(None, object)
-- 
2.43.0


From f6f4daccb982bf3591011c34e5c11810aea3fd3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:25:02 +0000
Subject: [PATCH 18/53] fix: structured model can be built with fields of type
 FLOAT

---
 nion/utils/StructuredModel.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/nion/utils/StructuredModel.py b/nion/utils/StructuredModel.py
index 851f601..2d42893 100644
--- a/nion/utils/StructuredModel.py
+++ b/nion/utils/StructuredModel.py
@@ -62,10 +62,10 @@ def define_array(items: MDescription) -> MDescription:
 
 
 def build_model(schema: MDescription, *, default_value=None, value=None):
-    if schema in ("string", "boolean", "int", "float"):
+    if schema in (STRING, BOOLEAN, INT, FLOAT, "float"):
         return FieldPropertyModel(default_value if default_value is not None else value)
     type = typing.cast(dict, schema).get("type")
-    if type in ("string", "boolean", "int", "float"):
+    if type in (STRING, BOOLEAN, INT, FLOAT, "float"):
         return FieldPropertyModel(default_value if default_value is not None else value)
     elif type == "record":
         record_values = copy.copy(default_value or dict())
@@ -76,10 +76,10 @@ def build_model(schema: MDescription, *, default_value=None, value=None):
 
 
 def build_value(schema: MDescription, *, value=None):
-    if schema in ("string", "boolean", "int", "float"):
+    if schema in (STRING, BOOLEAN, INT, FLOAT, "float"):
         return value
     type = typing.cast(dict, schema).get("type")
-    if type in ("string", "boolean", "int", "float"):
+    if type in (STRING, BOOLEAN, INT, FLOAT, "float"):
         return value
     elif type == "record":
         return RecordModel(schema, values=value)
-- 
2.43.0


From bfa63355c742c12ccde3c8f13daa7c7c5ec7baa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:25:04 +0000
Subject: [PATCH 19/53] fix: explicit structured model value overrides field
 default

---
 nion/utils/StructuredModel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nion/utils/StructuredModel.py b/nion/utils/StructuredModel.py
index 2d42893..2aee36a 100644
--- a/nion/utils/StructuredModel.py
+++ b/nion/utils/StructuredModel.py
@@ -63,10 +63,10 @@ def define_array(items: MDescription) -> MDescription:
 
 def build_model(schema: MDescription, *, default_value=None, value=None):
     if schema in (STRING, BOOLEAN, INT, FLOAT, "float"):
-        return FieldPropertyModel(default_value if default_value is not None else value)
+        return FieldPropertyModel(value if value is not None else default_value)
     type = typing.cast(dict, schema).get("type")
     if type in (STRING, BOOLEAN, INT, FLOAT, "float"):
-        return FieldPropertyModel(default_value if default_value is not None else value)
+        return FieldPropertyModel(value if value is not None else default_value)
     elif type == "record":
         record_values = copy.copy(default_value or dict())
         record_values.update(value or dict())
-- 
2.43.0


From ee079d0193e5874ecff0245f125b338555b2d5cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:25:06 +0000
Subject: [PATCH 20/53] fix: array model keeps change listeners in step with
 its items

---
 nion/utils/StructuredModel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nion/utils/StructuredModel.py b/nion/utils/StructuredModel.py
index 2aee36a..cdb9225 100644
--- a/nion/utils/StructuredModel.py
+++ b/nion/utils/StructuredModel.py
@@ -297,7 +297,7 @@ class ArrayModel(ListModelModule.ListModel):
         trampoline = None
         if isinstance(value, (RecordModel, ArrayModel)):
             trampoline = value.model_changed_event.listen(self.model_changed_event.fire)
-        self.__model_changed_listeners.append(trampoline)
+        self.__model_changed_listeners.insert(before_index, trampoline)
         self.model_changed_event.fire()
 
     def notify_remove_item(self, key, value, index):
-- 
2.43.0


From 8f5b369cee0c05a8827554c44fb10a3d29480fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:25:08 +0000
Subject: [PATCH 21/53] fix: array model can be closed

---
 nion/utils/StructuredModel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nion/utils/StructuredModel.py b/nion/utils/StructuredModel.py
index cdb9225..62fa630 100644
--- a/nion/utils/StructuredModel.py
+++ b/nion/utils/StructuredModel.py
@@ -258,7 +258,7 @@ class ArrayModel(ListModelModule.ListModel):
             self.__model_changed_listeners.append(trampoline)
 
     def close(self):
-        for index, item in enumerate(self.items()):
+        for index, item in enumerate(self.items):
             trampoline = self.__model_changed_listeners[index]
             if trampoline:
                 trampoline.close()
-- 
2.43.0


From cd1b712e84e84c05ccd513125151da19e4cfe4ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:25:10 +0000
Subject: [PATCH 22/53] fix: membership test on structured model array field

---
 nion/utils/StructuredModel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nion/utils/StructuredModel.py b/nion/utils/StructuredModel.py
index 62fa630..ee73530 100644
--- a/nion/utils/StructuredModel.py
+++ b/nion/utils/StructuredModel.py
@@ -226,7 +226,7 @@ class ItemsSequence(collections.abc.MutableSequence):
         self.__list_model.remove_item(key)
 
     def __contains__(self, item):
-        return self.__list_model.items.contains(item)
+        return item in self.__list_model.items
 
     def insert(self, index, value):
         self.__list_model.insert_item(index, value)
-- 
2.43.0


From fc2099fd3fcf4ffa914a5e1ea2b4a07cdc241647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:25:11 +0000
Subject: [PATCH 23/53] fix: array model copies basic values and notifies when
 copied into

---
 nion/utils/StructuredModel.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/nion/utils/StructuredModel.py b/nion/utils/StructuredModel.py
index ee73530..029f097 100644
--- a/nion/utils/StructuredModel.py
+++ b/nion/utils/StructuredModel.py
@@ -273,18 +273,21 @@ class ArrayModel(ListModelModule.ListModel):
         self.from_dict_value(array.to_dict_value())
 
     def from_dict_value(self, values):
-        while len(values) > len(self.items):
-            item_schema = self.schema["items"]
-            self.items.append(build_value(item_schema))
         while len(values) < len(self.items):
-            del self.items[-1]
-        for value, item in zip(values, self.items):
-            item.from_dict_value(value)
+            self.remove_item(len(self.items) - 1)
+        for index, value in enumerate(values):
+            if index >= len(self.items):
+                self.append_item(build_value(self.schema["items"], value=value))
+            elif isinstance(self.items[index], (RecordModel, ArrayModel)):
+                self.items[index].from_dict_value(value)
+            elif self.items[index] != value:
+                self.remove_item(index)
+                self.insert_item(index, value)
 
     def to_dict_value(self) -> typing.Optional[typing.Any]:
         l = list()
         for item in self.items:
-            l.append(item.to_dict_value())
+            l.append(item.to_dict_value() if isinstance(item, (RecordModel, ArrayModel)) else item)
         return l
 
     @property
-- 
2.43.0


From a2b59e5a83a6e3ad0cfc903d8bda62c129493d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:25:13 +0000
Subject: [PATCH 24/53] fix: get_component returns the component with the
 highest priority

---
 nion/utils/Registry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nion/utils/Registry.py b/nion/utils/Registry.py
index 79279bf..ccd5a50 100644
--- a/nion/utils/Registry.py
+++ b/nion/utils/Registry.py
@@ -93,7 +93,7 @@ def get_component(component_type: str) -> typing.Optional[typing.Any]:
     sorted_components = sorted(components, key=attrgetter("priority", 50), reverse=True)
 
     if len(sorted_components) > 0:
-        return tuple(components)[0]
+        return sorted_components[0]
 
     return None
 
-- 
2.43.0


From 75adeef4b32430bf1b0e9edc4fa5ac4be961da87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:25:15 +0000
Subject: [PATCH 25/53] fix: component unregistered event reports the types
 which were unregistered

---
 nion/utils/Registry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nion/utils/Registry.py b/nion/utils/Registry.py
index ccd5a50..194c0cb 100644
--- a/nion/utils/Registry.py
+++ b/nion/utils/Registry.py
@@ -60,7 +60,7 @@ class ComponentManager(metaclass=Singleton):
         self.component_registered_event.fire(component, component_types)
 
     def unregister(self, component, component_types: typing.Set[str] = None) -> None:
-        component_types = component_types if component_types is not None else self.__component_types[component]
+        component_types = component_types if component_types is not None else set(self.__component_types[component])
         for component_type in component_types:
             assert component in self.__components_by_type.get(component_type, set())
         for component_type in component_types:
-- 
2.43.0


From 9a24b45eb14c6b6d1ac4fe5f87186cba8bb54a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:25:17 +0000
Subject: [PATCH 26/53] fix: components can be registered and unregistered
 while iterating components by type

---
 nion/utils/Registry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nion/utils/Registry.py b/nion/utils/Registry.py
index 194c0cb..980cc21 100644
--- a/nion/utils/Registry.py
+++ b/nion/utils/Registry.py
@@ -48,7 +48,7 @@ class ComponentManager(metaclass=Singleton):
         return self.__components_by_type
 
     def get_components_by_type(self, component_type:str) -> typing.Set[typing.Any]:
-        return self.__components_by_type.get(component_type, list())
+        return set(self.__components_by_type.get(component_type, set()))
 
     def register(self, component, component_types: typing.Set[str]) -> None:
         for component_type in component_types:
-- 
2.43.0


From 1b5012d10f47bd8a1d2ff1463a152e6d077c960c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:25:18 +0000
Subject: [PATCH 27/53] fix: scaled integer converter rounds so that integer
 values survive round trip

---
 nion/utils/Converter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nion/utils/Converter.py b/nion/utils/Converter.py
index b5dda3d..2e70a47 100644
--- a/nion/utils/Converter.py
+++ b/nion/utils/Converter.py
@@ -83,7 +83,7 @@ class FloatToScaledIntegerConverter:
 
     def convert(self, value):
         """ Convert float between 0, 1 to percentage int """
-        return int(self.n * (value - self.value_min) / (self.value_max - self.value_min))
+        return round(self.n * (value - self.value_min) / (self.value_max - self.value_min))
 
     def convert_back(self, value_int):
         """ Convert int percentage value to float """
-- 
2.43.0


From 4e72c22404ffb8cb9b81b73c23a0a4362a052ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:25:20 +0000
Subject: [PATCH 28/53] fix: percent string converter rounds so that
 percentages survive round trip

---
 nion/utils/Converter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nion/utils/Converter.py b/nion/utils/Converter.py
index 2e70a47..03e9537 100644
--- a/nion/utils/Converter.py
+++ b/nion/utils/Converter.py
@@ -95,7 +95,7 @@ class FloatToPercentStringConverter:
 
     def convert(self, value):
         """ Convert float between 0, 1 to percentage string """
-        return str(int(value * 100)) + "%"
+        return str(round(value * 100)) + "%"
 
     def convert_back(self, formatted_value):
         """ Convert percentage string to float between 0, 1 """
-- 
2.43.0


From 88141815b733a973eb0f08d0c1f9ed1392093078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:25:22 +0000
Subject: [PATCH 29/53] fix: physical value converter passes None back to
 source when pass_none is set

---
 nion/utils/Converter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nion/utils/Converter.py b/nion/utils/Converter.py
index 03e9537..aa13da7 100644
--- a/nion/utils/Converter.py
+++ b/nion/utils/Converter.py
@@ -120,7 +120,8 @@ class PhysicalValueToStringConverter:
 
     def convert_back(self, formatted_value):
         """ Convert string to value using standard float conversion """
-        return FloatToStringConverter().convert_back(formatted_value) / self.__multiplier
+        value = FloatToStringConverter(pass_none=self.__pass_none).convert_back(formatted_value)
+        return value / self.__multiplier if value is not None else None
 
 
 class CheckedToCheckStateConverter:
-- 
2.43.0


From ab1d215adabc0be673fa4c9a636af8b49ee1b8a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:25:23 +0000
Subject: [PATCH 30/53] fix: pretty range of values just below a power of ten

---
 nion/utils/Geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nion/utils/Geometry.py b/nion/utils/Geometry.py
index 90d1ae6..9596894 100755
--- a/nion/utils/Geometry.py
+++ b/nion/utils/Geometry.py
@@ -29,7 +29,7 @@ def make_pretty(val, rounding):
     val_norm = abs(val) / factor10  # between 1 and 10
     if val_norm < 1.0:
         val_norm = val_norm * 10
-        factor10 = factor10 // 10
+        factor10 = factor10 / 10
     if rounding:
         if val_norm < 1.5:
             val_norm = 1.0
-- 
2.43.0


From f484b91eea588035b30579193c0412caf4384268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:25:25 +0000
Subject: [PATCH 31/53] fix: linear ticker labels of large or small negative
 values are unique

---
 nion/utils/Geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nion/utils/Geometry.py b/nion/utils/Geometry.py
index 9596894..badee2a 100755
--- a/nion/utils/Geometry.py
+++ b/nion/utils/Geometry.py
@@ -180,7 +180,7 @@ class LinearTicker(Ticker):
     def __nice_label(self, value: float, precision: int, factor10: float) -> str:
         f10 = int(math.log10(factor10)) if factor10 > 0 else 0
         if abs(f10) > 5:
-            f10x = int(math.log10(value)) if value > 0 else f10
+            f10x = int(math.log10(abs(value))) if value != 0 else f10
             precision = max(0, f10x - f10)
             return (u"{0:0." + u"{0:d}".format(precision) + "e}").format(value)
         else:
-- 
2.43.0


From baf0153b38dc7850360419d8ee40d86085b37ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:25:27 +0000
Subject: [PATCH 32/53] fix: debounce stream does not lose a value set while
 firing

---
 nion/utils/Stream.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nion/utils/Stream.py b/nion/utils/Stream.py
index 1edc69c..ea5b408 100644
--- a/nion/utils/Stream.py
+++ b/nion/utils/Stream.py
@@ -168,9 +168,9 @@ class DebounceStream(AbstractStream):
     async def debounce_delay(self) -> None:
         try:
             await asyncio.sleep(self.__period)
-            self.value_stream.fire(self.__value)
         finally:
             self.__debounce_task = None
+        self.value_stream.fire(self.__value)
 
     def __value_changed(self, value):
         self.__value = value
-- 
2.43.0


From 65b9257c33f51cc56bb88d03d507ef3a5434bfd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:25:29 +0000
Subject: [PATCH 33/53] fix: sample stream first sample is the initial value of
 the input stream

---
 nion/utils/Stream.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nion/utils/Stream.py b/nion/utils/Stream.py
index ea5b408..d396ca4 100644
--- a/nion/utils/Stream.py
+++ b/nion/utils/Stream.py
@@ -197,6 +197,7 @@ class SampleStream(AbstractStream):
         self.__value = None
         self.__listener = input_stream.value_stream.listen(self.__value_changed)
         self.__value = input_stream.value
+        self.__pending_value = self.__value
         self.__value_dirty = True
         self.__value_dirty_lock = threading.RLock()
         self.__done = False
-- 
2.43.0


From 07bb580b93a60818e4c5c8d07cbf50c699b02657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:25:31 +0000
Subject: [PATCH 34/53] fix: sample stream does not lose a value set from
 another thread

---
 nion/utils/Stream.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/nion/utils/Stream.py b/nion/utils/Stream.py
index d396ca4..124f537 100644
--- a/nion/utils/Stream.py
+++ b/nion/utils/Stream.py
@@ -223,15 +223,16 @@ class SampleStream(AbstractStream):
         await asyncio.sleep(self.__period)
         with self.__value_dirty_lock:
             value_dirty = self.__value_dirty
+            pending_value = self.__pending_value
             self.__value_dirty = False
         if value_dirty:
-            self.__value = self.__pending_value
-            self.value_stream.fire(self.__pending_value)
+            self.__value = pending_value
+            self.value_stream.fire(pending_value)
 
     def __value_changed(self, value):
         with self.__value_dirty_lock:
             self.__value_dirty = True
-        self.__pending_value = value
+            self.__pending_value = value
 
     @property
     def value(self):
-- 
2.43.0


From 452e1f85362b2e9ec907c9a558a1b845d6f1c97d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:25:33 +0000
Subject: [PATCH 35/53] fix: waiting trigger returns when dispatched function
 raises

---
 nion/utils/ThreadPool.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nion/utils/ThreadPool.py b/nion/utils/ThreadPool.py
index afbd87b..c9b846a 100644
--- a/nion/utils/ThreadPool.py
+++ b/nion/utils/ThreadPool.py
@@ -76,12 +76,13 @@ class ThreadDispatcher(object):
                 break
             try:
                 self.__fn()
-                self.__triggered_event.set()
             except Exception as e:
                 import traceback
                 logging.debug("Processing thread exception %s", e)
                 traceback.print_exc()
                 traceback.print_stack()
+            finally:
+                self.__triggered_event.set()
             self.__last_time = time.time()
 
 
-- 
2.43.0


From 742d8a102e325bdc7d845b44a529317ac2669d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:25:35 +0000
Subject: [PATCH 36/53] fix: closing thread dispatcher releases pending waiting
 triggers

---
 nion/utils/ThreadPool.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nion/utils/ThreadPool.py b/nion/utils/ThreadPool.py
index c9b846a..91a613a 100644
--- a/nion/utils/ThreadPool.py
+++ b/nion/utils/ThreadPool.py
@@ -42,6 +42,7 @@ class ThreadDispatcher(object):
             self.__thread_break = True
             self.__thread_event.set()
         self.__thread.join()
+        self.__triggered_event.set()  # release anything waiting for a trigger
         self.__thread = None
         self.__fn = None
 
-- 
2.43.0


From 9b5ce257d7074c01db9d4063fffe1ccaf90a462d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:25:37 +0000
Subject: [PATCH 37/53] fix: superseded function value does not overwrite newer
 value in FuncStreamValueModel

---
 nion/utils/Model.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/nion/utils/Model.py b/nion/utils/Model.py
index bd5d120..c5551b5 100644
--- a/nion/utils/Model.py
+++ b/nion/utils/Model.py
@@ -62,16 +62,24 @@ class FuncStreamValueModel(PropertyModel):
         self.__value_func_stream = value_func_stream.add_ref()
         self.__event_loop = event_loop
         self.__count = 0
+        self.__last_index = 0  # index of the most recently queued value function
+        self.__value_index = 0  # index of the value function which produced value
 
         def handle_value_func(value_func):
+            self.__last_index += 1
+            index = self.__last_index
+
             async def update_value():
                 value_ref = [None]
                 def eval(value_ref):
                     value_ref[0] = value_func()
                 await event_loop.run_in_executor(None, eval, value_ref)
                 value = value_ref[0]
-                self.value = value
-                self.notify_property_changed("value")
+                # evaluations may finish out of order; ignore the ones that have been superseded.
+                if index > self.__value_index:
+                    self.__value_index = index
+                    self.value = value
+                    self.notify_property_changed("value")
                 self.__count -= 1
             self.__count += 1
             event_loop.create_task(update_value())
-- 
2.43.0


From a858c84a74121e9dd95cca28795eb19f09d8f6b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:25:39 +0000
Subject: [PATCH 38/53] fix: FuncStreamValueModel does not count failed
 evaluations as pending

---
 nion/utils/Model.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nion/utils/Model.py b/nion/utils/Model.py
index c5551b5..d198f6e 100644
--- a/nion/utils/Model.py
+++ b/nion/utils/Model.py
@@ -73,14 +73,16 @@ class FuncStreamValueModel(PropertyModel):
                 value_ref = [None]
                 def eval(value_ref):
                     value_ref[0] = value_func()
-                await event_loop.run_in_executor(None, eval, value_ref)
+                try:
+                    await event_loop.run_in_executor(None, eval, value_ref)
+                finally:
+                    self.__count -= 1
                 value = value_ref[0]
                 # evaluations may finish out of order; ignore the ones that have been superseded.
                 if index > self.__value_index:
                     self.__value_index = index
                     self.value = value
                     self.notify_property_changed("value")
-                self.__count -= 1
             self.__count += 1
             event_loop.create_task(update_value())
 
-- 
2.43.0


From 97cdf227964be4c7e16f96dc6020759e68cae07d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:26:10 +0000
Subject: [PATCH 39/53] fix: recorder replays item and relationship changes at
 the positions where they were recorded

---
 nion/utils/Recorder.py | 72 +++++++++++++++++++++++-------------------
 1 file changed, 40 insertions(+), 32 deletions(-)

diff --git a/nion/utils/Recorder.py b/nion/utils/Recorder.py
index 5ece3c7..bb5cbe4 100644
--- a/nion/utils/Recorder.py
+++ b/nion/utils/Recorder.py
@@ -1,6 +1,5 @@
 import collections
 import copy
-import functools
 import typing
 
 
@@ -22,18 +21,14 @@ class Recorder:
         self.__item_removed_event_listener = object.item_removed_event.listen(self.__item_removed)
         self.__item_recorders = dict()
         self.__relationship_recorders = collections.defaultdict(list)
+        self.__make_accessor_fn = lambda: self.__accessor_fn
         for key in object.item_names:
-            item = getattr(object, key)
+            item = object.get_item(key)
             if item:
-                def item_accessor(key, x):
-                    return getattr(self.__accessor_fn(x), key)
-                self.__item_recorders[key] = Recorder(item, functools.partial(item_accessor, key), self.__logger)
+                self.__item_recorders[key] = self.__make_item_recorder(key, item)
         for key in object.relationship_names:
-            items = getattr(object, key)
-            for index, item in enumerate(items):
-                def item_index_accessor(key: str, index: int, x):
-                    return getattr(self.__accessor_fn(x), key)[index]
-                self.__relationship_recorders[key].append(Recorder(item, functools.partial(item_index_accessor, key, index), self.__logger))
+            for item in getattr(object, key):
+                self.__relationship_recorders[key].append(self.__make_relationship_recorder(key, item))
 
     def close(self):
         self.__property_changed_event_listener.close()
@@ -58,46 +53,59 @@ class Recorder:
         for logger_item in self.__logger:
             logger_item(object)
 
-    @property
-    def _accessor_fn(self) -> AccessorType:
-        return self._accessor_fn
+    # the position of an object may change while recording and the log entries need to refer to the position at the time
+    # they were recorded. so each log entry uses a new accessor, made when it gets recorded.
 
-    @_accessor_fn.setter
-    def _accessor_fn(self, value: AccessorType) -> None:
-        self._accessor_fn = value
+    def _make_accessor_fn(self) -> AccessorType:
+        return self.__make_accessor_fn()
+
+    def __make_item_recorder(self, key, item) -> "Recorder":
+        def make_accessor_fn() -> AccessorType:
+            accessor_fn = self._make_accessor_fn()
+            return lambda x: accessor_fn(x).get_item(key)
+        recorder = Recorder(item, None, self.__logger)
+        recorder.__make_accessor_fn = make_accessor_fn
+        return recorder
+
+    def __make_relationship_recorder(self, key, item) -> "Recorder":
+        recorder = Recorder(item, None, self.__logger)
+        def make_accessor_fn() -> AccessorType:
+            accessor_fn = self._make_accessor_fn()
+            index = self.__relationship_recorders[key].index(recorder)
+            return lambda x: getattr(accessor_fn(x), key)[index]
+        recorder.__make_accessor_fn = make_accessor_fn
+        return recorder
 
     def __property_changed(self, key):
         if self.__object._is_persistent_property_recordable(key):
-            def property_setter(x):
-                setattr(self.__accessor_fn(x), key, getattr(self.__object, key))
+            accessor_fn = self._make_accessor_fn()
+            value = copy.deepcopy(getattr(self.__object, key))
             # print("set property {} {}".format(key, value))
-            self.__logger.append(property_setter)
+            self.__logger.append(lambda x: setattr(accessor_fn(x), key, value))
 
     def __item_set(self, key, item):
-        item_recorder = self.__item_recorders.pop(key)
+        item_recorder = self.__item_recorders.pop(key, None)
         if item_recorder:
             item_recorder.close()
-        item = getattr(self.__accessor_fn(), key)
         if item:
-            self.__item_recorders[key] = Recorder(item, lambda x: getattr(self.__accessor_fn(x), key), self.__logger)
+            self.__item_recorders[key] = self.__make_item_recorder(key, item)
         # print("set {} {}".format(key, item))
-        self.__logger.append(lambda x: setattr(self.__accessor_fn(x), key, item))
+        accessor_fn = self._make_accessor_fn()
+        item = copy.deepcopy(item)
+        self.__logger.append(lambda x: accessor_fn(x).set_item(key, copy.deepcopy(item)))
 
     def __item_cleared(self, key):
         self.__item_set(key, None)
 
     def __item_inserted(self, key, value, before_index):
-        for index, relationship_recorder in enumerate(self.__relationship_recorders[key]):
-            if index >= before_index:
-                relationship_recorder._accessor_fn = lambda x: getattr(self.__accessor_fn(x), key)[index + 1]
-        self.__relationship_recorders[key].insert(before_index, Recorder(value, lambda x: getattr(self.__accessor_fn(x), key)[before_index], self.__logger))
+        self.__relationship_recorders[key].insert(before_index, self.__make_relationship_recorder(key, value))
         # print("append {} {} {}".format(key, value, before_index))
-        self.__logger.append(lambda x: self.__accessor_fn(x).insert_item(key, before_index, copy.deepcopy(value)))
+        accessor_fn = self._make_accessor_fn()
+        value = copy.deepcopy(value)
+        self.__logger.append(lambda x: accessor_fn(x).insert_item(key, before_index, copy.deepcopy(value)))
 
     def __item_removed(self, key, value, item_index):
-        for index, relationship_recorder in enumerate(self.__relationship_recorders[key]):
-            if index > item_index:
-                relationship_recorder._accessor_fn = lambda x: getattr(self.__accessor_fn(x), key)[index - 1]
         self.__relationship_recorders[key].pop(item_index).close()
         # print("remove {} {} {}".format(key, value, item_index))
-        self.__logger.append(lambda x: self.__accessor_fn(x).remove_item(key, getattr(self.__accessor_fn(x), key)[item_index]))
+        accessor_fn = self._make_accessor_fn()
+        self.__logger.append(lambda x: accessor_fn(x).remove_item(key, getattr(accessor_fn(x), key)[item_index]))
-- 
2.43.0


From bd2fd01a677dad8182c4238e168d4efab404463a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:37:34 +0000
Subject: [PATCH 40/53] fix: releasing a selection does not release another one
 which happens to be equal

---
 nion/utils/ListModel.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nion/utils/ListModel.py b/nion/utils/ListModel.py
index 128d6d4..10b9cf6 100644
--- a/nion/utils/ListModel.py
+++ b/nion/utils/ListModel.py
@@ -618,7 +618,7 @@ class FilteredListModel(Observable.Observable):
         return selection
 
     def release_selection(self, selection):
-        self.__selections.remove(selection)
+        self.__selections = [selection_ for selection_ in self.__selections if selection_ is not selection]
 
     # thread safe.
     def __item_inserted(self, key, item, before_index):
@@ -772,7 +772,7 @@ class MappedListModel(Observable.Observable):
         return selection
 
     def release_selection(self, selection):
-        self.__selections.remove(selection)
+        self.__selections = [selection_ for selection_ in self.__selections if selection_ is not selection]
 
     # thread safe.
     def __master_item_inserted(self, key, item, before_index):
@@ -864,7 +864,7 @@ class FlattenedListModel(Observable.Observable):
         return selection
 
     def release_selection(self, selection):
-        self.__selections.remove(selection)
+        self.__selections = [selection_ for selection_ in self.__selections if selection_ is not selection]
 
     # almost thread safe. assumes child items will not change duing this call.
     def __master_item_inserted(self, key, item, before_index):
-- 
2.43.0


From ad752524f554b343e93e8b6154c155fc49adbd01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:39:48 +0000
Subject: [PATCH 41/53] fix: attribute and tuple bindings use fallback for
 None, in agreement with get_target_value

---
 nion/utils/Binding.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nion/utils/Binding.py b/nion/utils/Binding.py
index bb96fe5..a270449 100644
--- a/nion/utils/Binding.py
+++ b/nion/utils/Binding.py
@@ -282,7 +282,7 @@ class PropertyAttributeBinding(Binding):
             if property_name_ == self.__property_name:
                 # perform on the main thread
                 value = getattr(source, property_name)
-                if value is not None and hasattr(value, self.__attribute_name):
+                if value is not None and getattr(value, self.__attribute_name, None) is not None:
                     self.update_target(getattr(value, self.__attribute_name))
                 else:
                     self.update_target_direct(self.fallback)
@@ -338,7 +338,7 @@ class TuplePropertyBinding(Binding):
             if property_name_ == self.__property_name:
                 # perform on the main thread
                 value = getattr(source, property_name)
-                if value is not None and self.__tuple_index < len(value):
+                if value is not None and self.__tuple_index < len(value) and value[self.__tuple_index] is not None:
                     self.update_target(value[self.__tuple_index])
                 else:
                     self.update_target_direct(self.fallback)
-- 
2.43.0


From ae01af3f14b4a8405763b54bfee49e01a823f0b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:59 +0000
Subject: [PATCH 42/53] fix: sequence of structured model array field notifies
 actual indexes for negative indexes, pop and clear

---
 nion/utils/StructuredModel.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/nion/utils/StructuredModel.py b/nion/utils/StructuredModel.py
index 029f097..b83a051 100644
--- a/nion/utils/StructuredModel.py
+++ b/nion/utils/StructuredModel.py
@@ -223,13 +223,19 @@ class ItemsSequence(collections.abc.MutableSequence):
         raise IndexError()
 
     def __delitem__(self, key):
-        self.__list_model.remove_item(key)
+        # use actual indexes so that listeners get valid ones, also for pop and clear.
+        if isinstance(key, slice):
+            for index in sorted(range(len(self))[key], reverse=True):
+                self.__list_model.remove_item(index)
+        else:
+            self.__list_model.remove_item(range(len(self))[key])
 
     def __contains__(self, item):
         return item in self.__list_model.items
 
     def insert(self, index, value):
-        self.__list_model.insert_item(index, value)
+        # use actual indexes so that listeners get valid ones.
+        self.__list_model.insert_item(slice(index, None).indices(len(self))[0], value)
 
 
 class ArrayModel(ListModelModule.ListModel):
-- 
2.43.0


From 70eb42b0772cbb7e1c77a1b7293a18ed5318d09d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:30 +0000
Subject: [PATCH 43/53] fix: waiting trigger returns when dispatcher gets
 closed before it starts waiting

---
 nion/utils/ThreadPool.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nion/utils/ThreadPool.py b/nion/utils/ThreadPool.py
index 91a613a..11ada61 100644
--- a/nion/utils/ThreadPool.py
+++ b/nion/utils/ThreadPool.py
@@ -49,6 +49,8 @@ class ThreadDispatcher(object):
     def trigger(self, wait=False):
         if wait:
             with self.__thread_lock:
+                if self.__thread_break:  # closing or closed; there won't be another invocation
+                    return
                 self.__triggered_event.clear()
                 self.__thread_event.set()
             self.__triggered_event.wait()
-- 
2.43.0


From 879f9c0e37af7e6023eceed84150fe40996e3996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:12:04 +0000
Subject: [PATCH 44/53] fix: waiting trigger waits for an invocation which
 starts after the trigger

---
 nion/utils/ThreadPool.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/nion/utils/ThreadPool.py b/nion/utils/ThreadPool.py
index 11ada61..bd13947 100644
--- a/nion/utils/ThreadPool.py
+++ b/nion/utils/ThreadPool.py
@@ -27,7 +27,7 @@ class ThreadDispatcher(object):
         self.__fn = fn
         self.__thread_break = False
         self.__thread_event = threading.Event()
-        self.__triggered_event = threading.Event()
+        self.__triggered_events = list()  # set when the invocation following the waiting trigger finishes
         self.__thread_lock = threading.Lock()
         self.__thread = threading.Thread(target=self.__process)
         self.__thread.daemon = True
@@ -42,7 +42,8 @@ class ThreadDispatcher(object):
             self.__thread_break = True
             self.__thread_event.set()
         self.__thread.join()
-        self.__triggered_event.set()  # release anything waiting for a trigger
+        for triggered_event in self.__triggered_events:  # release anything waiting for a trigger
+            triggered_event.set()
         self.__thread = None
         self.__fn = None
 
@@ -51,9 +52,10 @@ class ThreadDispatcher(object):
             with self.__thread_lock:
                 if self.__thread_break:  # closing or closed; there won't be another invocation
                     return
-                self.__triggered_event.clear()
+                triggered_event = threading.Event()
+                self.__triggered_events.append(triggered_event)
                 self.__thread_event.set()
-            self.__triggered_event.wait()
+            triggered_event.wait()
         else:
             self.__thread_event.set()
 
@@ -77,6 +79,9 @@ class ThreadDispatcher(object):
                 self.__thread_event.set()
             if self.__thread_break:
                 break
+            with self.__thread_lock:
+                triggered_events = self.__triggered_events
+                self.__triggered_events = list()
             try:
                 self.__fn()
             except Exception as e:
@@ -85,7 +90,8 @@ class ThreadDispatcher(object):
                 traceback.print_exc()
                 traceback.print_stack()
             finally:
-                self.__triggered_event.set()
+                for triggered_event in triggered_events:
+                    triggered_event.set()
             self.__last_time = time.time()
 
 
-- 
2.43.0


From 47731ece425050a2bd2b9ecf12aa7c843a8a7552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:55 +0000
Subject: [PATCH 45/53] fix: firing event does not skip a listener if another
 one gets garbage collected meanwhile

---
 nion/utils/Event.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/nion/utils/Event.py b/nion/utils/Event.py
index 8eb24c4..99f00ef 100644
--- a/nion/utils/Event.py
+++ b/nion/utils/Event.py
@@ -66,7 +66,7 @@ class Event:
 
     @property
     def listeners(self):
-        return [w() for w in self.__weak_listeners]
+        return [w() for w in list(self.__weak_listeners)]
 
     def listen(self, listener_fn, *, owner=None, trace=False):
         """Add a listener function and return listener token. Token can be closed or deleted to unlisten."""
@@ -110,7 +110,7 @@ class Event:
         if self.__weak_listeners:
             try:
                 with self.__weak_listeners_mutex:
-                    listeners = [weak_listener() for weak_listener in self.__weak_listeners]
+                    listeners = [weak_listener() for weak_listener in list(self.__weak_listeners)]
                 for listener in listeners:
                     if listener:
                         listener.call(*args, **keywords)
@@ -123,7 +123,7 @@ class Event:
         if self.__weak_listeners:
             try:
                 with self.__weak_listeners_mutex:
-                    listeners = [weak_listener() for weak_listener in self.__weak_listeners]
+                    listeners = [weak_listener() for weak_listener in list(self.__weak_listeners)]
                 for listener in listeners:
                     if listener:
                         if listener.call(*args, **keywords):
@@ -140,7 +140,7 @@ class Event:
         if self.__weak_listeners:
             try:
                 with self.__weak_listeners_mutex:
-                    listeners = [weak_listener() for weak_listener in self.__weak_listeners]
+                    listeners = [weak_listener() for weak_listener in list(self.__weak_listeners)]
                 for listener in listeners:
                     if listener and not listener.is_closed:
                         if not listener.call(*args, **keywords):
-- 
2.43.0


From d7cf1a356fc96d87d24dea6cff1059268947a718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:50 +0000
Subject: [PATCH 46/53] fix: listener closed on another thread while firing
 does not make fire_all return False

---
 nion/utils/Event.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/nion/utils/Event.py b/nion/utils/Event.py
index 99f00ef..d42175d 100644
--- a/nion/utils/Event.py
+++ b/nion/utils/Event.py
@@ -16,6 +16,11 @@ import weakref
 # None
 
 
+def _closed_call(*args, **kwargs):
+    """The call function of closed listeners."""
+    pass
+
+
 class EventListener:
 
     def __init__(self, listener_fn, trace: bool):
@@ -36,9 +41,7 @@ class EventListener:
 
     def close(self):
         self.__listener_fn = None
-        def void(*args, **kwargs):
-            pass
-        self.call = void
+        self.call = _closed_call
 
     def __enter__(self):
         return self
@@ -142,8 +145,10 @@ class Event:
                 with self.__weak_listeners_mutex:
                     listeners = [weak_listener() for weak_listener in list(self.__weak_listeners)]
                 for listener in listeners:
-                    if listener and not listener.is_closed:
-                        if not listener.call(*args, **keywords):
+                    # get the call function once; the listener may be closed on another thread at any time.
+                    call = listener.call if listener else _closed_call
+                    if call is not _closed_call:
+                        if not call(*args, **keywords):
                             return False
                 return True
             except Exception as e:
-- 
2.43.0


From 1463db7fc32de40d19a801980353d6491d1290ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:15 +0000
Subject: [PATCH 47/53] fix: reading an attached object leaves no registration
 under its former uuid, and registers it once

---
 nion/utils/Persistence.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/nion/utils/Persistence.py b/nion/utils/Persistence.py
index b28020d..b5eb5d8 100644
--- a/nion/utils/Persistence.py
+++ b/nion/utils/Persistence.py
@@ -502,9 +502,14 @@ class PersistentObject:
         """ Read from a dict. """
         # uuid is handled specially for performance reasons
         if "uuid" in properties:
-            self.uuid = uuid.UUID(properties["uuid"])
-            if self.persistent_object_context:
-                self.persistent_object_context.register(self)
+            new_uuid = uuid.UUID(properties["uuid"])
+            if new_uuid != self.uuid:
+                # if registered already, it is registered under the old uuid.
+                if self.persistent_object_context:
+                    self.persistent_object_context.unregister(self)
+                self.uuid = new_uuid
+                if self.persistent_object_context:
+                    self.persistent_object_context.register(self)
         if "modified" in properties:
             self.__modified = datetime.datetime(*list(map(int, re.split('[^\d]', properties["modified"]))))
         # iterate the defined properties
-- 
2.43.0


From ec214f688cc39f29df46285602be73585922331f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:00 +0000
Subject: [PATCH 48/53] fix: flattened list model handles changes of child
 items on several threads one at a time

---
 nion/utils/ListModel.py | 46 +++++++++++++++++++++--------------------
 1 file changed, 24 insertions(+), 22 deletions(-)

diff --git a/nion/utils/ListModel.py b/nion/utils/ListModel.py
index 10b9cf6..43cbbdb 100644
--- a/nion/utils/ListModel.py
+++ b/nion/utils/ListModel.py
@@ -898,28 +898,30 @@ class FlattenedListModel(Observable.Observable):
 
     def __child_item_inserted(self, master_item, key, item, before_index):
         if key == self.__child_items_key:
-            master_index = 0
-            for master_item_ in self.__master_items:
-                if master_item_ == master_item:
-                    break
-                master_index += len(self.__children.get(master_item_, list()))
-            master_index += before_index
-            self.__children.setdefault(master_item, list()).insert(before_index, item)
-            self.__items.insert(master_index, item)
-            self.notify_insert_item(self.__items_key, item, master_index)
-            for selection in self.__selections:
-                selection.insert_index(master_index)
+            with self._update_mutex:
+                master_index = 0
+                for master_item_ in self.__master_items:
+                    if master_item_ == master_item:
+                        break
+                    master_index += len(self.__children.get(master_item_, list()))
+                master_index += before_index
+                self.__children.setdefault(master_item, list()).insert(before_index, item)
+                self.__items.insert(master_index, item)
+                self.notify_insert_item(self.__items_key, item, master_index)
+                for selection in self.__selections:
+                    selection.insert_index(master_index)
 
     def __child_item_removed(self, master_item, key, item, index):
         if key == self.__child_items_key:
-            master_index = 0
-            for master_item_ in self.__master_items:
-                if master_item_ == master_item:
-                    break
-                master_index += len(self.__children.get(master_item_, list()))
-            master_index += index
-            del self.__children[master_item][index]
-            del self.__items[master_index]
-            self.notify_remove_item(self.__items_key, item, master_index)
-            for selection in self.__selections:
-                selection.remove_index(master_index)
+            with self._update_mutex:
+                master_index = 0
+                for master_item_ in self.__master_items:
+                    if master_item_ == master_item:
+                        break
+                    master_index += len(self.__children.get(master_item_, list()))
+                master_index += index
+                del self.__children[master_item][index]
+                del self.__items[master_index]
+                self.notify_remove_item(self.__items_key, item, master_index)
+                for selection in self.__selections:
+                    selection.remove_index(master_index)
-- 
2.43.0


From 95dc70369e3e6443d95648d3347752bebc7ad3c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:24 +0000
Subject: [PATCH 49/53] fix: beginning a group of changes on one thread while
 another ends one does not lose count of them

---
 nion/utils/ListModel.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/nion/utils/ListModel.py b/nion/utils/ListModel.py
index 43cbbdb..26b1ed8 100644
--- a/nion/utils/ListModel.py
+++ b/nion/utils/ListModel.py
@@ -274,7 +274,8 @@ class FilteredListModel(Observable.Observable):
 
     def begin_change(self):
         """ Begin a set of changes. Balance with end_changes. """
-        self.__change_level += 1
+        with self._update_mutex:
+            self.__change_level += 1
 
     def end_change(self):
         """ End a set of changes and update items if finished. """
@@ -679,9 +680,10 @@ class MappedListModel(Observable.Observable):
 
     def begin_change(self):
         """ Begin a set of changes. Balance with end_changes. """
-        if self.__change_level == 0:
-            self.begin_changes_event.fire(self.__items_key)
-        self.__change_level += 1
+        with self._update_mutex:
+            if self.__change_level == 0:
+                self.begin_changes_event.fire(self.__items_key)
+            self.__change_level += 1
 
     def end_change(self):
         """ End a set of changes and update items if finished. """
-- 
2.43.0


From 6224e0e9129bba1b0113ef8932b6b4c0a9e112c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:10 +0000
Subject: [PATCH 50/53] fix: setting the filter while another thread inserts an
 item does not give the insertion a wrong index

---
 nion/utils/ListModel.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/nion/utils/ListModel.py b/nion/utils/ListModel.py
index 26b1ed8..9a15df8 100644
--- a/nion/utils/ListModel.py
+++ b/nion/utils/ListModel.py
@@ -341,10 +341,11 @@ class FilteredListModel(Observable.Observable):
     @filter.setter
     def filter(self, value: Filter) -> None:
         """ Set the filter function. """
-        self.__filter = value
-        self.__items_sorted = False
-        self.reset_list_event.fire(self.__items_key)
-        self.__update_items()
+        with self._update_mutex:
+            self.__filter = value
+            self.__items_sorted = False
+            self.reset_list_event.fire(self.__items_key)
+            self.__update_items()
 
     @property
     def items(self) -> typing.Sequence:
-- 
2.43.0


From 2ed3b11adc48e11a5934fd628acaf3fd56486e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:25 +0000
Subject: [PATCH 51/53] fix: a task queue task which raises is marked as done,
 so that waiting for the queue returns

---
 nion/utils/Process.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nion/utils/Process.py b/nion/utils/Process.py
index 590650c..9996527 100644
--- a/nion/utils/Process.py
+++ b/nion/utils/Process.py
@@ -26,8 +26,10 @@ class TaskQueue(queue.Queue):
             except queue.Empty:
                 pass
             else:
-                task()
-                self.task_done()
+                try:
+                    task()
+                finally:
+                    self.task_done()
             qsize -= 1
 
     def clear_tasks(self):
-- 
2.43.0


From 7449fbe6c24ca4c38fa5ce9e825d58d7e5c616af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:27 +0000
Subject: [PATCH 52/53] fix: a thread pool task canceled by its own function
 finishes only once

---
 nion/utils/ThreadPool.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nion/utils/ThreadPool.py b/nion/utils/ThreadPool.py
index bd13947..ed79ee0 100644
--- a/nion/utils/ThreadPool.py
+++ b/nion/utils/ThreadPool.py
@@ -120,14 +120,15 @@ class ThreadPoolTask(object):
         with self.__lock:
             # logging.debug("Task execute + %s", self)
             if self.__fn:
+                fn = self.__fn
+                self.__fn = None  # before calling it; the function may cancel its own task
                 try:
-                    self.__fn()
+                    fn()
                 except Exception as e:
                     import traceback
                     logging.debug("Task thread exception %s", e)
                     traceback.print_exc()
                     traceback.print_stack()
-                self.__fn = None
                 self.__finished_fn(self)
             # logging.debug("Task execute ++ %s", self)
 
-- 
2.43.0


From fce14be669f541ed1ee38a4507cd49d712067c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:05:03 +0000
Subject: [PATCH 53/53] fix: insert into an unsorted filtered list by the items
 it has, not by the items matching

Items changed without notice (before mark_changed) may match without being in the list or be in the list without matching; an
insertion meanwhile was announced at an index beyond the end of the list.
---
 nion/utils/ListModel.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/nion/utils/ListModel.py b/nion/utils/ListModel.py
index 9a15df8..0432769 100644
--- a/nion/utils/ListModel.py
+++ b/nion/utils/ListModel.py
@@ -375,12 +375,14 @@ class FilteredListModel(Observable.Observable):
                 high = mid
         return low
 
-    def __find_unsorted_index_for_item(self, item, master_items, filter):
+    def __find_unsorted_index_for_item(self, item, master_items, items):
+        # count the items in the list, not the ones matching; they may differ if items changed without notice.
+        items = set(items)
         index = 0
         for item_ in master_items:
             if item_ == item:
                 break
-            if filter.matches(item_):
+            if item_ in items:
                 index += 1
         return index
 
@@ -402,7 +404,7 @@ class FilteredListModel(Observable.Observable):
             sort_operator = operator.gt if sort_reverse else operator.lt
             before_index = self.__find_sorted_index_for_item(item, items, sort_key, sort_operator)
         else:
-            before_index = self.__find_unsorted_index_for_item(item, self._get_master_items(), self.filter)
+            before_index = self.__find_unsorted_index_for_item(item, self._get_master_items(), items)
         self.__items.insert(before_index, item)
         self.begin_changes_event.fire(self.__items_key)
         self.notify_insert_item(self.__items_key, item, before_index)
-- 
2.43.0

