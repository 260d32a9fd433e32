From 39c68361c99ce8c50f3a0ebc8459c7b1be566fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:49 +0000
Subject: [PATCH 1/8] fix: Lock::Get of a missing global component through a
 const type no longer creates it

---
 inc/Tecs_lock.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/Tecs_lock.hh b/inc/Tecs_lock.hh
index 71a0ee0..d2d31f6 100644
--- a/inc/Tecs_lock.hh
+++ b/inc/Tecs_lock.hh
@@ -209,7 +209,7 @@ namespace Tecs {
 #endif
 
             auto &storage = instance.template Storage<CompType>();
-            if constexpr (is_add_remove_allowed<LockType>()) {
+            if constexpr (is_add_remove_allowed<LockType>() && !std::is_const<ReturnType>()) {
 #ifdef TECS_UNCHECKED_MODE
                 auto &metadata = permissions[0] ? instance.globalWriteMetadata : instance.globalReadMetadata;
 #endif
-- 
2.43.0


From de33bc8d381dd67e3c937dd542e4ebfca2b0d925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:49 +0000
Subject: [PATCH 2/8] fix: EntityView::rend() includes the first element in
 reverse iteration

---
 inc/Tecs_entity_view.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/Tecs_entity_view.hh b/inc/Tecs_entity_view.hh
index 5c393f5..2ce6cfa 100644
--- a/inc/Tecs_entity_view.hh
+++ b/inc/Tecs_entity_view.hh
@@ -138,7 +138,7 @@ namespace Tecs {
         }
 
         inline reverse_iterator rend() const noexcept {
-            return reverse_iterator(iterator{*this, start_index + 1});
+            return reverse_iterator(iterator{*this, start_index});
         }
 
         inline reference operator[](size_type index) const {
-- 
2.43.0


From f0261b6831fe3302797dada9e9156798393d7bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:49 +0000
Subject: [PATCH 3/8] fix: EntityView::operator[] indexes relative to the start
 of the view

---
 inc/Tecs_entity_view.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inc/Tecs_entity_view.hh b/inc/Tecs_entity_view.hh
index 2ce6cfa..97f5e2a 100644
--- a/inc/Tecs_entity_view.hh
+++ b/inc/Tecs_entity_view.hh
@@ -143,11 +143,11 @@ namespace Tecs {
 
         inline reference operator[](size_type index) const {
 #ifndef TECS_UNCHECKED_MODE
-            if (index < start_index || index >= end_index) {
+            if (index >= size()) {
                 throw std::runtime_error("EntityView index out of range: " + std::to_string(index));
             }
 #endif
-            return (*storage)[index];
+            return (*storage)[start_index + index];
         }
 
         inline size_type size() const noexcept {
-- 
2.43.0


From 9b40fdc4396bb97ee2b973c5e0032d75926a1330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:49 +0000
Subject: [PATCH 4/8] fix: EntityView::subview range arithmetic no longer
 overflows

---
 inc/Tecs_entity_view.hh | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/inc/Tecs_entity_view.hh b/inc/Tecs_entity_view.hh
index 97f5e2a..8c11bc3 100644
--- a/inc/Tecs_entity_view.hh
+++ b/inc/Tecs_entity_view.hh
@@ -161,8 +161,12 @@ namespace Tecs {
         inline EntityView subview(size_type offset, size_type count = std::numeric_limits<size_type>::max()) const {
 #ifndef TECS_UNCHECKED_MODE
             if (storage == nullptr) throw std::runtime_error("EntityView::subview storage is null");
+            if (offset > size()) {
+                throw std::runtime_error("EntityView::subview offset out of range: " + std::to_string(offset));
+            }
 #endif
-            return EntityView(*storage, start_index + offset, std::min(end_index, start_index + offset + count));
+            size_type start = start_index + offset;
+            return EntityView(*storage, start, start + std::min(count, end_index - start));
         }
 
     private:
-- 
2.43.0


From 0eb55c2acf71cab6bee68c43ed160fdbde79bd2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:49 +0000
Subject: [PATCH 5/8] fix: nested lock types keep their AddRemove permission

---
 inc/Tecs_permissions.hh | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/inc/Tecs_permissions.hh b/inc/Tecs_permissions.hh
index decc83d..93f2133 100644
--- a/inc/Tecs_permissions.hh
+++ b/inc/Tecs_permissions.hh
@@ -131,13 +131,13 @@ namespace Tecs {
     struct is_write_allowed<T, const DynamicLock<ECSType, Permissions...>> : std::disjunction<is_write_allowed<T, Permissions>...> {};
 
     template<typename ECSType, typename... Permissions>
-    struct is_add_remove_allowed<Lock<ECSType, Permissions...>> : contains<AddRemove, Permissions...> {};
+    struct is_add_remove_allowed<Lock<ECSType, Permissions...>> : std::disjunction<is_add_remove_allowed<Permissions>...> {};
     template<typename ECSType, typename... Permissions>
-    struct is_add_remove_allowed<const Lock<ECSType, Permissions...>> : contains<AddRemove, Permissions...> {};
+    struct is_add_remove_allowed<const Lock<ECSType, Permissions...>> : std::disjunction<is_add_remove_allowed<Permissions>...> {};
     template<typename ECSType, typename... Permissions>
-    struct is_add_remove_allowed<DynamicLock<ECSType, Permissions...>> : contains<AddRemove, Permissions...> {};
+    struct is_add_remove_allowed<DynamicLock<ECSType, Permissions...>> : std::disjunction<is_add_remove_allowed<Permissions>...> {};
     template<typename ECSType, typename... Permissions>
-    struct is_add_remove_allowed<const DynamicLock<ECSType, Permissions...>> : contains<AddRemove, Permissions...> {};
+    struct is_add_remove_allowed<const DynamicLock<ECSType, Permissions...>> : std::disjunction<is_add_remove_allowed<Permissions>...> {};
     // clang-format on
 
     // Check SubLock <= Lock for component type T
-- 
2.43.0


From 8e91be1c1eca48cffc47d9f47b8208685957c1d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:44 +0000
Subject: [PATCH 6/8] fix: AddRemove commits publish component entity lists
 before releasing metadata readers

EntitiesWith<T>() needs no permission for T, but its list was swapped after
the metadata commit lock had been released, racing with transactions that
started in between.
---
 inc/Tecs_transaction.hh | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/inc/Tecs_transaction.hh b/inc/Tecs_transaction.hh
index b96fb2f..b9afae0 100644
--- a/inc/Tecs_transaction.hh
+++ b/inc/Tecs_transaction.hh
@@ -247,7 +247,6 @@ namespace Tecs {
                         this->instance.metadata.readComponents.swap(this->instance.metadata.writeComponents);
                         this->instance.metadata.readValidEntities.swap(this->instance.metadata.writeValidEntities);
                         this->instance.globalReadMetadata = this->instance.globalWriteMetadata;
-                        this->instance.metadata.CommitUnlock();
                     }
                 }
                 ( // For each AllComponentTypes
@@ -267,6 +266,10 @@ namespace Tecs {
                         }
                     }(),
                     ...);
+                if constexpr (is_add_remove_allowed<LockType>()) {
+                    // Component entity lists can be read without a lock on the component, so metadata is released last.
+                    if (this->writeAccessedFlags[0]) this->instance.metadata.CommitUnlock();
+                }
             }
 
             ( // For each AllComponentTypes, reset the write storage to match read.
-- 
2.43.0


From a0217d3975b2818612e037138ddf527c3b0a4046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:42 +0000
Subject: [PATCH 7/8] fix: trace event counter no longer wraps after 2^32
 events

---
 inc/Tecs_tracing.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/Tecs_tracing.hh b/inc/Tecs_tracing.hh
index b9cd2f5..300850a 100644
--- a/inc/Tecs_tracing.hh
+++ b/inc/Tecs_tracing.hh
@@ -170,7 +170,7 @@ namespace Tecs {
 
     private:
         std::atomic_bool traceEnabled;
-        std::atomic_uint32_t nextEventIndex;
+        std::atomic_size_t nextEventIndex;
         std::vector<TraceEvent> events;
     };
 } // namespace Tecs
-- 
2.43.0


From 57a912eddcb72d88c1ddc297fe71a53165566f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:00 +0000
Subject: [PATCH 8/8] fix: Unset of several components through an element of a
 component's listing removed the later ones from entity 0

---
 inc/Tecs_entity.hh | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/inc/Tecs_entity.hh b/inc/Tecs_entity.hh
index e8dfd80..27b2226 100644
--- a/inc/Tecs_entity.hh
+++ b/inc/Tecs_entity.hh
@@ -292,7 +292,10 @@ namespace Tecs {
             }
 #endif
 
-            (lock.template RemoveComponents<Tn>(index), ...);
+            // It is possible for *this to be a reference to a component's writeValidEntities list
+            // Copy the index so all components are removed from the same entity.
+            size_t copy = index;
+            (lock.template RemoveComponents<Tn>(copy), ...);
         }
 
         template<typename LockType>
-- 
2.43.0

