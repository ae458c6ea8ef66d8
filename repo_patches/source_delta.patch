From dd20d04a3306e690bdb4c93277937ae890851616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:45 +0000
Subject: [PATCH 1/5] fix: copy assignment of a handle takes the new reference
 before releasing the old one

Self-assignment of the only handle on an object, or assignment from a handle stored inside
the object being released, used to delete the object and then reference it.
---
 sdd/mem/ptr.hh | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/sdd/mem/ptr.hh b/sdd/mem/ptr.hh
index 9594e20..64a54a1 100644
--- a/sdd/mem/ptr.hh
+++ b/sdd/mem/ptr.hh
@@ -97,16 +97,19 @@ public:
   noexcept
   {
     assert(other.x_ != nullptr); // Don't copy from an already moved ptr.
-    if (x_ != nullptr)
+    // The new reference must be taken before the old one is released: other might be *this, or it
+    // might live in the object released by this assignment.
+    Unique* const old = x_;
+    x_ = other.x_;
+    x_->increment_reference_counter();
+    if (old != nullptr)
     {
-      x_->decrement_reference_counter();
-      if (x_->is_not_referenced())
+      old->decrement_reference_counter();
+      if (old->is_not_referenced())
       {
-        deletion_handler<Unique>()(x_);
+        deletion_handler<Unique>()(old);
       }
     }
-    x_ = other.x_;
-    x_->increment_reference_counter();
     return *this;
   }
 
-- 
2.43.0


From 31722911c28dc808bf5d440ae196e8d99ff5cd7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:00 +0000
Subject: [PATCH 2/5] fix: clearing an operation cache also forgets its LRU
 list

The list kept pointers to disposed entries: after a reset, evictions removed the most recently
used entries first and the list grew at each reset.
---
 sdd/mem/cache.hh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sdd/mem/cache.hh b/sdd/mem/cache.hh
index e37a761..74aad60 100644
--- a/sdd/mem/cache.hh
+++ b/sdd/mem/cache.hh
@@ -270,6 +270,7 @@ public:
                                 x->~cache_entry_type();
                                 pool_.deallocate(x);
                               });
+    lru_list_.clear();
   }
 
   /// @brief Get the number of cached operations.
-- 
2.43.0


From bbe0078e60021bdf29b1a245e1b3ee0ecf721613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:59 +0000
Subject: [PATCH 3/5] fix: a cached application is only reused at the level of
 the order it was computed at

---
 sdd/hom/evaluation.hh | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/sdd/hom/evaluation.hh b/sdd/hom/evaluation.hh
index 39a6196..090a4cb 100644
--- a/sdd/hom/evaluation.hh
+++ b/sdd/hom/evaluation.hh
@@ -117,7 +117,22 @@ struct cached_homomorphism
   operator==(const cached_homomorphism& lhs, const cached_homomorphism& rhs)
   noexcept
   {
-    return lhs.hom == rhs.hom and lhs.sdd == rhs.sdd;
+    return lhs.hom == rhs.hom and lhs.sdd == rhs.sdd and same_level(lhs.ord, rhs.ord);
+  }
+
+private:
+
+  /// @brief Tell if two orders designate the same level of the same order.
+  static
+  bool
+  same_level(const order<C>& lhs, const order<C>& rhs)
+  noexcept
+  {
+    if (lhs.empty() or rhs.empty())
+    {
+      return lhs.empty() and rhs.empty();
+    }
+    return &lhs.nodes() == &rhs.nodes() and lhs.position() == rhs.position();
   }
 };
 
-- 
2.43.0


From c1814ea9a3977a9ff38b2e4ab7d63f778349a383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:19 +0000
Subject: [PATCH 4/5] fix: equal orders hash equally

---
 sdd/order/order.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sdd/order/order.hh b/sdd/order/order.hh
index 819fd1f..954a15d 100644
--- a/sdd/order/order.hh
+++ b/sdd/order/order.hh
@@ -364,8 +364,9 @@ struct hash<sdd::order<C>>
   operator()(const sdd::order<C>& o)
   const noexcept
   {
+    // Equal orders may live in different places: only what operator== compares can be hashed.
     using namespace sdd::hash;
-    return seed(o.nodes_ptr_.get()) (val(o.head_));
+    return o.empty() ? 0 : std::size_t(seed(o.position()) (val(o.identifier())));
   }
 };
 
-- 
2.43.0


From 23f1b5950e7869223afd8313bde5ee4421b58fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:18:39 +0000
Subject: [PATCH 5/5] fix: refuse a second manager over the same values

init() looked at the internal manager of the values type, which is never set, instead of the values manager:
a second configuration with the same values replaced the state that live values still use.
---
 sdd/manager.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdd/manager.hh b/sdd/manager.hh
index 2fe1bc8..92b6553 100644
--- a/sdd/manager.hh
+++ b/sdd/manager.hh
@@ -36,7 +36,7 @@ manager<C>
 init(const C& configuration = C{})
 {
   using values_type = typename C::Values;
-  if (*global_ptr<C>() == nullptr and *global_ptr<values_type>() == nullptr)
+  if (*global_ptr<C>() == nullptr and *global_values_ptr<values_type>() == nullptr)
   {
     auto vm_ptr = std::make_unique<values_manager<values_type>>(configuration);
     *global_values_ptr<values_type>() = vm_ptr.get();
-- 
2.43.0

