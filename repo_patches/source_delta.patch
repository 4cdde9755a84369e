From 6179bc7e31e08c7114a4f1be0a4c090146556868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:44 +0000
Subject: [PATCH 1/9] fix: do not deallocate a null segment when an empty
 sequence is purged

---
 include/boost/segmented_tree/seq.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/boost/segmented_tree/seq.hpp b/include/boost/segmented_tree/seq.hpp
index 06ea217..addab84 100644
--- a/include/boost/segmented_tree/seq.hpp
+++ b/include/boost/segmented_tree/seq.hpp
@@ -1230,7 +1230,9 @@ class seq {
   }
 
   // purge
-  void purge() { purge_root(get_root(), get_size(), get_height()); }
+  void purge() {
+    if (get_height() != 0) purge_root(get_root(), get_size(), get_height());
+  }
 
   void purge_segment(element_pointer, size_type, std::true_type) {}
 
-- 
2.43.0


From 7355128d60d3a5fc26f02f1e825e4adced5215a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:44 +0000
Subject: [PATCH 2/9] fix: move_before_segment(count) lands count elements
 before the previous segment's last

---
 include/boost/segmented_tree/seq.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/segmented_tree/seq.hpp b/include/boost/segmented_tree/seq.hpp
index addab84..6d12463 100644
--- a/include/boost/segmented_tree/seq.hpp
+++ b/include/boost/segmented_tree/seq.hpp
@@ -695,8 +695,8 @@ struct static_traits_t {
   }
 
   static void move_before_segment_count(iterator_data& it, size_type count) {
-    it.pos -= it.entry.segment.index + 1 - count;
-    move_prev_leaf_count(it.entry, count);
+    it.pos -= it.entry.segment.index + 1 + count;
+    move_prev_leaf_count(it.entry, count + 1);
   }
 };
 }
-- 
2.43.0


From 25ef9ca1de68cd205089a0c479ca9c90a5b1f1c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:44 +0000
Subject: [PATCH 3/9] fix: insert(pos, count, value) accepts a value inside the
 sequence

---
 include/boost/segmented_tree/seq.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/segmented_tree/seq.hpp b/include/boost/segmented_tree/seq.hpp
index 6d12463..abfbc2c 100644
--- a/include/boost/segmented_tree/seq.hpp
+++ b/include/boost/segmented_tree/seq.hpp
@@ -3122,7 +3122,8 @@ class seq {
   /// \par Exception safety
   ///   Basic.
   iterator insert(const_iterator pos, size_type count, T const& value) {
-    return emplace_count(pos.it_, count, value);
+    value_type const copy = value;
+    return emplace_count(pos.it_, count, copy);
   }
 
   /// \par Effects
-- 
2.43.0


From ac2ca0f55003d9aee624ea3a82010f2d0e92c664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:44 +0000
Subject: [PATCH 4/9] fix: resize(count, value) accepts a value inside the
 sequence

---
 include/boost/segmented_tree/seq.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/segmented_tree/seq.hpp b/include/boost/segmented_tree/seq.hpp
index abfbc2c..d61007f 100644
--- a/include/boost/segmented_tree/seq.hpp
+++ b/include/boost/segmented_tree/seq.hpp
@@ -3362,7 +3362,8 @@ class seq {
   /// \par Exception safety
   ///   Basic.
   void resize(size_type count, value_type const& value) {
-    resize_count(count, value);
+    value_type const copy = value;
+    resize_count(count, copy);
   }
 
   /// \par Effects
-- 
2.43.0


From 7d21e92ce6517a7b13b5885dc7dfb4030705d34b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:44 +0000
Subject: [PATCH 5/9] fix: remove(value) accepts a value inside the sequence

---
 include/boost/segmented_tree/seq.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/segmented_tree/seq.hpp b/include/boost/segmented_tree/seq.hpp
index d61007f..2837d86 100644
--- a/include/boost/segmented_tree/seq.hpp
+++ b/include/boost/segmented_tree/seq.hpp
@@ -3573,7 +3573,8 @@ class seq {
   /// \par Exception safety
   ///   Basic.
   void remove(const T& value) {
-    erase(std::remove(begin(), end(), value), end());
+    value_type const copy = value;
+    erase(std::remove(begin(), end(), copy), end());
   }
 
   /// \par Effects
-- 
2.43.0


From 79aa4d1a122d900f80240b12c1b5804b148bc71b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:44 +0000
Subject: [PATCH 6/9] fix: resize(count) takes back the elements it appended
 when one fails

---
 include/boost/segmented_tree/seq.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/boost/segmented_tree/seq.hpp b/include/boost/segmented_tree/seq.hpp
index 2837d86..4f582b8 100644
--- a/include/boost/segmented_tree/seq.hpp
+++ b/include/boost/segmented_tree/seq.hpp
@@ -3346,7 +3346,15 @@ class seq {
   ///
   /// \par Exception safety
   ///   Strong.
-  void resize(size_type count) { resize_count(count); }
+  void resize(size_type count) {
+    auto const sz = size();
+    try {
+      resize_count(count);
+    } catch (...) {
+      if (size() > sz) erase_range(find_index(sz), find_end());
+      throw;
+    }
+  }
 
   /// \par Effects
   ///   Resizes the seqeuence to the specified size, copy constructing any
-- 
2.43.0


From 0a067b258cec6170fbc3791b636b14f441f4274f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:44 +0000
Subject: [PATCH 7/9] fix: cap base nodes at the range of their 16-bit length
 and index

---
 include/boost/segmented_tree/seq.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/segmented_tree/seq.hpp b/include/boost/segmented_tree/seq.hpp
index 4f582b8..f191ff3 100644
--- a/include/boost/segmented_tree/seq.hpp
+++ b/include/boost/segmented_tree/seq.hpp
@@ -110,7 +110,7 @@ struct static_traits_t {
   }
 
   static constexpr std::size_t base_max() {
-    return base_fit() > 3 ? base_fit() : 3;
+    return base_fit() > 3 ? (base_fit() < 65535 ? base_fit() : 65535) : 3;
   }
 
   static constexpr std::size_t segment_min() { return (segment_max() + 1) / 2; }
-- 
2.43.0


From 33c071091dd0bb0a1dddf41bce778fa03567a9a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:44 +0000
Subject: [PATCH 8/9] fix: splice of a single element moves it

---
 include/boost/segmented_tree/seq.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/segmented_tree/seq.hpp b/include/boost/segmented_tree/seq.hpp
index f191ff3..7cee873 100644
--- a/include/boost/segmented_tree/seq.hpp
+++ b/include/boost/segmented_tree/seq.hpp
@@ -3512,7 +3512,7 @@ class seq {
   /// \par Exception safety
   ///   Basic.
   void splice(const_iterator pos, seq& other, const_iterator it) {
-    insert(pos, std::move(*it));
+    insert(pos, std::move(*iterator{it.it_}));
     other.erase(it);
   }
 
-- 
2.43.0


From c341910102c8bba2ee651500f542eb160a4cd026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:50 +0000
Subject: [PATCH 9/9] fix: assign(count, value) accepts a value inside the
 sequence

---
 include/boost/segmented_tree/seq.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/boost/segmented_tree/seq.hpp b/include/boost/segmented_tree/seq.hpp
index 7cee873..4ab44eb 100644
--- a/include/boost/segmented_tree/seq.hpp
+++ b/include/boost/segmented_tree/seq.hpp
@@ -2515,7 +2515,10 @@ class seq {
   ///
   /// \par Exception safety
   ///   Basic.
-  void assign(size_type count, T const& value) { assign_count(count, value); }
+  void assign(size_type count, T const& value) {
+    value_type const copy = value;
+    assign_count(count, copy);
+  }
 
   /// \par Effects
   ///   Assigns the sequence to the elements copy constructed from the range
-- 
2.43.0

