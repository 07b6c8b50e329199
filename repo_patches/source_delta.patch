From 074ecea13b6a7b872f02faa10e83e0f68f1d1573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:52 +0000
Subject: [PATCH 01/11] fix: include the standard headers that seq.hpp uses

std::uint16_t, std::out_of_range, std::initializer_list and the iterator
helpers were only available through other headers, so including seq.hpp
first failed to compile with current standard libraries.
---
 include/boost/segmented_tree/seq.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/boost/segmented_tree/seq.hpp b/include/boost/segmented_tree/seq.hpp
index 06ea217..be6d97a 100644
--- a/include/boost/segmented_tree/seq.hpp
+++ b/include/boost/segmented_tree/seq.hpp
@@ -9,9 +9,14 @@
 
 #include <algorithm>
 #include <array>
+#include <cstddef>
+#include <cstdint>
 #include <cstring>
 #include <functional>
+#include <initializer_list>
+#include <iterator>
 #include <limits>
+#include <stdexcept>
 #include <type_traits>
 #include <utility>
 
-- 
2.43.0


From 459901b55feb4fc4de467b6a482206d66ee16396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:52 +0000
Subject: [PATCH 02/11] fix: move_before_segment(count) moves one element too
 few

The position was adjusted in the wrong direction and the element walked to
was count - 1 before the last element of the previous segment, so count == 0
gave an iterator one past the end of that segment.
---
 include/boost/segmented_tree/seq.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/segmented_tree/seq.hpp b/include/boost/segmented_tree/seq.hpp
index be6d97a..24d3374 100644
--- a/include/boost/segmented_tree/seq.hpp
+++ b/include/boost/segmented_tree/seq.hpp
@@ -700,8 +700,8 @@ struct static_traits_t {
   }
 
   static void move_before_segment_count(iterator_data& it, size_type count) {
-    it.pos -= it.entry.segment.index + 1 - count;
-    move_prev_leaf_count(it.entry, count);
+    it.pos -= it.entry.segment.index + 1 + count;
+    move_prev_leaf_count(it.entry, count + 1);
   }
 };
 }
-- 
2.43.0


From e67cf7b1ec111f8750ea6547e595f803dcc87cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:52 +0000
Subject: [PATCH 03/11] fix: let insert(pos, count, value) and resize(count,
 value) take an own element

The value was read again after the first insertion had already moved the
element it referred to.
---
 include/boost/segmented_tree/seq.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/boost/segmented_tree/seq.hpp b/include/boost/segmented_tree/seq.hpp
index 24d3374..900f339 100644
--- a/include/boost/segmented_tree/seq.hpp
+++ b/include/boost/segmented_tree/seq.hpp
@@ -3125,7 +3125,8 @@ class seq {
   /// \par Exception safety
   ///   Basic.
   iterator insert(const_iterator pos, size_type count, T const& value) {
-    return emplace_count(pos.it_, count, value);
+    value_type const copy(value);
+    return emplace_count(pos.it_, count, copy);
   }
 
   /// \par Effects
@@ -3364,7 +3365,8 @@ class seq {
   /// \par Exception safety
   ///   Basic.
   void resize(size_type count, value_type const& value) {
-    resize_count(count, value);
+    value_type const copy(value);
+    resize_count(count, copy);
   }
 
   /// \par Effects
-- 
2.43.0


From 54322b266e8170eb4b8dedb889338940b638a699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:52 +0000
Subject: [PATCH 04/11] fix: let remove(value) take an own element

std::remove overwrote the element that value referred to and compared the
remaining elements with something else.
---
 include/boost/segmented_tree/seq.hpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/include/boost/segmented_tree/seq.hpp b/include/boost/segmented_tree/seq.hpp
index 900f339..584a127 100644
--- a/include/boost/segmented_tree/seq.hpp
+++ b/include/boost/segmented_tree/seq.hpp
@@ -3576,7 +3576,21 @@ class seq {
   /// \par Exception safety
   ///   Basic.
   void remove(const T& value) {
-    erase(std::remove(begin(), end(), value), end());
+    using std::swap;
+    auto last = end();
+    auto dest = std::find(begin(), last, value);
+    auto target = std::addressof(value);
+    for (auto it = dest; it != last; ++it) {
+      if (*it == *target) continue;
+      if (std::addressof(*dest) == target) {
+        // value is an element of the sequence, keep it until the end.
+        swap(*dest, *it);
+        target = std::addressof(*it);
+      } else
+        *dest = std::move(*it);
+      ++dest;
+    }
+    erase(dest, last);
   }
 
   /// \par Effects
-- 
2.43.0


From 07429e823edf45bba91be940418621127de321f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:52 +0000
Subject: [PATCH 05/11] fix: splice of a single element moves the element

Moving from a const_iterator copied the element, and did not compile for
move-only types.
---
 include/boost/segmented_tree/seq.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/segmented_tree/seq.hpp b/include/boost/segmented_tree/seq.hpp
index 584a127..051a2b3 100644
--- a/include/boost/segmented_tree/seq.hpp
+++ b/include/boost/segmented_tree/seq.hpp
@@ -3507,7 +3507,7 @@ class seq {
   /// \par Exception safety
   ///   Basic.
   void splice(const_iterator pos, seq& other, const_iterator it) {
-    insert(pos, std::move(*it));
+    insert(pos, std::move(*iterator{it.it_}));
     other.erase(it);
   }
 
-- 
2.43.0


From e64943801e5fd08581d63a1f81abff24847ef29c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:52 +0000
Subject: [PATCH 06/11] fix: do not deallocate the null root of an empty
 sequence

Destroying, clearing or assigning to an empty sequence passed a pointer to
the allocator that the allocator had never returned.
---
 include/boost/segmented_tree/seq.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/boost/segmented_tree/seq.hpp b/include/boost/segmented_tree/seq.hpp
index 051a2b3..e5b2a5c 100644
--- a/include/boost/segmented_tree/seq.hpp
+++ b/include/boost/segmented_tree/seq.hpp
@@ -1268,6 +1268,7 @@ class seq {
   }
 
   void purge_root(void_pointer pointer, size_type sz, size_type ht) {
+    if (ht == 0) return;
     if (ht < 2)
       purge_segment(static_traits::cast_segment(pointer), sz);
     else
-- 
2.43.0


From a95bd4706675d5679d4a1fb885794a0975774200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:52 +0000
Subject: [PATCH 07/11] fix: resize(count) gives the documented strong
 guarantee

The elements appended before an exception stayed in the sequence.
---
 include/boost/segmented_tree/seq.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/boost/segmented_tree/seq.hpp b/include/boost/segmented_tree/seq.hpp
index e5b2a5c..cf35f82 100644
--- a/include/boost/segmented_tree/seq.hpp
+++ b/include/boost/segmented_tree/seq.hpp
@@ -2226,8 +2226,14 @@ class seq {
     auto last = find_end();
     if (count < sz)
       erase_range(find_index(count), last);
-    else
-      emplace_count(last, count - sz, std::forward<Args>(args)...);
+    else {
+      try {
+        emplace_count(last, count - sz, std::forward<Args>(args)...);
+      } catch (...) {
+        if (size() != sz) erase_range(find_index(sz), find_end());
+        throw;
+      }
+    }
   }
 
   void copy_assign_alloc(seq const& other) {
-- 
2.43.0


From 19a2e31986b245ee4f0370e84ee8ecb514b605c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:52 +0000
Subject: [PATCH 08/11] fix: delegate to the allocator constructor with
 parentheses

With braces the initializer_list constructor was chosen for element types
that can be constructed from anything, and delegated to itself.
---
 include/boost/segmented_tree/seq.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/boost/segmented_tree/seq.hpp b/include/boost/segmented_tree/seq.hpp
index cf35f82..c75a867 100644
--- a/include/boost/segmented_tree/seq.hpp
+++ b/include/boost/segmented_tree/seq.hpp
@@ -2343,7 +2343,7 @@ class seq {
   /// \par Complexity
   ///   NlogN, where N is count.
   seq(size_type count, T const& value, Allocator const& alloc = Allocator())
-      : seq{alloc} {
+      : seq(alloc) {
     emplace_count(find_end(), count, value);
   }
 
@@ -2354,7 +2354,7 @@ class seq {
   /// \par Complexity
   ///   NlogN, where N is count.
   explicit seq(size_type count, Allocator const& alloc = Allocator())
-      : seq{alloc} {
+      : seq(alloc) {
     emplace_count(find_end(), count);
   }
 
@@ -2367,7 +2367,7 @@ class seq {
   template <class InputIt,
             typename = typename std::iterator_traits<InputIt>::pointer>
   seq(InputIt first, InputIt last, Allocator const& alloc = Allocator())
-      : seq{alloc} {
+      : seq(alloc) {
     emplace_range(find_end(), first, last);
   }
 
@@ -2377,8 +2377,8 @@ class seq {
   /// \par Complexity
   ///   NlogN, where N is other.size().
   seq(seq const& other)
-      : seq{element_traits::select_on_container_copy_construction(
-            other.get_element_allocator())} {
+      : seq(element_traits::select_on_container_copy_construction(
+            other.get_element_allocator())) {
     emplace_range(find_end(), other.begin(), other.end());
   }
 
@@ -2387,7 +2387,7 @@ class seq {
   ///
   /// \par Complexity
   ///   NlogN, where N is other.size().
-  seq(seq const& other, Allocator const& alloc) : seq{alloc} {
+  seq(seq const& other, Allocator const& alloc) : seq(alloc) {
     emplace_range(find_end(), other.begin(), other.end());
   }
 
@@ -2412,7 +2412,7 @@ class seq {
   /// \par Complexity
   ///   Constant if alloc compares equal to other's allocator. NlogN, where N is
   ///   other.size() otherwise.
-  seq(seq&& other, Allocator const& alloc) : seq{alloc} {
+  seq(seq&& other, Allocator const& alloc) : seq(alloc) {
     if (get_element_allocator() == other.get_element_allocator())
       steal(other);
     else
@@ -2427,7 +2427,7 @@ class seq {
   /// \par Complexity
   ///   NlogN, where N is init.size().
   seq(std::initializer_list<T> init, Allocator const& alloc = Allocator())
-      : seq{alloc} {
+      : seq(alloc) {
     emplace_range(find_end(), init.begin(), init.end());
   }
 
-- 
2.43.0


From 00201387381b1c44710595740b16595932e4fa82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:52 +0000
Subject: [PATCH 09/11] fix: limit the length of index nodes to what 16 bits
 can count

A base_target above 1 MiB gave nodes longer than parent_index_ and length_
can hold.
---
 include/boost/segmented_tree/seq.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/boost/segmented_tree/seq.hpp b/include/boost/segmented_tree/seq.hpp
index c75a867..4607d2a 100644
--- a/include/boost/segmented_tree/seq.hpp
+++ b/include/boost/segmented_tree/seq.hpp
@@ -114,8 +114,13 @@ struct static_traits_t {
     return segment_fit() > 1 ? segment_fit() : 1;
   }
 
+  static constexpr std::size_t base_limit() {
+    return (std::numeric_limits<std::uint16_t>::max)();
+  }
+
   static constexpr std::size_t base_max() {
-    return base_fit() > 3 ? base_fit() : 3;
+    return base_fit() > base_limit() ? base_limit()
+                                     : base_fit() > 3 ? base_fit() : 3;
   }
 
   static constexpr std::size_t segment_min() { return (segment_max() + 1) / 2; }
-- 
2.43.0


From 0650892f230ed057f30fbaa0ec72ccf719bd0c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:52 +0000
Subject: [PATCH 10/11] fix: an empty sequence stays empty when the first
 element throws

The sequence already counted the element when its construction threw.
---
 include/boost/segmented_tree/seq.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/boost/segmented_tree/seq.hpp b/include/boost/segmented_tree/seq.hpp
index 4607d2a..7503b74 100644
--- a/include/boost/segmented_tree/seq.hpp
+++ b/include/boost/segmented_tree/seq.hpp
@@ -1633,10 +1633,15 @@ class seq {
 
     if (pointer == nullptr) {
       auto alloc = allocate_segment();
+      try {
+        construct_segment(alloc, 0, std::move(value));
+      } catch (...) {
+        deallocate_segment(alloc);
+        throw;
+      }
       get_root() = alloc;
       get_size() = 1;
       get_height() = 1;
-      construct_segment(alloc, 0, std::move(value));
       entry.segment.pointer = alloc;
       entry.segment.length = 1;
       return;
-- 
2.43.0


From fd7016327d04ad64f44038a262877993d9bd6106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:02 +0000
Subject: [PATCH 11/11] fix: accept allocators that cannot be swapped

---
 include/boost/segmented_tree/seq.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/boost/segmented_tree/seq.hpp b/include/boost/segmented_tree/seq.hpp
index 7503b74..03b5d2c 100644
--- a/include/boost/segmented_tree/seq.hpp
+++ b/include/boost/segmented_tree/seq.hpp
@@ -34,8 +34,14 @@ using std::swap;
 
 template <typename T>
 struct test {
-  static bool const value =
-      noexcept(swap(std::declval<T&>(), std::declval<T&>()));
+  template <typename U>
+  static auto check(int)
+      -> std::integral_constant<bool, noexcept(swap(std::declval<U&>(),
+                                                    std::declval<U&>()))>;
+  template <typename>
+  static std::false_type check(...);
+
+  static bool const value = decltype(check<T>(0))::value;
 };
 }
 
-- 
2.43.0

