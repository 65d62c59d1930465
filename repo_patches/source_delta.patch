From 6c4f446925e701ca8bd0b72ebbdb972376becb25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:10 +0000
Subject: [PATCH 01/18] fix: devector deallocates its storage from the
 beginning of storage when it is reset

---
 include/sfl/devector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sfl/devector.hpp b/include/sfl/devector.hpp
index 9c33ae8..eb279db 100644
--- a/include/sfl/devector.hpp
+++ b/include/sfl/devector.hpp
@@ -1394,7 +1394,7 @@ private:
         sfl::dtl::deallocate
         (
             data_.ref_to_alloc(),
-            data_.first_,
+            data_.bos_,
             std::distance(data_.bos_, data_.eos_)
         );
 
-- 
2.43.0


From 0d362398b57a691c1f2c2c309998a7b0a8240e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:05 +0000
Subject: [PATCH 02/18] fix: devector resize functions accept a value that is
 an element of the container

---
 include/sfl/devector.hpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/include/sfl/devector.hpp b/include/sfl/devector.hpp
index eb279db..cad06b8 100644
--- a/include/sfl/devector.hpp
+++ b/include/sfl/devector.hpp
@@ -1014,6 +1014,9 @@ public:
                 }
                 else
                 {
+                    // Growing destroys old elements. "value" can be one of them.
+                    const value_type tmp(value);
+
                     grow_storage_back(n - (available_front + size + available_back));
 
                     data_.last_ = sfl::dtl::uninitialized_fill_n_a
@@ -1021,7 +1024,7 @@ public:
                         data_.ref_to_alloc(),
                         data_.last_,
                         n - (size + available_front),
-                        value
+                        tmp
                     );
 
                     sfl::dtl::uninitialized_fill_a
@@ -1029,7 +1032,7 @@ public:
                         data_.ref_to_alloc(),
                         data_.bos_,
                         data_.first_,
-                        value
+                        tmp
                     );
 
                     data_.first_ = data_.bos_;
@@ -1098,6 +1101,9 @@ public:
         {
             const size_type available_front = this->available_front();
 
+            // Growing destroys old elements. "value" can be one of them.
+            const value_type tmp(value);
+
             if (n > size + available_front)
             {
                 grow_storage_front(n - (size + available_front));
@@ -1110,7 +1116,7 @@ public:
                 data_.ref_to_alloc(),
                 new_first,
                 data_.first_,
-                value
+                tmp
             );
 
             data_.first_ = new_first;
@@ -1173,6 +1179,9 @@ public:
         {
             const size_type available_back = this->available_back();
 
+            // Growing destroys old elements. "value" can be one of them.
+            const value_type tmp(value);
+
             if (n > size + available_back)
             {
                 grow_storage_back(n - (size + available_back));
@@ -1183,7 +1192,7 @@ public:
                 data_.ref_to_alloc(),
                 data_.last_,
                 n - size,
-                value
+                tmp
             );
         }
     }
-- 
2.43.0


From 61d2cb5a4ca5e7b468896642d7c22e88fe8a61d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:05 +0000
Subject: [PATCH 03/18] fix: devector inserts n copies of a value that is an
 element of the container

---
 include/sfl/devector.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/sfl/devector.hpp b/include/sfl/devector.hpp
index cad06b8..9552875 100644
--- a/include/sfl/devector.hpp
+++ b/include/sfl/devector.hpp
@@ -4058,7 +4058,15 @@ private:
 
     iterator insert_fill_n(const_iterator pos, size_type n, const T& value)
     {
-        insert_fill_n_proxy proxy(value);
+        if (n == 0)
+        {
+            return begin() + std::distance(cbegin(), pos);
+        }
+
+        // Insertion shifts elements. "value" can be one of them.
+        const value_type tmp(value);
+
+        insert_fill_n_proxy proxy(tmp);
         return insert_aux(pos, n, proxy);
     }
 
-- 
2.43.0


From 53ce6feacf4c6d7867a62fcc9194ed35cc251ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:05 +0000
Subject: [PATCH 04/18] fix: compact_vector resize accepts a value that is an
 element of the container

---
 include/sfl/compact_vector.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/sfl/compact_vector.hpp b/include/sfl/compact_vector.hpp
index a1dadd1..213552f 100644
--- a/include/sfl/compact_vector.hpp
+++ b/include/sfl/compact_vector.hpp
@@ -842,6 +842,9 @@ public:
         {
             if (n > size())
             {
+                // Elements are moved. "value" can be one of them.
+                const value_type tmp(value);
+
                 new_last = sfl::dtl::uninitialized_move_if_noexcept_a
                 (
                     data_.ref_to_alloc(),
@@ -855,7 +858,7 @@ public:
                     data_.ref_to_alloc(),
                     new_last,
                     n - size(),
-                    value
+                    tmp
                 );
             }
             else if (n < size())
-- 
2.43.0


From 4cc174350697eeb99b83781504f450a5d378011b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:05 +0000
Subject: [PATCH 05/18] fix: segmented containers do not swap propagating
 allocators twice

---
 include/sfl/segmented_devector.hpp | 8 +++++++-
 include/sfl/segmented_vector.hpp   | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/sfl/segmented_devector.hpp b/include/sfl/segmented_devector.hpp
index 45cd92e..dccd211 100644
--- a/include/sfl/segmented_devector.hpp
+++ b/include/sfl/segmented_devector.hpp
@@ -1173,7 +1173,13 @@ public:
             swap(this->data_.ref_to_alloc(), other.data_.ref_to_alloc());
         }
 
-        swap(this->data_, other.data_);
+        // Allocators are already swapped if they propagate. If they do not
+        // propagate, they compare equal. Swap only storage here.
+        swap
+        (
+            static_cast<data_base&>(this->data_),
+            static_cast<data_base&>(other.data_)
+        );
     }
 
 private:
diff --git a/include/sfl/segmented_vector.hpp b/include/sfl/segmented_vector.hpp
index d5c9e50..4232938 100644
--- a/include/sfl/segmented_vector.hpp
+++ b/include/sfl/segmented_vector.hpp
@@ -805,7 +805,13 @@ public:
             swap(this->data_.ref_to_alloc(), other.data_.ref_to_alloc());
         }
 
-        swap(this->data_, other.data_);
+        // Allocators are already swapped if they propagate. If they do not
+        // propagate, they compare equal. Swap only storage here.
+        swap
+        (
+            static_cast<data_base&>(this->data_),
+            static_cast<data_base&>(other.data_)
+        );
     }
 
 private:
-- 
2.43.0


From fa402028e90e565a30ec62fbce6d1469fdbecf63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:28 +0000
Subject: [PATCH 06/18] fix: segmented containers report length error when
 rounded up capacity exceeds max_size

---
 include/sfl/segmented_devector.hpp | 6 ++++--
 include/sfl/segmented_vector.hpp   | 3 ++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/sfl/segmented_devector.hpp b/include/sfl/segmented_devector.hpp
index dccd211..28ae48b 100644
--- a/include/sfl/segmented_devector.hpp
+++ b/include/sfl/segmented_devector.hpp
@@ -1332,7 +1332,8 @@ private:
     //
     void grow_storage_front(size_type num_additional_elements)
     {
-        if (max_size() - capacity() < num_additional_elements)
+        // Capacity is rounded up to whole segments so it can exceed max_size().
+        if (capacity() > max_size() || max_size() - capacity() < num_additional_elements)
         {
             sfl::dtl::throw_length_error("sfl::segmented_devector::grow_storage_front");
         }
@@ -1420,7 +1421,8 @@ private:
     //
     void grow_storage_back(size_type num_additional_elements)
     {
-        if (max_size() - capacity() < num_additional_elements)
+        // Capacity is rounded up to whole segments so it can exceed max_size().
+        if (capacity() > max_size() || max_size() - capacity() < num_additional_elements)
         {
             sfl::dtl::throw_length_error("sfl::segmented_devector::grow_storage_back");
         }
diff --git a/include/sfl/segmented_vector.hpp b/include/sfl/segmented_vector.hpp
index 4232938..7bb99c8 100644
--- a/include/sfl/segmented_vector.hpp
+++ b/include/sfl/segmented_vector.hpp
@@ -961,7 +961,8 @@ private:
     //
     void grow_storage(size_type num_additional_elements)
     {
-        if (max_size() - capacity() < num_additional_elements)
+        // Capacity is rounded up to whole segments so it can exceed max_size().
+        if (capacity() > max_size() || max_size() - capacity() < num_additional_elements)
         {
             sfl::dtl::throw_length_error("sfl::segmented_vector::grow_storage");
         }
-- 
2.43.0


From 68c1ef2ca2072dc812d08b88a99683b3181ac5da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:28 +0000
Subject: [PATCH 07/18] fix: devector growth does not exceed max_size when
 required capacity fits

---
 include/sfl/devector.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/sfl/devector.hpp b/include/sfl/devector.hpp
index 9552875..57e6649 100644
--- a/include/sfl/devector.hpp
+++ b/include/sfl/devector.hpp
@@ -1363,12 +1363,12 @@ private:
             return std::max
             (
                 num_additional_elements - available_front,
-                capacity_front / 2
+                std::min(capacity_front / 2, max_size() - capacity())
             );
         }
         else
         {
-            return capacity_front / 2;
+            return std::min(capacity_front / 2, max_size() - capacity());
         }
     }
 
@@ -1382,12 +1382,12 @@ private:
             return std::max
             (
                 num_additional_elements - available_back,
-                capacity_back / 2
+                std::min(capacity_back / 2, max_size() - capacity())
             );
         }
         else
         {
-            return capacity_back / 2;
+            return std::min(capacity_back / 2, max_size() - capacity());
         }
     }
 
-- 
2.43.0


From 64729800bc4e41c26a88698ed73fc48696841626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:00 +0000
Subject: [PATCH 08/18] fix: compact_vector deallocates the whole block when
 assignment fails

---
 include/sfl/compact_vector.hpp | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/include/sfl/compact_vector.hpp b/include/sfl/compact_vector.hpp
index 213552f..2f944e9 100644
--- a/include/sfl/compact_vector.hpp
+++ b/include/sfl/compact_vector.hpp
@@ -1208,7 +1208,16 @@ private:
             }
             SFL_CATCH (...)
             {
-                clear();
+                sfl::dtl::deallocate
+                (
+                    data_.ref_to_alloc(),
+                    data_.first_,
+                    n
+                );
+
+                data_.first_ = nullptr;
+                data_.last_  = nullptr;
+
                 SFL_RETHROW;
             }
         }
@@ -1269,7 +1278,16 @@ private:
             }
             SFL_CATCH (...)
             {
-                clear();
+                sfl::dtl::deallocate
+                (
+                    data_.ref_to_alloc(),
+                    data_.first_,
+                    n
+                );
+
+                data_.first_ = nullptr;
+                data_.last_  = nullptr;
+
                 SFL_RETHROW;
             }
         }
-- 
2.43.0


From fa3638992fdd0695b875bfa3426b5ca47b1ad482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:52 +0000
Subject: [PATCH 09/18] fix: devector insert destroys exactly the relocated
 elements when it fails

---
 include/sfl/devector.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/sfl/devector.hpp b/include/sfl/devector.hpp
index 57e6649..781a3fa 100644
--- a/include/sfl/devector.hpp
+++ b/include/sfl/devector.hpp
@@ -2752,7 +2752,7 @@ private:
                 );
 
                 const auto sg2 = sfl::dtl::make_scope_guard([&](){
-                    sfl::dtl::destroy_a(data_.ref_to_alloc(), q10, q10);
+                    sfl::dtl::destroy_a(data_.ref_to_alloc(), q10, q11);
                 });
 
                 if (p11 != q11)
@@ -3682,7 +3682,7 @@ private:
                     );
 
                     const auto sg1 = sfl::dtl::make_scope_guard([&](){
-                        sfl::dtl::destroy_a(data_.ref_to_alloc(), q10, q20);
+                        sfl::dtl::destroy_a(data_.ref_to_alloc(), q10, q11);
                     });
 
                     if (p11 != q11) // To avoid moving elements into themselves.
-- 
2.43.0


From aa997a82a606415c8ed1e85a8f1b6ca5f1cb6eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:33 +0000
Subject: [PATCH 10/18] fix: small containers swap allocators and functors
 after the elements have been moved

---
 include/sfl/small_flat_map.hpp                | 16 +++++++++-------
 include/sfl/small_flat_multimap.hpp           | 16 +++++++++-------
 include/sfl/small_flat_multiset.hpp           | 16 +++++++++-------
 include/sfl/small_flat_set.hpp                | 16 +++++++++-------
 include/sfl/small_unordered_flat_map.hpp      | 16 +++++++++-------
 include/sfl/small_unordered_flat_multimap.hpp | 16 +++++++++-------
 include/sfl/small_unordered_flat_multiset.hpp | 16 +++++++++-------
 include/sfl/small_unordered_flat_set.hpp      | 16 +++++++++-------
 include/sfl/small_vector.hpp                  | 12 +++++++-----
 9 files changed, 79 insertions(+), 61 deletions(-)

diff --git a/include/sfl/small_flat_map.hpp b/include/sfl/small_flat_map.hpp
index 181c486..00b49f3 100644
--- a/include/sfl/small_flat_map.hpp
+++ b/include/sfl/small_flat_map.hpp
@@ -1082,13 +1082,6 @@ public:
         // One allocator can safely destroy_a elements constructed by other
         // allocator regardless the two allocators compare equal or not.
 
-        if (allocator_traits::propagate_on_container_swap::value)
-        {
-            swap(this->data_.ref_to_alloc(), other.data_.ref_to_alloc());
-        }
-
-        swap(this->data_.ref_to_comp(), other.data_.ref_to_comp());
-
         if
         (
             this->data_.first_ == this->data_.internal_storage() &&
@@ -1222,6 +1215,15 @@ public:
             swap(this->data_.last_,  other.data_.last_);
             swap(this->data_.eos_,   other.data_.eos_);
         }
+
+        // Allocators and functors are swapped last because moving of elements may throw.
+
+        if (allocator_traits::propagate_on_container_swap::value)
+        {
+            swap(this->data_.ref_to_alloc(), other.data_.ref_to_alloc());
+        }
+
+        swap(this->data_.ref_to_comp(), other.data_.ref_to_comp());
     }
 
     //
diff --git a/include/sfl/small_flat_multimap.hpp b/include/sfl/small_flat_multimap.hpp
index d725df0..c3bbe83 100644
--- a/include/sfl/small_flat_multimap.hpp
+++ b/include/sfl/small_flat_multimap.hpp
@@ -974,13 +974,6 @@ public:
         // One allocator can safely destroy_a elements constructed by other
         // allocator regardless the two allocators compare equal or not.
 
-        if (allocator_traits::propagate_on_container_swap::value)
-        {
-            swap(this->data_.ref_to_alloc(), other.data_.ref_to_alloc());
-        }
-
-        swap(this->data_.ref_to_comp(), other.data_.ref_to_comp());
-
         if
         (
             this->data_.first_ == this->data_.internal_storage() &&
@@ -1114,6 +1107,15 @@ public:
             swap(this->data_.last_,  other.data_.last_);
             swap(this->data_.eos_,   other.data_.eos_);
         }
+
+        // Allocators and functors are swapped last because moving of elements may throw.
+
+        if (allocator_traits::propagate_on_container_swap::value)
+        {
+            swap(this->data_.ref_to_alloc(), other.data_.ref_to_alloc());
+        }
+
+        swap(this->data_.ref_to_comp(), other.data_.ref_to_comp());
     }
 
     //
diff --git a/include/sfl/small_flat_multiset.hpp b/include/sfl/small_flat_multiset.hpp
index f9795fc..73d1a64 100644
--- a/include/sfl/small_flat_multiset.hpp
+++ b/include/sfl/small_flat_multiset.hpp
@@ -901,13 +901,6 @@ public:
         // One allocator can safely destroy_a elements constructed by other
         // allocator regardless the two allocators compare equal or not.
 
-        if (allocator_traits::propagate_on_container_swap::value)
-        {
-            swap(this->data_.ref_to_alloc(), other.data_.ref_to_alloc());
-        }
-
-        swap(this->data_.ref_to_comp(), other.data_.ref_to_comp());
-
         if
         (
             this->data_.first_ == this->data_.internal_storage() &&
@@ -1041,6 +1034,15 @@ public:
             swap(this->data_.last_,  other.data_.last_);
             swap(this->data_.eos_,   other.data_.eos_);
         }
+
+        // Allocators and functors are swapped last because moving of elements may throw.
+
+        if (allocator_traits::propagate_on_container_swap::value)
+        {
+            swap(this->data_.ref_to_alloc(), other.data_.ref_to_alloc());
+        }
+
+        swap(this->data_.ref_to_comp(), other.data_.ref_to_comp());
     }
 
     //
diff --git a/include/sfl/small_flat_set.hpp b/include/sfl/small_flat_set.hpp
index 11391a7..e5dc566 100644
--- a/include/sfl/small_flat_set.hpp
+++ b/include/sfl/small_flat_set.hpp
@@ -924,13 +924,6 @@ public:
         // One allocator can safely destroy_a elements constructed by other
         // allocator regardless the two allocators compare equal or not.
 
-        if (allocator_traits::propagate_on_container_swap::value)
-        {
-            swap(this->data_.ref_to_alloc(), other.data_.ref_to_alloc());
-        }
-
-        swap(this->data_.ref_to_comp(), other.data_.ref_to_comp());
-
         if
         (
             this->data_.first_ == this->data_.internal_storage() &&
@@ -1064,6 +1057,15 @@ public:
             swap(this->data_.last_,  other.data_.last_);
             swap(this->data_.eos_,   other.data_.eos_);
         }
+
+        // Allocators and functors are swapped last because moving of elements may throw.
+
+        if (allocator_traits::propagate_on_container_swap::value)
+        {
+            swap(this->data_.ref_to_alloc(), other.data_.ref_to_alloc());
+        }
+
+        swap(this->data_.ref_to_comp(), other.data_.ref_to_comp());
     }
 
     //
diff --git a/include/sfl/small_unordered_flat_map.hpp b/include/sfl/small_unordered_flat_map.hpp
index 88226e6..0cb3399 100644
--- a/include/sfl/small_unordered_flat_map.hpp
+++ b/include/sfl/small_unordered_flat_map.hpp
@@ -1083,13 +1083,6 @@ public:
         // One allocator can safely destroy_a elements constructed by other
         // allocator regardless the two allocators compare equal or not.
 
-        if (allocator_traits::propagate_on_container_swap::value)
-        {
-            swap(this->data_.ref_to_alloc(), other.data_.ref_to_alloc());
-        }
-
-        swap(this->data_.ref_to_equal(), other.data_.ref_to_equal());
-
         if
         (
             this->data_.first_ == this->data_.internal_storage() &&
@@ -1223,6 +1216,15 @@ public:
             swap(this->data_.last_,  other.data_.last_);
             swap(this->data_.eos_,   other.data_.eos_);
         }
+
+        // Allocators and functors are swapped last because moving of elements may throw.
+
+        if (allocator_traits::propagate_on_container_swap::value)
+        {
+            swap(this->data_.ref_to_alloc(), other.data_.ref_to_alloc());
+        }
+
+        swap(this->data_.ref_to_equal(), other.data_.ref_to_equal());
     }
 
     //
diff --git a/include/sfl/small_unordered_flat_multimap.hpp b/include/sfl/small_unordered_flat_multimap.hpp
index c8711e0..e8e8875 100644
--- a/include/sfl/small_unordered_flat_multimap.hpp
+++ b/include/sfl/small_unordered_flat_multimap.hpp
@@ -998,13 +998,6 @@ public:
         // One allocator can safely destroy_a elements constructed by other
         // allocator regardless the two allocators compare equal or not.
 
-        if (allocator_traits::propagate_on_container_swap::value)
-        {
-            swap(this->data_.ref_to_alloc(), other.data_.ref_to_alloc());
-        }
-
-        swap(this->data_.ref_to_equal(), other.data_.ref_to_equal());
-
         if
         (
             this->data_.first_ == this->data_.internal_storage() &&
@@ -1138,6 +1131,15 @@ public:
             swap(this->data_.last_,  other.data_.last_);
             swap(this->data_.eos_,   other.data_.eos_);
         }
+
+        // Allocators and functors are swapped last because moving of elements may throw.
+
+        if (allocator_traits::propagate_on_container_swap::value)
+        {
+            swap(this->data_.ref_to_alloc(), other.data_.ref_to_alloc());
+        }
+
+        swap(this->data_.ref_to_equal(), other.data_.ref_to_equal());
     }
 
     //
diff --git a/include/sfl/small_unordered_flat_multiset.hpp b/include/sfl/small_unordered_flat_multiset.hpp
index 000660c..499f91a 100644
--- a/include/sfl/small_unordered_flat_multiset.hpp
+++ b/include/sfl/small_unordered_flat_multiset.hpp
@@ -912,13 +912,6 @@ public:
         // One allocator can safely destroy_a elements constructed by other
         // allocator regardless the two allocators compare equal or not.
 
-        if (allocator_traits::propagate_on_container_swap::value)
-        {
-            swap(this->data_.ref_to_alloc(), other.data_.ref_to_alloc());
-        }
-
-        swap(this->data_.ref_to_equal(), other.data_.ref_to_equal());
-
         if
         (
             this->data_.first_ == this->data_.internal_storage() &&
@@ -1052,6 +1045,15 @@ public:
             swap(this->data_.last_,  other.data_.last_);
             swap(this->data_.eos_,   other.data_.eos_);
         }
+
+        // Allocators and functors are swapped last because moving of elements may throw.
+
+        if (allocator_traits::propagate_on_container_swap::value)
+        {
+            swap(this->data_.ref_to_alloc(), other.data_.ref_to_alloc());
+        }
+
+        swap(this->data_.ref_to_equal(), other.data_.ref_to_equal());
     }
 
     //
diff --git a/include/sfl/small_unordered_flat_set.hpp b/include/sfl/small_unordered_flat_set.hpp
index fd52396..6a70a1c 100644
--- a/include/sfl/small_unordered_flat_set.hpp
+++ b/include/sfl/small_unordered_flat_set.hpp
@@ -912,13 +912,6 @@ public:
         // One allocator can safely destroy_a elements constructed by other
         // allocator regardless the two allocators compare equal or not.
 
-        if (allocator_traits::propagate_on_container_swap::value)
-        {
-            swap(this->data_.ref_to_alloc(), other.data_.ref_to_alloc());
-        }
-
-        swap(this->data_.ref_to_equal(), other.data_.ref_to_equal());
-
         if
         (
             this->data_.first_ == this->data_.internal_storage() &&
@@ -1052,6 +1045,15 @@ public:
             swap(this->data_.last_,  other.data_.last_);
             swap(this->data_.eos_,   other.data_.eos_);
         }
+
+        // Allocators and functors are swapped last because moving of elements may throw.
+
+        if (allocator_traits::propagate_on_container_swap::value)
+        {
+            swap(this->data_.ref_to_alloc(), other.data_.ref_to_alloc());
+        }
+
+        swap(this->data_.ref_to_equal(), other.data_.ref_to_equal());
     }
 
     //
diff --git a/include/sfl/small_vector.hpp b/include/sfl/small_vector.hpp
index 0d2c6b0..486b68a 100644
--- a/include/sfl/small_vector.hpp
+++ b/include/sfl/small_vector.hpp
@@ -1396,11 +1396,6 @@ public:
         // One allocator can safely destroy_a elements constructed by other
         // allocator regardless the two allocators compare equal or not.
 
-        if (allocator_traits::propagate_on_container_swap::value)
-        {
-            swap(this->data_.ref_to_alloc(), other.data_.ref_to_alloc());
-        }
-
         if
         (
             this->data_.first_ == this->data_.internal_storage() &&
@@ -1534,6 +1529,13 @@ public:
             swap(this->data_.last_,  other.data_.last_);
             swap(this->data_.eos_,   other.data_.eos_);
         }
+
+        // Allocators are swapped last because moving of elements may throw.
+
+        if (allocator_traits::propagate_on_container_swap::value)
+        {
+            swap(this->data_.ref_to_alloc(), other.data_.ref_to_alloc());
+        }
     }
 
 private:
-- 
2.43.0


From 5f075e86519570918b04447524a8ab0222a5aaf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:11 +0000
Subject: [PATCH 11/18] fix: static_unordered_flat_multiset provides data()

---
 include/sfl/static_unordered_flat_multiset.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/sfl/static_unordered_flat_multiset.hpp b/include/sfl/static_unordered_flat_multiset.hpp
index 26a1904..1580b71 100644
--- a/include/sfl/static_unordered_flat_multiset.hpp
+++ b/include/sfl/static_unordered_flat_multiset.hpp
@@ -716,6 +716,18 @@ public:
     // ---- ELEMENT ACCESS ----------------------------------------------------
     //
 
+    SFL_NODISCARD
+    value_type* data() noexcept
+    {
+        return data_.first_;
+    }
+
+    SFL_NODISCARD
+    const value_type* data() const noexcept
+    {
+        return data_.first_;
+    }
+
 private:
 
     template <typename ForwardIt,
-- 
2.43.0


From aacc721160d9161be3ff30500e59af3b5a6b6d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:11 +0000
Subject: [PATCH 12/18] fix: static flat containers sort and deduplicate
 assigned initializer list

---
 include/sfl/static_flat_map.hpp           | 3 ++-
 include/sfl/static_flat_multimap.hpp      | 3 ++-
 include/sfl/static_flat_multiset.hpp      | 3 ++-
 include/sfl/static_flat_set.hpp           | 3 ++-
 include/sfl/static_unordered_flat_map.hpp | 3 ++-
 include/sfl/static_unordered_flat_set.hpp | 3 ++-
 6 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/include/sfl/static_flat_map.hpp b/include/sfl/static_flat_map.hpp
index a2dd667..aea18f8 100644
--- a/include/sfl/static_flat_map.hpp
+++ b/include/sfl/static_flat_map.hpp
@@ -305,7 +305,8 @@ public:
 
     static_flat_map& operator=(std::initializer_list<value_type> ilist)
     {
-        assign_range(ilist.begin(), ilist.end());
+        clear();
+        insert(ilist.begin(), ilist.end());
         return *this;
     }
 
diff --git a/include/sfl/static_flat_multimap.hpp b/include/sfl/static_flat_multimap.hpp
index 6a95c67..b0355d5 100644
--- a/include/sfl/static_flat_multimap.hpp
+++ b/include/sfl/static_flat_multimap.hpp
@@ -305,7 +305,8 @@ public:
 
     static_flat_multimap& operator=(std::initializer_list<value_type> ilist)
     {
-        assign_range(ilist.begin(), ilist.end());
+        clear();
+        insert(ilist.begin(), ilist.end());
         return *this;
     }
 
diff --git a/include/sfl/static_flat_multiset.hpp b/include/sfl/static_flat_multiset.hpp
index 702f09a..c837b44 100644
--- a/include/sfl/static_flat_multiset.hpp
+++ b/include/sfl/static_flat_multiset.hpp
@@ -251,7 +251,8 @@ public:
 
     static_flat_multiset& operator=(std::initializer_list<value_type> ilist)
     {
-        assign_range(ilist.begin(), ilist.end());
+        clear();
+        insert(ilist.begin(), ilist.end());
         return *this;
     }
 
diff --git a/include/sfl/static_flat_set.hpp b/include/sfl/static_flat_set.hpp
index 5fe031c..ee80b20 100644
--- a/include/sfl/static_flat_set.hpp
+++ b/include/sfl/static_flat_set.hpp
@@ -251,7 +251,8 @@ public:
 
     static_flat_set& operator=(std::initializer_list<value_type> ilist)
     {
-        assign_range(ilist.begin(), ilist.end());
+        clear();
+        insert(ilist.begin(), ilist.end());
         return *this;
     }
 
diff --git a/include/sfl/static_unordered_flat_map.hpp b/include/sfl/static_unordered_flat_map.hpp
index e56f4b0..ad4f2a2 100644
--- a/include/sfl/static_unordered_flat_map.hpp
+++ b/include/sfl/static_unordered_flat_map.hpp
@@ -303,7 +303,8 @@ public:
 
     static_unordered_flat_map& operator=(std::initializer_list<value_type> ilist)
     {
-        assign_range(ilist.begin(), ilist.end());
+        clear();
+        insert(ilist.begin(), ilist.end());
         return *this;
     }
 
diff --git a/include/sfl/static_unordered_flat_set.hpp b/include/sfl/static_unordered_flat_set.hpp
index 5c61594..2419a8e 100644
--- a/include/sfl/static_unordered_flat_set.hpp
+++ b/include/sfl/static_unordered_flat_set.hpp
@@ -248,7 +248,8 @@ public:
 
     static_unordered_flat_set& operator=(std::initializer_list<value_type> ilist)
     {
-        assign_range(ilist.begin(), ilist.end());
+        clear();
+        insert(ilist.begin(), ilist.end());
         return *this;
     }
 
-- 
2.43.0


From d46752e4e24daf1db0d7c23d87baec13afc30bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:11 +0000
Subject: [PATCH 13/18] fix: flat set and map create the new value before
 making place for it

---
 include/sfl/small_flat_map.hpp  | 5 ++++-
 include/sfl/small_flat_set.hpp  | 5 ++++-
 include/sfl/static_flat_map.hpp | 5 ++++-
 include/sfl/static_flat_set.hpp | 5 ++++-
 4 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/include/sfl/small_flat_map.hpp b/include/sfl/small_flat_map.hpp
index 00b49f3..bc3bc05 100644
--- a/include/sfl/small_flat_map.hpp
+++ b/include/sfl/small_flat_map.hpp
@@ -1950,6 +1950,9 @@ private:
             }
             else
             {
+                // Create temporary value before making place for new element.
+                value_type temp(std::forward<Value>(value));
+
                 const pointer p2 = data_.last_ - 1;
 
                 const pointer old_last = data_.last_;
@@ -1970,7 +1973,7 @@ private:
                     old_last
                 );
 
-                *p1 = std::forward<Value>(value);
+                *p1 = std::move(temp);
             }
 
             return iterator(p1);
diff --git a/include/sfl/small_flat_set.hpp b/include/sfl/small_flat_set.hpp
index e5dc566..5614201 100644
--- a/include/sfl/small_flat_set.hpp
+++ b/include/sfl/small_flat_set.hpp
@@ -1646,6 +1646,9 @@ private:
             }
             else
             {
+                // Create temporary value before making place for new element.
+                value_type temp(std::forward<Value>(value));
+
                 const pointer p2 = data_.last_ - 1;
 
                 const pointer old_last = data_.last_;
@@ -1666,7 +1669,7 @@ private:
                     old_last
                 );
 
-                *p1 = std::forward<Value>(value);
+                *p1 = std::move(temp);
             }
 
             return iterator(p1);
diff --git a/include/sfl/static_flat_map.hpp b/include/sfl/static_flat_map.hpp
index aea18f8..2e1beb8 100644
--- a/include/sfl/static_flat_map.hpp
+++ b/include/sfl/static_flat_map.hpp
@@ -1244,6 +1244,9 @@ private:
         }
         else
         {
+            // Create temporary value before making place for new element.
+            value_type temp(std::forward<Value>(value));
+
             const pointer p2 = data_.last_ - 1;
 
             const pointer old_last = data_.last_;
@@ -1263,7 +1266,7 @@ private:
                 old_last
             );
 
-            *p1 = std::forward<Value>(value);
+            *p1 = std::move(temp);
         }
 
         return iterator(p1);
diff --git a/include/sfl/static_flat_set.hpp b/include/sfl/static_flat_set.hpp
index ee80b20..2c1b513 100644
--- a/include/sfl/static_flat_set.hpp
+++ b/include/sfl/static_flat_set.hpp
@@ -927,6 +927,9 @@ private:
         }
         else
         {
+            // Create temporary value before making place for new element.
+            value_type temp(std::forward<Value>(value));
+
             const pointer p2 = data_.last_ - 1;
 
             const pointer old_last = data_.last_;
@@ -946,7 +949,7 @@ private:
                 old_last
             );
 
-            *p1 = std::forward<Value>(value);
+            *p1 = std::move(temp);
         }
 
         return iterator(p1);
-- 
2.43.0


From 6b41024f18b15cc787490e5171cfa4ade2523090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:28 +0000
Subject: [PATCH 14/18] fix: unordered flat set and map emplace leaves no
 element behind when comparison fails

---
 include/sfl/small_unordered_flat_map.hpp  | 13 ++++++++++++-
 include/sfl/small_unordered_flat_set.hpp  | 13 ++++++++++++-
 include/sfl/static_unordered_flat_map.hpp | 13 ++++++++++++-
 include/sfl/static_unordered_flat_set.hpp | 13 ++++++++++++-
 4 files changed, 48 insertions(+), 4 deletions(-)

diff --git a/include/sfl/small_unordered_flat_map.hpp b/include/sfl/small_unordered_flat_map.hpp
index 0cb3399..7e8409b 100644
--- a/include/sfl/small_unordered_flat_map.hpp
+++ b/include/sfl/small_unordered_flat_map.hpp
@@ -1735,7 +1735,18 @@ private:
     std::pair<iterator, bool> emplace_aux(Args&&... args)
     {
         const auto it1 = emplace_back(std::forward<Args>(args)...);
-        const auto it2 = find(it1->first);
+
+        iterator it2;
+
+        SFL_TRY
+        {
+            it2 = find(it1->first);
+        }
+        SFL_CATCH (...)
+        {
+            pop_back();
+            SFL_RETHROW;
+        }
 
         const bool is_unique = it1 == it2;
 
diff --git a/include/sfl/small_unordered_flat_set.hpp b/include/sfl/small_unordered_flat_set.hpp
index 6a70a1c..7d71da0 100644
--- a/include/sfl/small_unordered_flat_set.hpp
+++ b/include/sfl/small_unordered_flat_set.hpp
@@ -1488,7 +1488,18 @@ private:
     std::pair<iterator, bool> emplace_aux(Args&&... args)
     {
         const auto it1 = emplace_back(std::forward<Args>(args)...);
-        const auto it2 = find(*it1);
+
+        iterator it2;
+
+        SFL_TRY
+        {
+            it2 = find(*it1);
+        }
+        SFL_CATCH (...)
+        {
+            pop_back();
+            SFL_RETHROW;
+        }
 
         const bool is_unique = it1 == it2;
 
diff --git a/include/sfl/static_unordered_flat_map.hpp b/include/sfl/static_unordered_flat_map.hpp
index ad4f2a2..f7a1886 100644
--- a/include/sfl/static_unordered_flat_map.hpp
+++ b/include/sfl/static_unordered_flat_map.hpp
@@ -1022,7 +1022,18 @@ private:
     std::pair<iterator, bool> emplace_aux(Args&&... args)
     {
         const auto it1 = emplace_back(std::forward<Args>(args)...);
-        const auto it2 = find(it1->first);
+
+        iterator it2;
+
+        SFL_TRY
+        {
+            it2 = find(it1->first);
+        }
+        SFL_CATCH (...)
+        {
+            pop_back();
+            SFL_RETHROW;
+        }
 
         const bool is_unique = it1 == it2;
 
diff --git a/include/sfl/static_unordered_flat_set.hpp b/include/sfl/static_unordered_flat_set.hpp
index 2419a8e..cc4760d 100644
--- a/include/sfl/static_unordered_flat_set.hpp
+++ b/include/sfl/static_unordered_flat_set.hpp
@@ -764,7 +764,18 @@ private:
     std::pair<iterator, bool> emplace_aux(Args&&... args)
     {
         const auto it1 = emplace_back(std::forward<Args>(args)...);
-        const auto it2 = find(*it1);
+
+        iterator it2;
+
+        SFL_TRY
+        {
+            it2 = find(*it1);
+        }
+        SFL_CATCH (...)
+        {
+            pop_back();
+            SFL_RETHROW;
+        }
 
         const bool is_unique = it1 == it2;
 
-- 
2.43.0


From 7c12b02c45ddf8ae8d8aad5b66922b3a5f07327a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:28 +0000
Subject: [PATCH 15/18] fix: unordered flat multiset and multimap erase by a
 key that is inside the container

---
 include/sfl/small_unordered_flat_multimap.hpp | 24 +++++++++++++++----
 include/sfl/small_unordered_flat_multiset.hpp | 24 +++++++++++++++----
 .../sfl/static_unordered_flat_multimap.hpp    | 24 +++++++++++++++----
 .../sfl/static_unordered_flat_multiset.hpp    | 24 +++++++++++++++----
 4 files changed, 80 insertions(+), 16 deletions(-)

diff --git a/include/sfl/small_unordered_flat_multimap.hpp b/include/sfl/small_unordered_flat_multimap.hpp
index e8e8875..b9a0f5d 100644
--- a/include/sfl/small_unordered_flat_multimap.hpp
+++ b/include/sfl/small_unordered_flat_multimap.hpp
@@ -938,11 +938,24 @@ public:
 
     size_type erase(const Key& key)
     {
-        size_type n = 0;
+        auto it = find(key);
 
-        for (auto it = begin(); it != end();)
+        if (it == end())
         {
-            if (data_.ref_to_equal()(*it, key))
+            return 0;
+        }
+
+        // Parameter `key` can be a reference to an element of this container.
+        // Create temporary value before erasing elements.
+        const value_type temp(std::move(*(data_.first_ + std::distance(begin(), it))));
+
+        it = erase(it);
+
+        size_type n = 1;
+
+        while (it != end())
+        {
+            if (data_.ref_to_equal()(*it, temp))
             {
                 it = erase(it);
                 ++n;
@@ -957,7 +970,10 @@ public:
     }
 
     template <typename K,
-              sfl::dtl::enable_if_t<sfl::dtl::has_is_transparent<KeyEqual, K>::value>* = nullptr>
+              sfl::dtl::enable_if_t<
+                !std::is_same<sfl::dtl::remove_cvref_t<Key>, sfl::dtl::remove_cvref_t<K>>::value &&
+                sfl::dtl::has_is_transparent<KeyEqual, K>::value
+              >* = nullptr>
     size_type erase(K&& x)
     {
         size_type n = 0;
diff --git a/include/sfl/small_unordered_flat_multiset.hpp b/include/sfl/small_unordered_flat_multiset.hpp
index 499f91a..f5aae99 100644
--- a/include/sfl/small_unordered_flat_multiset.hpp
+++ b/include/sfl/small_unordered_flat_multiset.hpp
@@ -852,11 +852,24 @@ public:
 
     size_type erase(const Key& key)
     {
-        size_type n = 0;
+        auto it = find(key);
 
-        for (auto it = begin(); it != end();)
+        if (it == end())
         {
-            if (data_.ref_to_equal()(*it, key))
+            return 0;
+        }
+
+        // Parameter `key` can be a reference to an element of this container.
+        // Create temporary value before erasing elements.
+        const value_type temp(std::move(*(data_.first_ + std::distance(begin(), it))));
+
+        it = erase(it);
+
+        size_type n = 1;
+
+        while (it != end())
+        {
+            if (data_.ref_to_equal()(*it, temp))
             {
                 it = erase(it);
                 ++n;
@@ -871,7 +884,10 @@ public:
     }
 
     template <typename K,
-              sfl::dtl::enable_if_t<sfl::dtl::has_is_transparent<KeyEqual, K>::value>* = nullptr>
+              sfl::dtl::enable_if_t<
+                !std::is_same<sfl::dtl::remove_cvref_t<Key>, sfl::dtl::remove_cvref_t<K>>::value &&
+                sfl::dtl::has_is_transparent<KeyEqual, K>::value
+              >* = nullptr>
     size_type erase(K&& x)
     {
         size_type n = 0;
diff --git a/include/sfl/static_unordered_flat_multimap.hpp b/include/sfl/static_unordered_flat_multimap.hpp
index 4356bcd..775178b 100644
--- a/include/sfl/static_unordered_flat_multimap.hpp
+++ b/include/sfl/static_unordered_flat_multimap.hpp
@@ -585,11 +585,24 @@ public:
 
     size_type erase(const Key& key)
     {
-        size_type n = 0;
+        auto it = find(key);
 
-        for (auto it = begin(); it != end();)
+        if (it == end())
         {
-            if (data_.ref_to_equal()(*it, key))
+            return 0;
+        }
+
+        // Parameter `key` can be a reference to an element of this container.
+        // Create temporary value before erasing elements.
+        const value_type temp(std::move(*(data_.first_ + std::distance(begin(), it))));
+
+        it = erase(it);
+
+        size_type n = 1;
+
+        while (it != end())
+        {
+            if (data_.ref_to_equal()(*it, temp))
             {
                 it = erase(it);
                 ++n;
@@ -604,7 +617,10 @@ public:
     }
 
     template <typename K,
-              sfl::dtl::enable_if_t<sfl::dtl::has_is_transparent<KeyEqual, K>::value>* = nullptr>
+              sfl::dtl::enable_if_t<
+                !std::is_same<sfl::dtl::remove_cvref_t<Key>, sfl::dtl::remove_cvref_t<K>>::value &&
+                sfl::dtl::has_is_transparent<KeyEqual, K>::value
+              >* = nullptr>
     size_type erase(K&& x)
     {
         size_type n = 0;
diff --git a/include/sfl/static_unordered_flat_multiset.hpp b/include/sfl/static_unordered_flat_multiset.hpp
index 1580b71..e05c9af 100644
--- a/include/sfl/static_unordered_flat_multiset.hpp
+++ b/include/sfl/static_unordered_flat_multiset.hpp
@@ -497,11 +497,24 @@ public:
 
     size_type erase(const Key& key)
     {
-        size_type n = 0;
+        auto it = find(key);
 
-        for (auto it = begin(); it != end();)
+        if (it == end())
         {
-            if (data_.ref_to_equal()(*it, key))
+            return 0;
+        }
+
+        // Parameter `key` can be a reference to an element of this container.
+        // Create temporary value before erasing elements.
+        const value_type temp(std::move(*(data_.first_ + std::distance(begin(), it))));
+
+        it = erase(it);
+
+        size_type n = 1;
+
+        while (it != end())
+        {
+            if (data_.ref_to_equal()(*it, temp))
             {
                 it = erase(it);
                 ++n;
@@ -516,7 +529,10 @@ public:
     }
 
     template <typename K,
-              sfl::dtl::enable_if_t<sfl::dtl::has_is_transparent<KeyEqual, K>::value>* = nullptr>
+              sfl::dtl::enable_if_t<
+                !std::is_same<sfl::dtl::remove_cvref_t<Key>, sfl::dtl::remove_cvref_t<K>>::value &&
+                sfl::dtl::has_is_transparent<KeyEqual, K>::value
+              >* = nullptr>
     size_type erase(K&& x)
     {
         size_type n = 0;
-- 
2.43.0


From 7c4d46d1bc4be26905c2b3e90b1e8e9b23b27e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:28 +0000
Subject: [PATCH 16/18] fix: flat containers keep no mixed elements when
 assignment fails

---
 include/sfl/small_flat_map.hpp            | 70 ++++++++++++++---------
 include/sfl/small_flat_multimap.hpp       | 70 ++++++++++++++---------
 include/sfl/small_flat_multiset.hpp       | 70 ++++++++++++++---------
 include/sfl/small_flat_set.hpp            | 70 ++++++++++++++---------
 include/sfl/small_unordered_flat_map.hpp  | 70 ++++++++++++++---------
 include/sfl/small_unordered_flat_set.hpp  | 70 ++++++++++++++---------
 include/sfl/static_flat_map.hpp           | 42 ++++++++++----
 include/sfl/static_flat_multimap.hpp      | 42 ++++++++++----
 include/sfl/static_flat_multiset.hpp      | 42 ++++++++++----
 include/sfl/static_flat_set.hpp           | 42 ++++++++++----
 include/sfl/static_unordered_flat_map.hpp | 42 ++++++++++----
 include/sfl/static_unordered_flat_set.hpp | 42 ++++++++++----
 12 files changed, 444 insertions(+), 228 deletions(-)

diff --git a/include/sfl/small_flat_map.hpp b/include/sfl/small_flat_map.hpp
index bc3bc05..fb9d632 100644
--- a/include/sfl/small_flat_map.hpp
+++ b/include/sfl/small_flat_map.hpp
@@ -1760,9 +1760,18 @@ private:
                 data_.ref_to_alloc() = other.data_.ref_to_alloc();
             }
 
-            data_.ref_to_comp() = other.data_.ref_to_comp();
+            SFL_TRY
+            {
+                data_.ref_to_comp() = other.data_.ref_to_comp();
 
-            assign_range(other.data_.first_, other.data_.last_);
+                assign_range(other.data_.first_, other.data_.last_);
+            }
+            SFL_CATCH (...)
+            {
+                // Elements can be in the wrong order or duplicated.
+                clear();
+                SFL_RETHROW;
+            }
         }
     }
 
@@ -1778,35 +1787,44 @@ private:
             data_.ref_to_alloc() = std::move(other.data_.ref_to_alloc());
         }
 
-        data_.ref_to_comp() = other.data_.ref_to_comp();
-
-        if (other.data_.first_ == other.data_.internal_storage())
-        {
-            assign_range
-            (
-                std::make_move_iterator(other.data_.first_),
-                std::make_move_iterator(other.data_.last_)
-            );
-        }
-        else if (data_.ref_to_alloc() == other.data_.ref_to_alloc())
+        SFL_TRY
         {
-            reset();
+            data_.ref_to_comp() = other.data_.ref_to_comp();
 
-            data_.first_ = other.data_.first_;
-            data_.last_  = other.data_.last_;
-            data_.eos_   = other.data_.eos_;
+            if (other.data_.first_ == other.data_.internal_storage())
+            {
+                assign_range
+                (
+                    std::make_move_iterator(other.data_.first_),
+                    std::make_move_iterator(other.data_.last_)
+                );
+            }
+            else if (data_.ref_to_alloc() == other.data_.ref_to_alloc())
+            {
+                reset();
 
-            other.data_.first_ = nullptr;
-            other.data_.last_  = nullptr;
-            other.data_.eos_   = nullptr;
+                data_.first_ = other.data_.first_;
+                data_.last_  = other.data_.last_;
+                data_.eos_   = other.data_.eos_;
+
+                other.data_.first_ = nullptr;
+                other.data_.last_  = nullptr;
+                other.data_.eos_   = nullptr;
+            }
+            else
+            {
+                assign_range
+                (
+                    std::make_move_iterator(other.data_.first_),
+                    std::make_move_iterator(other.data_.last_)
+                );
+            }
         }
-        else
+        SFL_CATCH (...)
         {
-            assign_range
-            (
-                std::make_move_iterator(other.data_.first_),
-                std::make_move_iterator(other.data_.last_)
-            );
+            // Elements can be in the wrong order or duplicated.
+            clear();
+            SFL_RETHROW;
         }
     }
 
diff --git a/include/sfl/small_flat_multimap.hpp b/include/sfl/small_flat_multimap.hpp
index c3bbe83..ca3df53 100644
--- a/include/sfl/small_flat_multimap.hpp
+++ b/include/sfl/small_flat_multimap.hpp
@@ -1578,9 +1578,18 @@ private:
                 data_.ref_to_alloc() = other.data_.ref_to_alloc();
             }
 
-            data_.ref_to_comp() = other.data_.ref_to_comp();
+            SFL_TRY
+            {
+                data_.ref_to_comp() = other.data_.ref_to_comp();
 
-            assign_range(other.data_.first_, other.data_.last_);
+                assign_range(other.data_.first_, other.data_.last_);
+            }
+            SFL_CATCH (...)
+            {
+                // Elements can be in the wrong order or duplicated.
+                clear();
+                SFL_RETHROW;
+            }
         }
     }
 
@@ -1596,35 +1605,44 @@ private:
             data_.ref_to_alloc() = std::move(other.data_.ref_to_alloc());
         }
 
-        data_.ref_to_comp() = other.data_.ref_to_comp();
-
-        if (other.data_.first_ == other.data_.internal_storage())
-        {
-            assign_range
-            (
-                std::make_move_iterator(other.data_.first_),
-                std::make_move_iterator(other.data_.last_)
-            );
-        }
-        else if (data_.ref_to_alloc() == other.data_.ref_to_alloc())
+        SFL_TRY
         {
-            reset();
+            data_.ref_to_comp() = other.data_.ref_to_comp();
 
-            data_.first_ = other.data_.first_;
-            data_.last_  = other.data_.last_;
-            data_.eos_   = other.data_.eos_;
+            if (other.data_.first_ == other.data_.internal_storage())
+            {
+                assign_range
+                (
+                    std::make_move_iterator(other.data_.first_),
+                    std::make_move_iterator(other.data_.last_)
+                );
+            }
+            else if (data_.ref_to_alloc() == other.data_.ref_to_alloc())
+            {
+                reset();
 
-            other.data_.first_ = nullptr;
-            other.data_.last_  = nullptr;
-            other.data_.eos_   = nullptr;
+                data_.first_ = other.data_.first_;
+                data_.last_  = other.data_.last_;
+                data_.eos_   = other.data_.eos_;
+
+                other.data_.first_ = nullptr;
+                other.data_.last_  = nullptr;
+                other.data_.eos_   = nullptr;
+            }
+            else
+            {
+                assign_range
+                (
+                    std::make_move_iterator(other.data_.first_),
+                    std::make_move_iterator(other.data_.last_)
+                );
+            }
         }
-        else
+        SFL_CATCH (...)
         {
-            assign_range
-            (
-                std::make_move_iterator(other.data_.first_),
-                std::make_move_iterator(other.data_.last_)
-            );
+            // Elements can be in the wrong order or duplicated.
+            clear();
+            SFL_RETHROW;
         }
     }
 
diff --git a/include/sfl/small_flat_multiset.hpp b/include/sfl/small_flat_multiset.hpp
index 73d1a64..97a1804 100644
--- a/include/sfl/small_flat_multiset.hpp
+++ b/include/sfl/small_flat_multiset.hpp
@@ -1505,9 +1505,18 @@ private:
                 data_.ref_to_alloc() = other.data_.ref_to_alloc();
             }
 
-            data_.ref_to_comp() = other.data_.ref_to_comp();
+            SFL_TRY
+            {
+                data_.ref_to_comp() = other.data_.ref_to_comp();
 
-            assign_range(other.data_.first_, other.data_.last_);
+                assign_range(other.data_.first_, other.data_.last_);
+            }
+            SFL_CATCH (...)
+            {
+                // Elements can be in the wrong order or duplicated.
+                clear();
+                SFL_RETHROW;
+            }
         }
     }
 
@@ -1523,35 +1532,44 @@ private:
             data_.ref_to_alloc() = std::move(other.data_.ref_to_alloc());
         }
 
-        data_.ref_to_comp() = other.data_.ref_to_comp();
-
-        if (other.data_.first_ == other.data_.internal_storage())
-        {
-            assign_range
-            (
-                std::make_move_iterator(other.data_.first_),
-                std::make_move_iterator(other.data_.last_)
-            );
-        }
-        else if (data_.ref_to_alloc() == other.data_.ref_to_alloc())
+        SFL_TRY
         {
-            reset();
+            data_.ref_to_comp() = other.data_.ref_to_comp();
 
-            data_.first_ = other.data_.first_;
-            data_.last_  = other.data_.last_;
-            data_.eos_   = other.data_.eos_;
+            if (other.data_.first_ == other.data_.internal_storage())
+            {
+                assign_range
+                (
+                    std::make_move_iterator(other.data_.first_),
+                    std::make_move_iterator(other.data_.last_)
+                );
+            }
+            else if (data_.ref_to_alloc() == other.data_.ref_to_alloc())
+            {
+                reset();
 
-            other.data_.first_ = nullptr;
-            other.data_.last_  = nullptr;
-            other.data_.eos_   = nullptr;
+                data_.first_ = other.data_.first_;
+                data_.last_  = other.data_.last_;
+                data_.eos_   = other.data_.eos_;
+
+                other.data_.first_ = nullptr;
+                other.data_.last_  = nullptr;
+                other.data_.eos_   = nullptr;
+            }
+            else
+            {
+                assign_range
+                (
+                    std::make_move_iterator(other.data_.first_),
+                    std::make_move_iterator(other.data_.last_)
+                );
+            }
         }
-        else
+        SFL_CATCH (...)
         {
-            assign_range
-            (
-                std::make_move_iterator(other.data_.first_),
-                std::make_move_iterator(other.data_.last_)
-            );
+            // Elements can be in the wrong order or duplicated.
+            clear();
+            SFL_RETHROW;
         }
     }
 
diff --git a/include/sfl/small_flat_set.hpp b/include/sfl/small_flat_set.hpp
index 5614201..a519988 100644
--- a/include/sfl/small_flat_set.hpp
+++ b/include/sfl/small_flat_set.hpp
@@ -1526,9 +1526,18 @@ private:
                 data_.ref_to_alloc() = other.data_.ref_to_alloc();
             }
 
-            data_.ref_to_comp() = other.data_.ref_to_comp();
+            SFL_TRY
+            {
+                data_.ref_to_comp() = other.data_.ref_to_comp();
 
-            assign_range(other.data_.first_, other.data_.last_);
+                assign_range(other.data_.first_, other.data_.last_);
+            }
+            SFL_CATCH (...)
+            {
+                // Elements can be in the wrong order or duplicated.
+                clear();
+                SFL_RETHROW;
+            }
         }
     }
 
@@ -1544,35 +1553,44 @@ private:
             data_.ref_to_alloc() = std::move(other.data_.ref_to_alloc());
         }
 
-        data_.ref_to_comp() = other.data_.ref_to_comp();
-
-        if (other.data_.first_ == other.data_.internal_storage())
-        {
-            assign_range
-            (
-                std::make_move_iterator(other.data_.first_),
-                std::make_move_iterator(other.data_.last_)
-            );
-        }
-        else if (data_.ref_to_alloc() == other.data_.ref_to_alloc())
+        SFL_TRY
         {
-            reset();
+            data_.ref_to_comp() = other.data_.ref_to_comp();
 
-            data_.first_ = other.data_.first_;
-            data_.last_  = other.data_.last_;
-            data_.eos_   = other.data_.eos_;
+            if (other.data_.first_ == other.data_.internal_storage())
+            {
+                assign_range
+                (
+                    std::make_move_iterator(other.data_.first_),
+                    std::make_move_iterator(other.data_.last_)
+                );
+            }
+            else if (data_.ref_to_alloc() == other.data_.ref_to_alloc())
+            {
+                reset();
 
-            other.data_.first_ = nullptr;
-            other.data_.last_  = nullptr;
-            other.data_.eos_   = nullptr;
+                data_.first_ = other.data_.first_;
+                data_.last_  = other.data_.last_;
+                data_.eos_   = other.data_.eos_;
+
+                other.data_.first_ = nullptr;
+                other.data_.last_  = nullptr;
+                other.data_.eos_   = nullptr;
+            }
+            else
+            {
+                assign_range
+                (
+                    std::make_move_iterator(other.data_.first_),
+                    std::make_move_iterator(other.data_.last_)
+                );
+            }
         }
-        else
+        SFL_CATCH (...)
         {
-            assign_range
-            (
-                std::make_move_iterator(other.data_.first_),
-                std::make_move_iterator(other.data_.last_)
-            );
+            // Elements can be in the wrong order or duplicated.
+            clear();
+            SFL_RETHROW;
         }
     }
 
diff --git a/include/sfl/small_unordered_flat_map.hpp b/include/sfl/small_unordered_flat_map.hpp
index 7e8409b..133dce2 100644
--- a/include/sfl/small_unordered_flat_map.hpp
+++ b/include/sfl/small_unordered_flat_map.hpp
@@ -1681,9 +1681,18 @@ private:
                 data_.ref_to_alloc() = other.data_.ref_to_alloc();
             }
 
-            data_.ref_to_equal() = other.data_.ref_to_equal();
+            SFL_TRY
+            {
+                data_.ref_to_equal() = other.data_.ref_to_equal();
 
-            assign_range(other.data_.first_, other.data_.last_);
+                assign_range(other.data_.first_, other.data_.last_);
+            }
+            SFL_CATCH (...)
+            {
+                // Elements can be in the wrong order or duplicated.
+                clear();
+                SFL_RETHROW;
+            }
         }
     }
 
@@ -1699,35 +1708,44 @@ private:
             data_.ref_to_alloc() = std::move(other.data_.ref_to_alloc());
         }
 
-        data_.ref_to_equal() = other.data_.ref_to_equal();
-
-        if (other.data_.first_ == other.data_.internal_storage())
-        {
-            assign_range
-            (
-                std::make_move_iterator(other.data_.first_),
-                std::make_move_iterator(other.data_.last_)
-            );
-        }
-        else if (data_.ref_to_alloc() == other.data_.ref_to_alloc())
+        SFL_TRY
         {
-            reset();
+            data_.ref_to_equal() = other.data_.ref_to_equal();
 
-            data_.first_ = other.data_.first_;
-            data_.last_  = other.data_.last_;
-            data_.eos_   = other.data_.eos_;
+            if (other.data_.first_ == other.data_.internal_storage())
+            {
+                assign_range
+                (
+                    std::make_move_iterator(other.data_.first_),
+                    std::make_move_iterator(other.data_.last_)
+                );
+            }
+            else if (data_.ref_to_alloc() == other.data_.ref_to_alloc())
+            {
+                reset();
 
-            other.data_.first_ = nullptr;
-            other.data_.last_  = nullptr;
-            other.data_.eos_   = nullptr;
+                data_.first_ = other.data_.first_;
+                data_.last_  = other.data_.last_;
+                data_.eos_   = other.data_.eos_;
+
+                other.data_.first_ = nullptr;
+                other.data_.last_  = nullptr;
+                other.data_.eos_   = nullptr;
+            }
+            else
+            {
+                assign_range
+                (
+                    std::make_move_iterator(other.data_.first_),
+                    std::make_move_iterator(other.data_.last_)
+                );
+            }
         }
-        else
+        SFL_CATCH (...)
         {
-            assign_range
-            (
-                std::make_move_iterator(other.data_.first_),
-                std::make_move_iterator(other.data_.last_)
-            );
+            // Elements can be in the wrong order or duplicated.
+            clear();
+            SFL_RETHROW;
         }
     }
 
diff --git a/include/sfl/small_unordered_flat_set.hpp b/include/sfl/small_unordered_flat_set.hpp
index 7d71da0..4e2e14f 100644
--- a/include/sfl/small_unordered_flat_set.hpp
+++ b/include/sfl/small_unordered_flat_set.hpp
@@ -1434,9 +1434,18 @@ private:
                 data_.ref_to_alloc() = other.data_.ref_to_alloc();
             }
 
-            data_.ref_to_equal() = other.data_.ref_to_equal();
+            SFL_TRY
+            {
+                data_.ref_to_equal() = other.data_.ref_to_equal();
 
-            assign_range(other.data_.first_, other.data_.last_);
+                assign_range(other.data_.first_, other.data_.last_);
+            }
+            SFL_CATCH (...)
+            {
+                // Elements can be in the wrong order or duplicated.
+                clear();
+                SFL_RETHROW;
+            }
         }
     }
 
@@ -1452,35 +1461,44 @@ private:
             data_.ref_to_alloc() = std::move(other.data_.ref_to_alloc());
         }
 
-        data_.ref_to_equal() = other.data_.ref_to_equal();
-
-        if (other.data_.first_ == other.data_.internal_storage())
-        {
-            assign_range
-            (
-                std::make_move_iterator(other.data_.first_),
-                std::make_move_iterator(other.data_.last_)
-            );
-        }
-        else if (data_.ref_to_alloc() == other.data_.ref_to_alloc())
+        SFL_TRY
         {
-            reset();
+            data_.ref_to_equal() = other.data_.ref_to_equal();
 
-            data_.first_ = other.data_.first_;
-            data_.last_  = other.data_.last_;
-            data_.eos_   = other.data_.eos_;
+            if (other.data_.first_ == other.data_.internal_storage())
+            {
+                assign_range
+                (
+                    std::make_move_iterator(other.data_.first_),
+                    std::make_move_iterator(other.data_.last_)
+                );
+            }
+            else if (data_.ref_to_alloc() == other.data_.ref_to_alloc())
+            {
+                reset();
 
-            other.data_.first_ = nullptr;
-            other.data_.last_  = nullptr;
-            other.data_.eos_   = nullptr;
+                data_.first_ = other.data_.first_;
+                data_.last_  = other.data_.last_;
+                data_.eos_   = other.data_.eos_;
+
+                other.data_.first_ = nullptr;
+                other.data_.last_  = nullptr;
+                other.data_.eos_   = nullptr;
+            }
+            else
+            {
+                assign_range
+                (
+                    std::make_move_iterator(other.data_.first_),
+                    std::make_move_iterator(other.data_.last_)
+                );
+            }
         }
-        else
+        SFL_CATCH (...)
         {
-            assign_range
-            (
-                std::make_move_iterator(other.data_.first_),
-                std::make_move_iterator(other.data_.last_)
-            );
+            // Elements can be in the wrong order or duplicated.
+            clear();
+            SFL_RETHROW;
         }
     }
 
diff --git a/include/sfl/static_flat_map.hpp b/include/sfl/static_flat_map.hpp
index 2e1beb8..ee06ed5 100644
--- a/include/sfl/static_flat_map.hpp
+++ b/include/sfl/static_flat_map.hpp
@@ -278,13 +278,22 @@ public:
     {
         if (this != &other)
         {
-            data_.ref_to_comp() = other.data_.ref_to_comp();
+            SFL_TRY
+            {
+                data_.ref_to_comp() = other.data_.ref_to_comp();
 
-            assign_range
-            (
-                pointer(other.data_.first_),
-                pointer(other.data_.last_)
-            );
+                assign_range
+                (
+                    pointer(other.data_.first_),
+                    pointer(other.data_.last_)
+                );
+            }
+            SFL_CATCH (...)
+            {
+                // Elements can be in the wrong order or duplicated.
+                clear();
+                SFL_RETHROW;
+            }
         }
 
         return *this;
@@ -292,13 +301,22 @@ public:
 
     static_flat_map& operator=(static_flat_map&& other)
     {
-        data_.ref_to_comp() = other.data_.ref_to_comp();
+        SFL_TRY
+        {
+            data_.ref_to_comp() = other.data_.ref_to_comp();
 
-        assign_range
-        (
-            std::make_move_iterator(pointer(other.data_.first_)),
-            std::make_move_iterator(pointer(other.data_.last_))
-        );
+            assign_range
+            (
+                std::make_move_iterator(pointer(other.data_.first_)),
+                std::make_move_iterator(pointer(other.data_.last_))
+            );
+        }
+        SFL_CATCH (...)
+        {
+            // Elements can be in the wrong order or duplicated.
+            clear();
+            SFL_RETHROW;
+        }
 
         return *this;
     }
diff --git a/include/sfl/static_flat_multimap.hpp b/include/sfl/static_flat_multimap.hpp
index b0355d5..4705f7d 100644
--- a/include/sfl/static_flat_multimap.hpp
+++ b/include/sfl/static_flat_multimap.hpp
@@ -278,13 +278,22 @@ public:
     {
         if (this != &other)
         {
-            data_.ref_to_comp() = other.data_.ref_to_comp();
+            SFL_TRY
+            {
+                data_.ref_to_comp() = other.data_.ref_to_comp();
 
-            assign_range
-            (
-                pointer(other.data_.first_),
-                pointer(other.data_.last_)
-            );
+                assign_range
+                (
+                    pointer(other.data_.first_),
+                    pointer(other.data_.last_)
+                );
+            }
+            SFL_CATCH (...)
+            {
+                // Elements can be in the wrong order or duplicated.
+                clear();
+                SFL_RETHROW;
+            }
         }
 
         return *this;
@@ -292,13 +301,22 @@ public:
 
     static_flat_multimap& operator=(static_flat_multimap&& other)
     {
-        data_.ref_to_comp() = other.data_.ref_to_comp();
+        SFL_TRY
+        {
+            data_.ref_to_comp() = other.data_.ref_to_comp();
 
-        assign_range
-        (
-            std::make_move_iterator(pointer(other.data_.first_)),
-            std::make_move_iterator(pointer(other.data_.last_))
-        );
+            assign_range
+            (
+                std::make_move_iterator(pointer(other.data_.first_)),
+                std::make_move_iterator(pointer(other.data_.last_))
+            );
+        }
+        SFL_CATCH (...)
+        {
+            // Elements can be in the wrong order or duplicated.
+            clear();
+            SFL_RETHROW;
+        }
 
         return *this;
     }
diff --git a/include/sfl/static_flat_multiset.hpp b/include/sfl/static_flat_multiset.hpp
index c837b44..0b27e84 100644
--- a/include/sfl/static_flat_multiset.hpp
+++ b/include/sfl/static_flat_multiset.hpp
@@ -224,13 +224,22 @@ public:
     {
         if (this != &other)
         {
-            data_.ref_to_comp() = other.data_.ref_to_comp();
+            SFL_TRY
+            {
+                data_.ref_to_comp() = other.data_.ref_to_comp();
 
-            assign_range
-            (
-                pointer(other.data_.first_),
-                pointer(other.data_.last_)
-            );
+                assign_range
+                (
+                    pointer(other.data_.first_),
+                    pointer(other.data_.last_)
+                );
+            }
+            SFL_CATCH (...)
+            {
+                // Elements can be in the wrong order or duplicated.
+                clear();
+                SFL_RETHROW;
+            }
         }
 
         return *this;
@@ -238,13 +247,22 @@ public:
 
     static_flat_multiset& operator=(static_flat_multiset&& other)
     {
-        data_.ref_to_comp() = other.data_.ref_to_comp();
+        SFL_TRY
+        {
+            data_.ref_to_comp() = other.data_.ref_to_comp();
 
-        assign_range
-        (
-            std::make_move_iterator(pointer(other.data_.first_)),
-            std::make_move_iterator(pointer(other.data_.last_))
-        );
+            assign_range
+            (
+                std::make_move_iterator(pointer(other.data_.first_)),
+                std::make_move_iterator(pointer(other.data_.last_))
+            );
+        }
+        SFL_CATCH (...)
+        {
+            // Elements can be in the wrong order or duplicated.
+            clear();
+            SFL_RETHROW;
+        }
 
         return *this;
     }
diff --git a/include/sfl/static_flat_set.hpp b/include/sfl/static_flat_set.hpp
index 2c1b513..31b6164 100644
--- a/include/sfl/static_flat_set.hpp
+++ b/include/sfl/static_flat_set.hpp
@@ -224,13 +224,22 @@ public:
     {
         if (this != &other)
         {
-            data_.ref_to_comp() = other.data_.ref_to_comp();
+            SFL_TRY
+            {
+                data_.ref_to_comp() = other.data_.ref_to_comp();
 
-            assign_range
-            (
-                pointer(other.data_.first_),
-                pointer(other.data_.last_)
-            );
+                assign_range
+                (
+                    pointer(other.data_.first_),
+                    pointer(other.data_.last_)
+                );
+            }
+            SFL_CATCH (...)
+            {
+                // Elements can be in the wrong order or duplicated.
+                clear();
+                SFL_RETHROW;
+            }
         }
 
         return *this;
@@ -238,13 +247,22 @@ public:
 
     static_flat_set& operator=(static_flat_set&& other)
     {
-        data_.ref_to_comp() = other.data_.ref_to_comp();
+        SFL_TRY
+        {
+            data_.ref_to_comp() = other.data_.ref_to_comp();
 
-        assign_range
-        (
-            std::make_move_iterator(pointer(other.data_.first_)),
-            std::make_move_iterator(pointer(other.data_.last_))
-        );
+            assign_range
+            (
+                std::make_move_iterator(pointer(other.data_.first_)),
+                std::make_move_iterator(pointer(other.data_.last_))
+            );
+        }
+        SFL_CATCH (...)
+        {
+            // Elements can be in the wrong order or duplicated.
+            clear();
+            SFL_RETHROW;
+        }
 
         return *this;
     }
diff --git a/include/sfl/static_unordered_flat_map.hpp b/include/sfl/static_unordered_flat_map.hpp
index f7a1886..4fe8a5b 100644
--- a/include/sfl/static_unordered_flat_map.hpp
+++ b/include/sfl/static_unordered_flat_map.hpp
@@ -276,13 +276,22 @@ public:
     {
         if (this != &other)
         {
-            data_.ref_to_equal() = other.data_.ref_to_equal();
+            SFL_TRY
+            {
+                data_.ref_to_equal() = other.data_.ref_to_equal();
 
-            assign_range
-            (
-                pointer(other.data_.first_),
-                pointer(other.data_.last_)
-            );
+                assign_range
+                (
+                    pointer(other.data_.first_),
+                    pointer(other.data_.last_)
+                );
+            }
+            SFL_CATCH (...)
+            {
+                // Elements can be in the wrong order or duplicated.
+                clear();
+                SFL_RETHROW;
+            }
         }
 
         return *this;
@@ -290,13 +299,22 @@ public:
 
     static_unordered_flat_map& operator=(static_unordered_flat_map&& other)
     {
-        data_.ref_to_equal() = other.data_.ref_to_equal();
+        SFL_TRY
+        {
+            data_.ref_to_equal() = other.data_.ref_to_equal();
 
-        assign_range
-        (
-            std::make_move_iterator(pointer(other.data_.first_)),
-            std::make_move_iterator(pointer(other.data_.last_))
-        );
+            assign_range
+            (
+                std::make_move_iterator(pointer(other.data_.first_)),
+                std::make_move_iterator(pointer(other.data_.last_))
+            );
+        }
+        SFL_CATCH (...)
+        {
+            // Elements can be in the wrong order or duplicated.
+            clear();
+            SFL_RETHROW;
+        }
 
         return *this;
     }
diff --git a/include/sfl/static_unordered_flat_set.hpp b/include/sfl/static_unordered_flat_set.hpp
index cc4760d..51585aa 100644
--- a/include/sfl/static_unordered_flat_set.hpp
+++ b/include/sfl/static_unordered_flat_set.hpp
@@ -221,13 +221,22 @@ public:
     {
         if (this != &other)
         {
-            data_.ref_to_equal() = other.data_.ref_to_equal();
+            SFL_TRY
+            {
+                data_.ref_to_equal() = other.data_.ref_to_equal();
 
-            assign_range
-            (
-                pointer(other.data_.first_),
-                pointer(other.data_.last_)
-            );
+                assign_range
+                (
+                    pointer(other.data_.first_),
+                    pointer(other.data_.last_)
+                );
+            }
+            SFL_CATCH (...)
+            {
+                // Elements can be in the wrong order or duplicated.
+                clear();
+                SFL_RETHROW;
+            }
         }
 
         return *this;
@@ -235,13 +244,22 @@ public:
 
     static_unordered_flat_set& operator=(static_unordered_flat_set&& other)
     {
-        data_.ref_to_equal() = other.data_.ref_to_equal();
+        SFL_TRY
+        {
+            data_.ref_to_equal() = other.data_.ref_to_equal();
 
-        assign_range
-        (
-            std::make_move_iterator(pointer(other.data_.first_)),
-            std::make_move_iterator(pointer(other.data_.last_))
-        );
+            assign_range
+            (
+                std::make_move_iterator(pointer(other.data_.first_)),
+                std::make_move_iterator(pointer(other.data_.last_))
+            );
+        }
+        SFL_CATCH (...)
+        {
+            // Elements can be in the wrong order or duplicated.
+            clear();
+            SFL_RETHROW;
+        }
 
         return *this;
     }
-- 
2.43.0


From 060787f197fc2bc225166aba858b934aff0bcb07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:57 +0000
Subject: [PATCH 17/18] fix: segmented_devector range insertion computes an
 iterator before the first segment only when it exists

---
 include/sfl/segmented_devector.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/sfl/segmented_devector.hpp b/include/sfl/segmented_devector.hpp
index 28ae48b..ea8a83b 100644
--- a/include/sfl/segmented_devector.hpp
+++ b/include/sfl/segmented_devector.hpp
@@ -2429,10 +2429,11 @@ private:
             }
 
             const iterator p1 = data_.first_ + dist_to_begin;
-            const iterator p2 = data_.last_ - n;
 
             if (dist_to_end > n)
             {
+                const iterator p2 = data_.last_ - n;
+
                 const iterator old_last = data_.last_;
 
                 data_.last_ = sfl::dtl::uninitialized_move_a
-- 
2.43.0


From 0e65f41acf3cdd9d0e53a88e088eab40b08b1779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:12 +0000
Subject: [PATCH 18/18] fix: insert of a single-pass range shifts the elements
 behind it once, not once per item

The documented complexity of insert(pos, first, last) is linear in the length of
the range plus linear in the distance from pos to the end. For input iterators
every item was inserted on its own, which is the product of the two. The items
are appended (or, in the two-ended containers, prepended when pos is nearer to
the front) and rotated into place.
---
 include/sfl/devector.hpp           | 26 ++++++++++++++++++++++----
 include/sfl/segmented_devector.hpp | 30 ++++++++++++++++++++++++------
 include/sfl/segmented_vector.hpp   | 10 ++++++----
 include/sfl/small_vector.hpp       |  6 ++++--
 include/sfl/static_vector.hpp      |  6 ++++--
 include/sfl/vector.hpp             |  6 ++++--
 6 files changed, 64 insertions(+), 20 deletions(-)

diff --git a/include/sfl/devector.hpp b/include/sfl/devector.hpp
index 781a3fa..3637c9c 100644
--- a/include/sfl/devector.hpp
+++ b/include/sfl/devector.hpp
@@ -4075,12 +4075,30 @@ private:
     iterator insert_range(const_iterator pos, InputIt first, InputIt last)
     {
         const difference_type offset = std::distance(cbegin(), pos);
+        const difference_type size = std::distance(cbegin(), cend());
 
-        while (first != last)
+        if (offset < size - offset)
         {
-            pos = insert(pos, *first);
-            ++pos;
-            ++first;
+            while (first != last)
+            {
+                emplace_front(*first);
+                ++first;
+            }
+
+            const iterator mid = end() - size;
+
+            std::reverse(begin(), mid);
+            std::rotate(begin(), mid, mid + offset);
+        }
+        else
+        {
+            while (first != last)
+            {
+                emplace_back(*first);
+                ++first;
+            }
+
+            std::rotate(begin() + offset, begin() + size, end());
         }
 
         return begin() + offset;
diff --git a/include/sfl/segmented_devector.hpp b/include/sfl/segmented_devector.hpp
index ea8a83b..175b996 100644
--- a/include/sfl/segmented_devector.hpp
+++ b/include/sfl/segmented_devector.hpp
@@ -2312,16 +2312,34 @@ private:
               sfl::dtl::enable_if_t<sfl::dtl::is_exactly_input_iterator<InputIt>::value>* = nullptr>
     iterator insert_range(const_iterator pos, InputIt first, InputIt last)
     {
-        const size_type offset = std::distance(cbegin(), pos);
+        const difference_type offset = std::distance(cbegin(), pos);
+        const difference_type size = std::distance(cbegin(), cend());
 
-        while (first != last)
+        if (offset < size - offset)
         {
-            pos = insert(pos, *first);
-            ++pos;
-            ++first;
+            while (first != last)
+            {
+                emplace_front(*first);
+                ++first;
+            }
+
+            const iterator mid = end() - size;
+
+            std::reverse(begin(), mid);
+            std::rotate(begin(), mid, mid + offset);
+        }
+        else
+        {
+            while (first != last)
+            {
+                emplace_back(*first);
+                ++first;
+            }
+
+            std::rotate(begin() + offset, begin() + size, end());
         }
 
-        return nth(offset);
+        return begin() + offset;
     }
 
     template <typename ForwardIt,
diff --git a/include/sfl/segmented_vector.hpp b/include/sfl/segmented_vector.hpp
index 7bb99c8..4af885c 100644
--- a/include/sfl/segmented_vector.hpp
+++ b/include/sfl/segmented_vector.hpp
@@ -1612,16 +1612,18 @@ private:
               sfl::dtl::enable_if_t<sfl::dtl::is_exactly_input_iterator<InputIt>::value>* = nullptr>
     iterator insert_range(const_iterator pos, InputIt first, InputIt last)
     {
-        const size_type offset = std::distance(cbegin(), pos);
+        const difference_type offset = std::distance(cbegin(), pos);
+        const difference_type size = std::distance(cbegin(), cend());
 
         while (first != last)
         {
-            pos = insert(pos, *first);
-            ++pos;
+            emplace_back(*first);
             ++first;
         }
 
-        return nth(offset);
+        std::rotate(begin() + offset, begin() + size, end());
+
+        return begin() + offset;
     }
 
     template <typename ForwardIt,
diff --git a/include/sfl/small_vector.hpp b/include/sfl/small_vector.hpp
index 486b68a..673d717 100644
--- a/include/sfl/small_vector.hpp
+++ b/include/sfl/small_vector.hpp
@@ -2248,14 +2248,16 @@ private:
     iterator insert_range(const_iterator pos, InputIt first, InputIt last)
     {
         const difference_type offset = std::distance(cbegin(), pos);
+        const difference_type size = std::distance(cbegin(), cend());
 
         while (first != last)
         {
-            pos = insert(pos, *first);
-            ++pos;
+            emplace_back(*first);
             ++first;
         }
 
+        std::rotate(begin() + offset, begin() + size, end());
+
         return begin() + offset;
     }
 
diff --git a/include/sfl/static_vector.hpp b/include/sfl/static_vector.hpp
index c993413..2802b0c 100644
--- a/include/sfl/static_vector.hpp
+++ b/include/sfl/static_vector.hpp
@@ -705,14 +705,16 @@ public:
     iterator insert(const_iterator pos, InputIt first, InputIt last)
     {
         const difference_type offset = std::distance(cbegin(), pos);
+        const difference_type size = std::distance(cbegin(), cend());
 
         while (first != last)
         {
-            pos = emplace(pos, *first);
-            ++pos;
+            emplace_back(*first);
             ++first;
         }
 
+        std::rotate(begin() + offset, begin() + size, end());
+
         return begin() + offset;
     }
 
diff --git a/include/sfl/vector.hpp b/include/sfl/vector.hpp
index 19cfd0b..eddd1ae 100644
--- a/include/sfl/vector.hpp
+++ b/include/sfl/vector.hpp
@@ -1810,14 +1810,16 @@ private:
     iterator insert_range(const_iterator pos, InputIt first, InputIt last)
     {
         const difference_type offset = std::distance(cbegin(), pos);
+        const difference_type size = std::distance(cbegin(), cend());
 
         while (first != last)
         {
-            pos = insert(pos, *first);
-            ++pos;
+            emplace_back(*first);
             ++first;
         }
 
+        std::rotate(begin() + offset, begin() + size, end());
+
         return begin() + offset;
     }
 
-- 
2.43.0

