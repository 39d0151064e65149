From 839982918c1dc4ea8dd863c48391a8e4157a1932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:36 +0000
Subject: [PATCH 01/53] fix: small_vector::max_size passes the allocator to
 allocator_traits

---
 include/itlib/small_vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/itlib/small_vector.hpp b/include/itlib/small_vector.hpp
index 30992db..72779bd 100644
--- a/include/itlib/small_vector.hpp
+++ b/include/itlib/small_vector.hpp
@@ -466,7 +466,7 @@ public:
 
     size_t max_size() const noexcept
     {
-        return atraits::max_size();
+        return atraits::max_size(get_alloc());
     }
 
     void reserve(size_type new_cap)
-- 
2.43.0


From 2bf5db7463138abf15aa205fd33e876903c296ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:36 +0000
Subject: [PATCH 02/53] fix: small_vector includes what it uses in every
 configuration

---
 include/itlib/small_vector.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/itlib/small_vector.hpp b/include/itlib/small_vector.hpp
index 72779bd..fbfe48b 100644
--- a/include/itlib/small_vector.hpp
+++ b/include/itlib/small_vector.hpp
@@ -153,8 +153,13 @@
 #pragma once
 
 #include <type_traits>
+#include <cassert>
 #include <cstddef>
+#include <cstdint>
+#include <initializer_list>
+#include <iterator>
 #include <memory>
+#include <utility>
 
 #define ITLIB_SMALL_VECTOR_ERROR_HANDLING_NONE  0
 #define ITLIB_SMALL_VECTOR_ERROR_HANDLING_THROW 1
-- 
2.43.0


From a35d604ff05082b3ea8b951d2c382c9777529363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:36 +0000
Subject: [PATCH 03/53] fix: small_vector: inserting nothing does not touch
 live elements

---
 include/itlib/small_vector.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/itlib/small_vector.hpp b/include/itlib/small_vector.hpp
index fbfe48b..8615a3c 100644
--- a/include/itlib/small_vector.hpp
+++ b/include/itlib/small_vector.hpp
@@ -767,6 +767,8 @@ private:
 
         I_ITLIB_SMALL_VECTOR_OUT_OF_RANGE_IF(position < m_begin || position > m_end);
 
+        if (num == 0) return position; // no hole to make
+
         const auto s = size();
         const auto cdr = choose_data(s + num);
 
-- 
2.43.0


From b09f87b7148f683e926928193b98ec016dfc311c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:36 +0000
Subject: [PATCH 04/53] fix: small_vector: erasing an empty range does not
 touch live elements

---
 include/itlib/small_vector.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/itlib/small_vector.hpp b/include/itlib/small_vector.hpp
index 8615a3c..8a32626 100644
--- a/include/itlib/small_vector.hpp
+++ b/include/itlib/small_vector.hpp
@@ -832,6 +832,8 @@ private:
 
         I_ITLIB_SMALL_VECTOR_OUT_OF_RANGE_IF(position < m_begin || position > m_end || position + num > m_end);
 
+        if (num == 0) return position; // nothing to remove
+
         const auto s = size();
         if (s - num == 0)
         {
-- 
2.43.0


From 60984d281a7b51a508183e7b04691dd7e0e34a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:36 +0000
Subject: [PATCH 05/53] fix: small_vector::shrink_to_fit reverts to the static
 buffer whenever the elements fit

---
 include/itlib/small_vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/itlib/small_vector.hpp b/include/itlib/small_vector.hpp
index 8a32626..273ed55 100644
--- a/include/itlib/small_vector.hpp
+++ b/include/itlib/small_vector.hpp
@@ -524,7 +524,7 @@ public:
         auto old_end = m_end;
         auto old_cap = m_capacity;
 
-        if (s < StaticCapacity)
+        if (s <= StaticCapacity)
         {
             // revert to static capacity
             m_begin = m_end = static_begin_ptr();
-- 
2.43.0


From bc84c00f28c62b997bbd653c516eb4e69c6b67a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:36 +0000
Subject: [PATCH 06/53] fix: small_vector::resize reverts to the static buffer
 when shrinking below RevertToStaticBelow, as documented

---
 include/itlib/small_vector.hpp | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/include/itlib/small_vector.hpp b/include/itlib/small_vector.hpp
index 273ed55..b4d6c5c 100644
--- a/include/itlib/small_vector.hpp
+++ b/include/itlib/small_vector.hpp
@@ -679,15 +679,17 @@ public:
 
     void resize(size_type n, const value_type& v)
     {
+        if (n < size())
+        {
+            // may revert to static
+            shrink_at(m_begin + n, size() - n);
+            return;
+        }
+
         reserve(n);
 
         auto new_end = m_begin + n;
 
-        while (m_end > new_end)
-        {
-            atraits::destroy(get_alloc(), --m_end);
-        }
-
         while (new_end > m_end)
         {
             atraits::construct(get_alloc(), m_end++, v);
@@ -696,15 +698,17 @@ public:
 
     void resize(size_type n)
     {
+        if (n < size())
+        {
+            // may revert to static
+            shrink_at(m_begin + n, size() - n);
+            return;
+        }
+
         reserve(n);
 
         auto new_end = m_begin + n;
 
-        while (m_end > new_end)
-        {
-            atraits::destroy(get_alloc(), --m_end);
-        }
-
         while (new_end > m_end)
         {
             atraits::construct(get_alloc(), m_end++);
-- 
2.43.0


From d149e7ffd22ff0502b68d3c297c0d9fe585bbac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:26 +0000
Subject: [PATCH 07/53] fix: small_vector: a throwing allocation or element
 constructor in an assignment doesn't corrupt the vector

---
 include/itlib/small_vector.hpp | 48 +++++++++++++++-------------------
 1 file changed, 21 insertions(+), 27 deletions(-)

diff --git a/include/itlib/small_vector.hpp b/include/itlib/small_vector.hpp
index b4d6c5c..fa0af6a 100644
--- a/include/itlib/small_vector.hpp
+++ b/include/itlib/small_vector.hpp
@@ -737,6 +737,7 @@ private:
         {
             atraits::destroy(get_alloc(), p);
         }
+        m_end = m_begin;
     }
 
     void take_impl(small_vector& v)
@@ -904,20 +905,13 @@ private:
     {
         const auto cdr = choose_data(count);
 
-        m_end = cdr.ptr;
+        switch_to(cdr);
+
         for (size_t i=0; i<count; ++i)
         {
             atraits::construct(get_alloc(), m_end, value);
             ++m_end;
         }
-
-        if (!is_static() && m_begin != cdr.ptr)
-        {
-            atraits::deallocate(get_alloc(), m_begin, m_capacity);
-        }
-
-        m_begin = cdr.ptr;
-        m_capacity = cdr.cap;
     }
 
     template <class InputIterator>
@@ -925,20 +919,13 @@ private:
     {
         const auto cdr = choose_data(last - first);
 
-        m_end = cdr.ptr;
+        switch_to(cdr);
+
         for (auto p = first; p != last; ++p)
         {
             atraits::construct(get_alloc(), m_end, *p);
             ++m_end;
         }
-
-        if (!is_static() && m_begin != cdr.ptr)
-        {
-            atraits::deallocate(get_alloc(), m_begin, m_capacity);
-        }
-
-        m_begin = cdr.ptr;
-        m_capacity = cdr.cap;
     }
 
     template <class InputIterator>
@@ -946,20 +933,13 @@ private:
     {
         const auto cdr = choose_data(last - first);
 
-        m_end = cdr.ptr;
+        switch_to(cdr);
+
         for (auto p = first; p != last; ++p)
         {
             atraits::construct(get_alloc(), m_end, std::move(*p));
             ++m_end;
         }
-
-        if (!is_static() && m_begin != cdr.ptr)
-        {
-            atraits::deallocate(get_alloc(), m_begin, m_capacity);
-        }
-
-        m_begin = cdr.ptr;
-        m_capacity = cdr.cap;
     }
 
     struct choose_data_result {
@@ -1010,6 +990,20 @@ private:
         return ret;
     }
 
+    // make the vector an empty one over the chosen buffer, so it's valid if
+    // constructing elements in it throws
+    // only called when there are no live elements
+    void switch_to(const choose_data_result& cdr)
+    {
+        if (!is_static() && m_begin != cdr.ptr)
+        {
+            atraits::deallocate(get_alloc(), m_begin, m_capacity);
+        }
+
+        m_begin = m_end = cdr.ptr;
+        m_capacity = cdr.cap;
+    }
+
     allocator_type& get_alloc() { return *this; }
     const allocator_type& get_alloc() const { return *this; }
 
-- 
2.43.0


From 28a4c62505901a824eda9adea6f7c464596cb607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:27 +0000
Subject: [PATCH 08/53] fix: small_vector::resize doesn't count an element
 whose constructor threw

---
 include/itlib/small_vector.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/itlib/small_vector.hpp b/include/itlib/small_vector.hpp
index fa0af6a..0e92bfa 100644
--- a/include/itlib/small_vector.hpp
+++ b/include/itlib/small_vector.hpp
@@ -692,7 +692,8 @@ public:
 
         while (new_end > m_end)
         {
-            atraits::construct(get_alloc(), m_end++, v);
+            atraits::construct(get_alloc(), m_end, v);
+            ++m_end;
         }
     }
 
@@ -711,7 +712,8 @@ public:
 
         while (new_end > m_end)
         {
-            atraits::construct(get_alloc(), m_end++);
+            atraits::construct(get_alloc(), m_end);
+            ++m_end;
         }
     }
 
-- 
2.43.0


From 49ebf3a0a0163ccd2d96b8380fa0023e8218b060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:00 +0000
Subject: [PATCH 09/53] fix: static_vector: erasing an empty range does not
 touch live elements

---
 include/itlib/static_vector.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/itlib/static_vector.hpp b/include/itlib/static_vector.hpp
index bf36868..2b9ab2b 100644
--- a/include/itlib/static_vector.hpp
+++ b/include/itlib/static_vector.hpp
@@ -644,6 +644,7 @@ private:
         I_ITLIB_STATIC_VECTOR_BOUNDS_CHECK_ITER(cp);
 
         auto position = const_cast<T*>(cp);
+        if (num == 0) return position;
 
         const auto s = size();
         if (s - num == 0)
-- 
2.43.0


From 76996b3b661c0a2b8adcaac8f603f157c14d9fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:04 +0000
Subject: [PATCH 10/53] fix: static_vector: the capacity check of insert can't
 be bypassed by overflow

---
 include/itlib/static_vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/itlib/static_vector.hpp b/include/itlib/static_vector.hpp
index 2b9ab2b..a532ab2 100644
--- a/include/itlib/static_vector.hpp
+++ b/include/itlib/static_vector.hpp
@@ -622,7 +622,7 @@ private:
     }
 
     T* grow_at(const T* cp, size_t by) {
-        I_ITLIB_STATIC_VECTOR_OUT_OF_RANGE_IF(size() + by > Capacity);
+        I_ITLIB_STATIC_VECTOR_OUT_OF_RANGE_IF(by > Capacity - size());
         I_ITLIB_STATIC_VECTOR_BOUNDS_CHECK_ITER(cp);
 
         auto position = const_cast<T*>(cp);
-- 
2.43.0


From 9a2e0f71c14836cf7215cc422fc64de5b426b779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:08 +0000
Subject: [PATCH 11/53] fix: static_vector: elements are destroyed if a
 constructor throws midway

---
 include/itlib/static_vector.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/itlib/static_vector.hpp b/include/itlib/static_vector.hpp
index a532ab2..cd5b234 100644
--- a/include/itlib/static_vector.hpp
+++ b/include/itlib/static_vector.hpp
@@ -185,27 +185,32 @@ public:
     static_vector(allocator_type) {}
 
     explicit static_vector(size_t count, allocator_type = {})
+        : static_vector()
     {
         resize(count);
     }
 
     static_vector(size_t count, const T& value, allocator_type = {})
+        : static_vector()
     {
         assign_impl_val(count, value);
     }
 
     template <class InputIterator, typename = decltype(*std::declval<InputIterator>())>
     static_vector(InputIterator first, InputIterator last, allocator_type = {})
+        : static_vector()
     {
         assign_impl_iter(first, last);
     }
 
     static_vector(std::initializer_list<T> l, allocator_type = {})
+        : static_vector()
     {
         assign_impl_ilist(l);
     }
 
     static_vector(const static_vector& v)
+        : static_vector()
     {
         for (const auto& i : v)
         {
@@ -215,6 +220,7 @@ public:
 
     template <size_t CapacityB>
     static_vector(const static_vector<T, CapacityB>& v)
+        : static_vector()
     {
         I_ITLIB_STATIC_VECTOR_OUT_OF_RANGE_IF(v.size() > Capacity);
 
@@ -225,6 +231,7 @@ public:
     }
 
     static_vector(static_vector&& v) noexcept(std::is_nothrow_move_constructible<T>::value)
+        : static_vector()
     {
         for (auto i = v.begin(); i != v.end(); ++i)
         {
-- 
2.43.0


From 50045a67be24e9f15beea48457ed103ffa491b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:11 +0000
Subject: [PATCH 12/53] fix: static_vector includes what it uses in every
 configuration

---
 include/itlib/static_vector.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/itlib/static_vector.hpp b/include/itlib/static_vector.hpp
index cd5b234..85f2b00 100644
--- a/include/itlib/static_vector.hpp
+++ b/include/itlib/static_vector.hpp
@@ -114,8 +114,12 @@
 #pragma once
 
 #include <type_traits>
+#include <cassert>
 #include <cstddef>
+#include <initializer_list>
 #include <iterator>
+#include <new>
+#include <utility>
 
 #define ITLIB_STATIC_VECTOR_ERROR_HANDLING_NONE  0
 #define ITLIB_STATIC_VECTOR_ERROR_HANDLING_THROW 1
-- 
2.43.0


From 6af5b82af964a23fd59c1e79a15b5aaff4532c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:14 +0000
Subject: [PATCH 13/53] fix: static_vector: move assignment constructs
 elements, so its noexcept depends on that

---
 include/itlib/static_vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/itlib/static_vector.hpp b/include/itlib/static_vector.hpp
index 85f2b00..beb57d3 100644
--- a/include/itlib/static_vector.hpp
+++ b/include/itlib/static_vector.hpp
@@ -266,7 +266,7 @@ public:
         return *this;
     }
 
-    static_vector& operator=(static_vector&& v) noexcept(std::is_nothrow_move_assignable<T>::value)
+    static_vector& operator=(static_vector&& v) noexcept(std::is_nothrow_move_constructible<T>::value)
     {
         clear();
         for (auto i = v.begin(); i!=v.end(); ++i)
-- 
2.43.0


From e346c46252efa001e8f2f8eff56c7f60bc1e7703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:41 +0000
Subject: [PATCH 14/53] fix: small_vector: an element constructor which throws
 on insertion doesn't leave uninitialized memory counted as elements

---
 include/itlib/small_vector.hpp | 95 +++++++++++++++++++++++-----------
 1 file changed, 65 insertions(+), 30 deletions(-)

diff --git a/include/itlib/small_vector.hpp b/include/itlib/small_vector.hpp
index 0e92bfa..69b755e 100644
--- a/include/itlib/small_vector.hpp
+++ b/include/itlib/small_vector.hpp
@@ -587,58 +587,59 @@ public:
 
     iterator insert(const_iterator position, const value_type& val)
     {
-        auto pos = grow_at(position, 1);
-        atraits::construct(get_alloc(), pos, val);
-        return pos;
+        hole_filler hole(*this, grow_at(position, 1), 1);
+        atraits::construct(get_alloc(), hole.cur, val);
+        ++hole.cur;
+        return hole.begin;
     }
 
     iterator insert(const_iterator position, value_type&& val)
     {
-        auto pos = grow_at(position, 1);
-        atraits::construct(get_alloc(), pos, std::move(val));
-        return pos;
+        hole_filler hole(*this, grow_at(position, 1), 1);
+        atraits::construct(get_alloc(), hole.cur, std::move(val));
+        ++hole.cur;
+        return hole.begin;
     }
 
     iterator insert(const_iterator position, size_type count, const value_type& val)
     {
-        auto pos = grow_at(position, count);
-        for (size_type i = 0; i < count; ++i)
+        hole_filler hole(*this, grow_at(position, count), count);
+        for (; hole.cur != hole.end; ++hole.cur)
         {
-            atraits::construct(get_alloc(), pos + i, val);
+            atraits::construct(get_alloc(), hole.cur, val);
         }
-        return pos;
+        return hole.begin;
     }
 
     template <typename InputIterator, typename = decltype(*std::declval<InputIterator>())>
     iterator insert(const_iterator position, InputIterator first, InputIterator last)
     {
-        auto pos = grow_at(position, last - first);
-        auto np = pos;
-        for (auto p = first; p != last; ++p, ++np)
+        hole_filler hole(*this, grow_at(position, last - first), last - first);
+        for (auto p = first; p != last; ++p, ++hole.cur)
         {
-            atraits::construct(get_alloc(), np, *p);
+            atraits::construct(get_alloc(), hole.cur, *p);
         }
-        return pos;
+        return hole.begin;
     }
 
     iterator insert(const_iterator position, std::initializer_list<T> ilist)
     {
-        auto pos = grow_at(position, ilist.size());
-        size_type i = 0;
+        hole_filler hole(*this, grow_at(position, ilist.size()), ilist.size());
         for (auto& elem : ilist)
         {
-            atraits::construct(get_alloc(), pos + i, std::move(elem));
-            ++i;
+            atraits::construct(get_alloc(), hole.cur, std::move(elem));
+            ++hole.cur;
         }
-        return pos;
+        return hole.begin;
     }
 
     template<typename... Args>
     iterator emplace(const_iterator position, Args&&... args)
     {
-        auto pos = grow_at(position, 1);
-        atraits::construct(get_alloc(), pos, std::forward<Args>(args)...);
-        return pos;
+        hole_filler hole(*this, grow_at(position, 1), 1);
+        atraits::construct(get_alloc(), hole.cur, std::forward<Args>(args)...);
+        ++hole.cur;
+        return hole.begin;
     }
 
     iterator erase(const_iterator position)
@@ -654,22 +655,25 @@ public:
 
     void push_back(const_reference val)
     {
-        auto pos = grow_at(m_end, 1);
-        atraits::construct(get_alloc(), pos, val);
+        hole_filler hole(*this, grow_at(m_end, 1), 1);
+        atraits::construct(get_alloc(), hole.cur, val);
+        ++hole.cur;
     }
 
     void push_back(T&& val)
     {
-        auto pos = grow_at(m_end, 1);
-        atraits::construct(get_alloc(), pos, std::move(val));
+        hole_filler hole(*this, grow_at(m_end, 1), 1);
+        atraits::construct(get_alloc(), hole.cur, std::move(val));
+        ++hole.cur;
     }
 
     template<typename... Args>
     reference emplace_back(Args&&... args)
     {
-        auto pos = grow_at(m_end, 1);
-        atraits::construct(get_alloc(), pos, std::forward<Args>(args)...);
-        return *pos;
+        hole_filler hole(*this, grow_at(m_end, 1), 1);
+        atraits::construct(get_alloc(), hole.cur, std::forward<Args>(args)...);
+        ++hole.cur;
+        return *hole.begin;
     }
 
     void pop_back()
@@ -833,6 +837,37 @@ private:
         }
     }
 
+    // fills the hole left by grow_at
+    // if constructing an element in the hole throws, there is nothing to put in the rest of it, so
+    // the vector is cut there and remains valid
+    struct hole_filler
+    {
+        hole_filler(small_vector& vec, T* pos, size_t num)
+            : begin(pos), cur(pos), end(pos + num), m_vec(vec)
+        {}
+
+        hole_filler(const hole_filler&) = delete;
+        hole_filler& operator=(const hole_filler&) = delete;
+
+        ~hole_filler()
+        {
+            if (cur == end) return; // filled
+
+            for (auto p = end; p != m_vec.m_end; ++p)
+            {
+                atraits::destroy(m_vec.get_alloc(), p);
+            }
+            m_vec.m_end = cur;
+        }
+
+        T* const begin;
+        T* cur; // everything in [begin, cur) is constructed
+        T* const end;
+
+    private:
+        small_vector& m_vec;
+    };
+
     T* shrink_at(const T* cp, size_t num)
     {
         auto position = const_cast<T*>(cp);
-- 
2.43.0


From e597b4b4a52b365e8f9d0d19bf8de10490b164a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:45 +0000
Subject: [PATCH 15/53] fix: static_vector: an element constructor which throws
 on insertion doesn't leave uninitialized memory counted as elements

---
 include/itlib/static_vector.hpp | 78 +++++++++++++++++++++++----------
 1 file changed, 55 insertions(+), 23 deletions(-)

diff --git a/include/itlib/static_vector.hpp b/include/itlib/static_vector.hpp
index beb57d3..eb28b94 100644
--- a/include/itlib/static_vector.hpp
+++ b/include/itlib/static_vector.hpp
@@ -474,58 +474,59 @@ public:
 
     iterator insert(const_iterator position, const value_type& val)
     {
-        auto pos = grow_at(position, 1);
-        ::new (pos) T(val);
-        return pos;
+        hole_filler hole(*this, grow_at(position, 1), 1);
+        ::new (hole.cur) T(val);
+        ++hole.cur;
+        return hole.begin;
     }
 
     iterator insert(const_iterator position, value_type&& val)
     {
-        auto pos = grow_at(position, 1);
-        ::new (pos) T(std::move(val));
-        return pos;
+        hole_filler hole(*this, grow_at(position, 1), 1);
+        ::new (hole.cur) T(std::move(val));
+        ++hole.cur;
+        return hole.begin;
     }
 
     iterator insert(const_iterator position, size_type count, const value_type& val)
     {
-        auto pos = grow_at(position, count);
-        for (size_type i = 0; i < count; ++i)
+        hole_filler hole(*this, grow_at(position, count), count);
+        for (; hole.cur != hole.end; ++hole.cur)
         {
-            ::new (pos + i) T(val);
+            ::new (hole.cur) T(val);
         }
-        return pos;
+        return hole.begin;
     }
 
     template <typename InputIterator, typename = decltype(*std::declval<InputIterator>())>
     iterator insert(const_iterator position, InputIterator first, InputIterator last)
     {
-        auto pos = grow_at(position, last - first);
-        auto np = pos;
-        for (auto p = first; p != last; ++p, ++np)
+        hole_filler hole(*this, grow_at(position, last - first), last - first);
+        for (auto p = first; p != last; ++p, ++hole.cur)
         {
-            ::new (np) T(*p);
+            ::new (hole.cur) T(*p);
         }
-        return pos;
+        return hole.begin;
     }
 
     iterator insert(const_iterator position, std::initializer_list<T> ilist)
     {
-        auto pos = grow_at(position, ilist.size());
-        size_type i = 0;
+        hole_filler hole(*this, grow_at(position, ilist.size()), ilist.size());
         for (auto& elem : ilist)
         {
-            ::new (pos + i) T(std::move(elem));
-            ++i;
+            ::new (hole.cur) T(std::move(elem));
+            ++hole.cur;
         }
-        return pos;
+        return hole.begin;
     }
 
     template<typename... Args>
     iterator emplace(const_iterator position, Args&&... args)
     {
-        auto pos = grow_at(position, 1);
-        ::new (pos) T(std::forward<Args>(args)...);
-        return pos;
+        hole_filler hole(*this, grow_at(position, 1), 1);
+        ::new (hole.cur) T(std::forward<Args>(args)...);
+        ++hole.cur;
+        return hole.begin;
     }
 
     iterator erase(const_iterator position)
@@ -649,6 +650,37 @@ private:
         return position;
     }
 
+    // fills the hole left by grow_at
+    // if constructing an element in the hole throws, there is nothing to put in the rest of it, so
+    // the vector is cut there and remains valid
+    struct hole_filler
+    {
+        hole_filler(static_vector& vec, T* pos, size_t num)
+            : begin(pos), cur(pos), end(pos + num), m_vec(vec)
+        {}
+
+        hole_filler(const hole_filler&) = delete;
+        hole_filler& operator=(const hole_filler&) = delete;
+
+        ~hole_filler()
+        {
+            if (cur == end) return; // filled
+
+            for (auto p = end; p != m_vec.end(); ++p)
+            {
+                p->~T();
+            }
+            m_vec.m_size = size_t(cur - m_vec.data());
+        }
+
+        T* const begin;
+        T* cur; // everything in [begin, cur) is constructed
+        T* const end;
+
+    private:
+        static_vector& m_vec;
+    };
+
     T* shrink_at(const T* cp, size_t num)
     {
         I_ITLIB_STATIC_VECTOR_OUT_OF_RANGE_IF(num > size());
-- 
2.43.0


From bfb64c4ee83315d20233886d043d8ba09d7c151a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:08 +0000
Subject: [PATCH 16/53] fix: small_vector: adding a copy of an own element
 doesn't read it after it was moved away

---
 include/itlib/small_vector.hpp | 43 ++++++++++++++++++++++++++++++++++
 1 file changed, 43 insertions(+)

diff --git a/include/itlib/small_vector.hpp b/include/itlib/small_vector.hpp
index 69b755e..53f672c 100644
--- a/include/itlib/small_vector.hpp
+++ b/include/itlib/small_vector.hpp
@@ -156,6 +156,7 @@
 #include <cassert>
 #include <cstddef>
 #include <cstdint>
+#include <functional>
 #include <initializer_list>
 #include <iterator>
 #include <memory>
@@ -587,6 +588,8 @@ public:
 
     iterator insert(const_iterator position, const value_type& val)
     {
+        if (owns(val)) return insert(position, value_type(val));
+
         hole_filler hole(*this, grow_at(position, 1), 1);
         atraits::construct(get_alloc(), hole.cur, val);
         ++hole.cur;
@@ -595,6 +598,12 @@ public:
 
     iterator insert(const_iterator position, value_type&& val)
     {
+        if (owns(val))
+        {
+            value_type tmp(std::move(val));
+            return insert(position, std::move(tmp));
+        }
+
         hole_filler hole(*this, grow_at(position, 1), 1);
         atraits::construct(get_alloc(), hole.cur, std::move(val));
         ++hole.cur;
@@ -603,6 +612,12 @@ public:
 
     iterator insert(const_iterator position, size_type count, const value_type& val)
     {
+        if (owns(val))
+        {
+            const value_type tmp(val);
+            return insert(position, count, tmp);
+        }
+
         hole_filler hole(*this, grow_at(position, count), count);
         for (; hole.cur != hole.end; ++hole.cur)
         {
@@ -655,6 +670,12 @@ public:
 
     void push_back(const_reference val)
     {
+        if (owns(val))
+        {
+            push_back(value_type(val));
+            return;
+        }
+
         hole_filler hole(*this, grow_at(m_end, 1), 1);
         atraits::construct(get_alloc(), hole.cur, val);
         ++hole.cur;
@@ -662,6 +683,13 @@ public:
 
     void push_back(T&& val)
     {
+        if (owns(val))
+        {
+            value_type tmp(std::move(val));
+            push_back(std::move(tmp));
+            return;
+        }
+
         hole_filler hole(*this, grow_at(m_end, 1), 1);
         atraits::construct(get_alloc(), hole.cur, std::move(val));
         ++hole.cur;
@@ -690,6 +718,13 @@ public:
             return;
         }
 
+        if (owns(v))
+        {
+            const value_type tmp(v);
+            resize(n, tmp);
+            return;
+        }
+
         reserve(n);
 
         auto new_end = m_begin + n;
@@ -769,6 +804,14 @@ private:
         v.m_capacity = StaticCapacity;
     }
 
+    // check if a value is an element of this vector: adding elements would move it away
+    bool owns(const T& val) const
+    {
+        const std::less<const T*> less = {};
+        const T* const p = std::addressof(val);
+        return !less(p, m_begin) && less(p, m_end);
+    }
+
     // increase the size by splicing the elements in such a way that
     // a hole of uninitialized elements is left at position, with size num
     // returns the (potentially new) address of the hole
-- 
2.43.0


From c1dadcb591f082c2424469112fc4bd5a9d8b9dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:11 +0000
Subject: [PATCH 17/53] fix: static_vector: inserting a copy of an own element
 doesn't read it after it was moved away

---
 include/itlib/static_vector.hpp | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/include/itlib/static_vector.hpp b/include/itlib/static_vector.hpp
index eb28b94..0d44040 100644
--- a/include/itlib/static_vector.hpp
+++ b/include/itlib/static_vector.hpp
@@ -116,8 +116,10 @@
 #include <type_traits>
 #include <cassert>
 #include <cstddef>
+#include <functional>
 #include <initializer_list>
 #include <iterator>
+#include <memory>
 #include <new>
 #include <utility>
 
@@ -474,6 +476,8 @@ public:
 
     iterator insert(const_iterator position, const value_type& val)
     {
+        if (owns(val)) return insert(position, value_type(val));
+
         hole_filler hole(*this, grow_at(position, 1), 1);
         ::new (hole.cur) T(val);
         ++hole.cur;
@@ -482,6 +486,12 @@ public:
 
     iterator insert(const_iterator position, value_type&& val)
     {
+        if (owns(val))
+        {
+            value_type tmp(std::move(val));
+            return insert(position, std::move(tmp));
+        }
+
         hole_filler hole(*this, grow_at(position, 1), 1);
         ::new (hole.cur) T(std::move(val));
         ++hole.cur;
@@ -490,6 +500,12 @@ public:
 
     iterator insert(const_iterator position, size_type count, const value_type& val)
     {
+        if (owns(val))
+        {
+            const value_type tmp(val);
+            return insert(position, count, tmp);
+        }
+
         hole_filler hole(*this, grow_at(position, count), count);
         for (; hole.cur != hole.end; ++hole.cur)
         {
@@ -633,6 +649,14 @@ private:
         }
     }
 
+    // check if a value is an element of this vector: adding elements would move it away
+    bool owns(const T& val) const
+    {
+        const std::less<const T*> less = {};
+        const T* const p = std::addressof(val);
+        return !less(p, begin()) && less(p, end());
+    }
+
     T* grow_at(const T* cp, size_t by) {
         I_ITLIB_STATIC_VECTOR_OUT_OF_RANGE_IF(by > Capacity - size());
         I_ITLIB_STATIC_VECTOR_BOUNDS_CHECK_ITER(cp);
-- 
2.43.0


From 4ad3035fcf831330a877e458cde64f5af2bb9173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:05 +0000
Subject: [PATCH 18/53] fix: static_vector: don't zero the storage when
 delegating constructors

---
 include/itlib/static_vector.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/itlib/static_vector.hpp b/include/itlib/static_vector.hpp
index 0d44040..d3c2dba 100644
--- a/include/itlib/static_vector.hpp
+++ b/include/itlib/static_vector.hpp
@@ -191,32 +191,32 @@ public:
     static_vector(allocator_type) {}
 
     explicit static_vector(size_t count, allocator_type = {})
-        : static_vector()
+        : static_vector(allocator_type{})
     {
         resize(count);
     }
 
     static_vector(size_t count, const T& value, allocator_type = {})
-        : static_vector()
+        : static_vector(allocator_type{})
     {
         assign_impl_val(count, value);
     }
 
     template <class InputIterator, typename = decltype(*std::declval<InputIterator>())>
     static_vector(InputIterator first, InputIterator last, allocator_type = {})
-        : static_vector()
+        : static_vector(allocator_type{})
     {
         assign_impl_iter(first, last);
     }
 
     static_vector(std::initializer_list<T> l, allocator_type = {})
-        : static_vector()
+        : static_vector(allocator_type{})
     {
         assign_impl_ilist(l);
     }
 
     static_vector(const static_vector& v)
-        : static_vector()
+        : static_vector(allocator_type{})
     {
         for (const auto& i : v)
         {
@@ -226,7 +226,7 @@ public:
 
     template <size_t CapacityB>
     static_vector(const static_vector<T, CapacityB>& v)
-        : static_vector()
+        : static_vector(allocator_type{})
     {
         I_ITLIB_STATIC_VECTOR_OUT_OF_RANGE_IF(v.size() > Capacity);
 
@@ -237,7 +237,7 @@ public:
     }
 
     static_vector(static_vector&& v) noexcept(std::is_nothrow_move_constructible<T>::value)
-        : static_vector()
+        : static_vector(allocator_type{})
     {
         for (auto i = v.begin(); i != v.end(); ++i)
         {
-- 
2.43.0


From 31d68c4dfc47bf2bb28fc57b8c87d611bd6ea07f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:55 +0000
Subject: [PATCH 19/53] fix: pod_vector::resize with a value fills only the new
 elements

---
 include/itlib/pod_vector.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/itlib/pod_vector.hpp b/include/itlib/pod_vector.hpp
index bfe8674..f2c8629 100644
--- a/include/itlib/pod_vector.hpp
+++ b/include/itlib/pod_vector.hpp
@@ -606,8 +606,9 @@ public:
 
     bool resize(size_type n, const value_type& val)
     {
+        const auto s = size();
         bool ret = reserve(n);
-        fill(m_end, n, val);
+        if (n > s) fill(m_begin + s, n - s, val);
         m_end = m_begin + n;
         return ret;
     }
-- 
2.43.0


From d7a245117b8ce05e52f992658bd8ac5d79195a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:04 +0000
Subject: [PATCH 20/53] fix: pod_vector: adding a copy of an own element
 doesn't read it from a released buffer

---
 include/itlib/pod_vector.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/itlib/pod_vector.hpp b/include/itlib/pod_vector.hpp
index f2c8629..2db583c 100644
--- a/include/itlib/pod_vector.hpp
+++ b/include/itlib/pod_vector.hpp
@@ -537,15 +537,17 @@ public:
 
     iterator insert(const_iterator position, const value_type& val)
     {
+        const value_type copy = val; // val may be an element of this vector
         auto pos = grow_at(position, 1);
-        *pos = val;
+        *pos = copy;
         return pos;
     }
 
     iterator insert(const_iterator position, size_type count, const value_type& val)
     {
+        const value_type copy = val; // val may be an element of this vector
         auto pos = grow_at(position, count);
-        fill(pos, count, val);
+        fill(pos, count, copy);
         return pos;
     }
 
@@ -590,7 +592,8 @@ public:
 
     reference push_back(const_reference val)
     {
-        return emplace_back() = val;
+        const value_type copy = val; // val may be an element of this vector
+        return emplace_back() = copy;
     }
 
     // for compatibility
@@ -606,9 +609,10 @@ public:
 
     bool resize(size_type n, const value_type& val)
     {
+        const value_type copy = val; // val may be an element of this vector
         const auto s = size();
         bool ret = reserve(n);
-        if (n > s) fill(m_begin + s, n - s, val);
+        if (n > s) fill(m_begin + s, n - s, copy);
         m_end = m_begin + n;
         return ret;
     }
-- 
2.43.0


From 580e4121f2800aab31b4da7be2eee6bd65117557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:11 +0000
Subject: [PATCH 21/53] fix: pod_vector::recast_take_from: no self usurp, no
 misaligned data

---
 include/itlib/pod_vector.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/itlib/pod_vector.hpp b/include/itlib/pod_vector.hpp
index 2db583c..3f061ad 100644
--- a/include/itlib/pod_vector.hpp
+++ b/include/itlib/pod_vector.hpp
@@ -267,6 +267,9 @@ public:
     void recast_take_from(pod_vector<U, UAlloc>&& other)
     {
         static_assert(allocator_aligned() == pod_vector<U, UAlloc>::allocator_aligned(), "taking buffers can only happen with the same relative allocation alignment");
+        static_assert(allocator_aligned() || alignof(T) <= alignof(U), "taking over-aligned buffers can't increase the alignment");
+
+        if (static_cast<const void*>(&other) == this) return; // prevent self usurp
 
         a_free_begin();
 
-- 
2.43.0


From 662e972c9257b46b70247b31f821266b418f5b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:36 +0000
Subject: [PATCH 22/53] fix: expected<void, E>: moving a value to a value
 doesn't assign the inactive error

---
 include/itlib/expected.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/itlib/expected.hpp b/include/itlib/expected.hpp
index 3685445..878867a 100644
--- a/include/itlib/expected.hpp
+++ b/include/itlib/expected.hpp
@@ -446,7 +446,7 @@ public:
             m_has_value = true;
             m_error.~E();
         }
-        else
+        else if (!m_has_value)
         {
             m_error = std::move(other.m_error);
         }
-- 
2.43.0


From f315ff410c960d52d862159faafcd03d1abe85c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:37 +0000
Subject: [PATCH 23/53] fix: expected<T, void>: a copy assignment which throws
 doesn't leave an unconstructed value

---
 include/itlib/expected.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/itlib/expected.hpp b/include/itlib/expected.hpp
index 878867a..0896270 100644
--- a/include/itlib/expected.hpp
+++ b/include/itlib/expected.hpp
@@ -528,8 +528,8 @@ public:
         }
         else if (!m_has_value && other.has_value())
         {
-            m_has_value = true;
             ::new (&m_value) T(other.m_value);
+            m_has_value = true;
         }
         return *this;
     }
-- 
2.43.0


From d0222d0e4e7ad80ecc62a8afafb51736352da525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:37 +0000
Subject: [PATCH 24/53] fix: expected: creating an error from
 unexpected(lvalue) doesn't move from the lvalue

---
 include/itlib/expected.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/itlib/expected.hpp b/include/itlib/expected.hpp
index 0896270..2e6bb0d 100644
--- a/include/itlib/expected.hpp
+++ b/include/itlib/expected.hpp
@@ -183,7 +183,7 @@ public:
     expected(T&& t) : m_value(std::forward<T>(t)), m_has_value(true) {}
 
     template <typename E2>
-    expected(unexpected_t<E2>&& u) : m_error(std::move(u.m_error)), m_has_value(false) {}
+    expected(unexpected_t<E2>&& u) : m_error(std::forward<E2>(u.m_error)), m_has_value(false) {}
 
     expected(unexpected_t<void>) : m_error(), m_has_value(false) {}
 
@@ -316,7 +316,7 @@ public:
     expected(T& t) : m_value(&t) {}
 
     template <typename E2>
-    expected(unexpected_t<E2>&& u) : m_value(nullptr), m_error(std::move(u.m_error)) {}
+    expected(unexpected_t<E2>&& u) : m_value(nullptr), m_error(std::forward<E2>(u.m_error)) {}
 
     expected(unexpected_t<void>) : m_value(nullptr), m_error() {}
 
@@ -416,7 +416,7 @@ public:
     expected() : m_has_value(true) {}
 
     template <typename E2>
-    expected(unexpected_t<E2>&& u) : m_error(std::move(u.m_error)), m_has_value(false) {}
+    expected(unexpected_t<E2>&& u) : m_error(std::forward<E2>(u.m_error)), m_has_value(false) {}
 
     expected(unexpected_t<void>) : m_error(), m_has_value(false) {}
 
-- 
2.43.0


From bd0743fadf297e013ffc8e0966e317be9470296b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:22 +0000
Subject: [PATCH 25/53] fix: any: add missing include guard and include

---
 include/itlib/any.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/itlib/any.hpp b/include/itlib/any.hpp
index 90994d3..2b22b21 100644
--- a/include/itlib/any.hpp
+++ b/include/itlib/any.hpp
@@ -50,7 +50,10 @@
 // You can find unit tests in the official repo:
 // https://github.com/iboB/itlib/blob/master/test/
 //
+#pragma once
+
 #include <new>
+#include <cstddef>
 #include <cstdint>
 #include <cstdlib>
 #include <utility>
-- 
2.43.0


From 729913c2e794d641940f76e8bca10bd41b96f88b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:23 +0000
Subject: [PATCH 26/53] fix: any: constructing and assigning from an lvalue
 copies it instead of storing a reference

---
 include/itlib/any.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/itlib/any.hpp b/include/itlib/any.hpp
index 2b22b21..0351927 100644
--- a/include/itlib/any.hpp
+++ b/include/itlib/any.hpp
@@ -176,15 +176,15 @@ public:
     // only enable these if T is not another any
     template <typename T, typename std::enable_if<!anyimpl::is_any<typename std::decay<T>::type>::value, int>::type = 0>
     any(T&& t) {
-        emplace<T>(std::forward<T>(t));
+        emplace<typename std::decay<T>::type>(std::forward<T>(t));
     }
     template <typename T, typename std::enable_if<!anyimpl::is_any<typename std::decay<T>::type>::value, int>::type = 0>
     any(std::allocator_arg_t, const Alloc& a, T&& t) : Alloc(a) {
-        emplace<T>(std::forward<T>(t));
+        emplace<typename std::decay<T>::type>(std::forward<T>(t));
     }
     template <typename T, typename std::enable_if<!anyimpl::is_any<typename std::decay<T>::type>::value, int>::type = 0>
     any& operator=(T&& t) {
-        emplace<T>(std::forward<T>(t));
+        emplace<typename std::decay<T>::type>(std::forward<T>(t));
         return *this;
     }
 
-- 
2.43.0


From 767ef3d707cae3a324cc4445a9c4af5a434513e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:25 +0000
Subject: [PATCH 27/53] fix: any: self copy assignment doesn't lose the value

---
 include/itlib/any.hpp | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/include/itlib/any.hpp b/include/itlib/any.hpp
index 0351927..6a4cfa1 100644
--- a/include/itlib/any.hpp
+++ b/include/itlib/any.hpp
@@ -238,18 +238,25 @@ public:
 
     template <typename OAlloc>
     void copy_from(const any<OAlloc>& o) {
-        reset();
-        if (!o.has_value()) return;
-        m_block = static_cast<anyimpl::obj_block*>(Alloc::allocate_bytes(o.m_block->size, o.m_block->alignment));
+        if (!o.has_value()) {
+            reset();
+            return;
+        }
+        // o may be this or may be held by this, so only reset after it's cloned
+        const uint32_t size = o.m_block->size;
+        const uint32_t alignment = o.m_block->alignment;
+        auto block = static_cast<anyimpl::obj_block*>(Alloc::allocate_bytes(size, alignment));
         try {
-            o.m_block->clone_to(m_block);
-            m_block->size = o.m_block->size;
-            m_block->alignment = o.m_block->alignment;
+            o.m_block->clone_to(block);
+            block->size = size;
+            block->alignment = alignment;
         }
         catch (...) {
-            free_block(o.m_block->size, o.m_block->alignment);
+            Alloc::deallocate_bytes(block, size, alignment);
             throw;
         }
+        reset();
+        m_block = block;
     }
 
     const std::type_info& type() const noexcept {
-- 
2.43.0


From 84389056d69c44341b78f0d32f0c8865121cd7f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:27 +0000
Subject: [PATCH 28/53] fix: any: assigning a part of the value held doesn't
 use it after it's destroyed

---
 include/itlib/any.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/itlib/any.hpp b/include/itlib/any.hpp
index 6a4cfa1..6cdc9bb 100644
--- a/include/itlib/any.hpp
+++ b/include/itlib/any.hpp
@@ -184,8 +184,8 @@ public:
     }
     template <typename T, typename std::enable_if<!anyimpl::is_any<typename std::decay<T>::type>::value, int>::type = 0>
     any& operator=(T&& t) {
-        emplace<typename std::decay<T>::type>(std::forward<T>(t));
-        return *this;
+        // t may be (a part of) our own value, so only reset after it's used
+        return *this = any(std::allocator_arg, *this, std::forward<T>(t));
     }
 
     ~any() { reset(); }
-- 
2.43.0


From c048c286f2d51d707c3a987e4ce7595e2b456a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:29 +0000
Subject: [PATCH 29/53] fix: pmr_allocator: add missing include guard

---
 include/itlib/pmr_allocator.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/itlib/pmr_allocator.hpp b/include/itlib/pmr_allocator.hpp
index 33efd0f..99beccd 100644
--- a/include/itlib/pmr_allocator.hpp
+++ b/include/itlib/pmr_allocator.hpp
@@ -46,6 +46,8 @@
 // You can find unit tests in the official repo:
 // https://github.com/iboB/itlib/blob/master/test/
 //
+#pragma once
+
 #include <memory_resource>
 #include <cstddef>
 
-- 
2.43.0


From 3a77055a73b63b1201c12da2b649c4c193e41e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:46 +0000
Subject: [PATCH 30/53] fix: any: don't rely on nullptr_t being in the global
 namespace

---
 include/itlib/any.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/itlib/any.hpp b/include/itlib/any.hpp
index 6cdc9bb..168c94a 100644
--- a/include/itlib/any.hpp
+++ b/include/itlib/any.hpp
@@ -272,7 +272,7 @@ private:
 };
 
 template <typename T>
-const T* any_cast(nullptr_t) { return nullptr; }
+const T* any_cast(std::nullptr_t) { return nullptr; }
 
 template <typename T, typename Alloc>
 const T* any_cast(const any<Alloc>* a) {
-- 
2.43.0


From 91ade649eea2e4767f4738326670940a43fb5fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:48 +0000
Subject: [PATCH 31/53] fix: any: copying from an any with another allocator
 compiles

---
 include/itlib/any.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/itlib/any.hpp b/include/itlib/any.hpp
index 168c94a..5e5a5b4 100644
--- a/include/itlib/any.hpp
+++ b/include/itlib/any.hpp
@@ -145,6 +145,9 @@ struct is_any<any<Alloc>> : public std::true_type {};
 template <typename Alloc = anyimpl::default_allocator>
 class any : private /*EBO*/ Alloc {
     anyimpl::obj_block* m_block = nullptr;
+
+    template <typename OAlloc>
+    friend class any;
 public:
     using allocator_type = Alloc;
 
-- 
2.43.0


From 3b7c19deedcf202c39e650c1b905986acaa401ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:24 +0000
Subject: [PATCH 32/53] fix: data_mutex: a lock function which throws doesn't
 lead to unlocking a mutex which is not locked

---
 include/itlib/data_mutex.hpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/include/itlib/data_mutex.hpp b/include/itlib/data_mutex.hpp
index 60ffbfe..9940c26 100644
--- a/include/itlib/data_mutex.hpp
+++ b/include/itlib/data_mutex.hpp
@@ -76,8 +76,8 @@ public:
     protected:
         Mutex& m_mutex;
         CT* m_data;
-        lock_base_t(Mutex& mutex, CT& data) : m_mutex(mutex), m_data(&data) {}
-        lock_base_t(Mutex& mutex) : m_mutex(mutex) {}
+        // data is only set once the mutex is locked: the lock function may throw
+        lock_base_t(Mutex& mutex) : m_mutex(mutex), m_data(nullptr) {}
         ~lock_base_t() = default;
         lock_base_t(const lock_base_t&) = delete;
         lock_base_t& operator=(const lock_base_t&) = delete;
@@ -101,8 +101,9 @@ public:
     };
 
     struct unique_lock_t : public unique_lock_base_t<T> {
-        explicit unique_lock_t(data_mutex& dm) : unique_lock_base_t<T>(dm.m_mutex, dm.m_data) {
+        explicit unique_lock_t(data_mutex& dm) : unique_lock_base_t<T>(dm.m_mutex) {
             this->m_mutex.lock();
+            this->m_data = &dm.m_data;
         }
     };
 
@@ -115,8 +116,9 @@ public:
     };
 
     struct const_unique_lock_t : public unique_lock_base_t<const T> {
-        explicit const_unique_lock_t(const data_mutex& dm) : unique_lock_base_t<const T>(dm.m_mutex, dm.m_data) {
+        explicit const_unique_lock_t(const data_mutex& dm) : unique_lock_base_t<const T>(dm.m_mutex) {
             this->m_mutex.lock();
+            this->m_data = &dm.m_data;
         }
     };
 
@@ -136,8 +138,9 @@ public:
     };
 
     struct shared_lock_t : public shared_lock_base_t {
-        explicit shared_lock_t(const data_mutex& dm) : shared_lock_base_t(dm.m_mutex, dm.m_data) {
+        explicit shared_lock_t(const data_mutex& dm) : shared_lock_base_t(dm.m_mutex) {
             this->m_mutex.lock_shared();
+            this->m_data = &dm.m_data;
         }
     };
 
-- 
2.43.0


From ec5ed93151b44f57144cd017d407d2bc74669afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:26 +0000
Subject: [PATCH 33/53] fix: atomic_shared_ptr_storage: a failing
 compare_exchange doesn't run foreign destructors under the spinlock

---
 include/itlib/atomic_shared_ptr_storage.hpp | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/include/itlib/atomic_shared_ptr_storage.hpp b/include/itlib/atomic_shared_ptr_storage.hpp
index b59a038..83e30ed 100644
--- a/include/itlib/atomic_shared_ptr_storage.hpp
+++ b/include/itlib/atomic_shared_ptr_storage.hpp
@@ -119,15 +119,18 @@ public:
 
     // have _strong to match atomic<shared_ptr>
     bool compare_exchange_strong(sptr& expect, sptr ptr) noexcept {
-        asps_spinlock::lock_guard _l(m_spinlock);
-        if (m_ptr == expect) {
-            m_ptr.swap(ptr);
-            return true;
-        }
-        else {
-            expect = m_ptr;
-            return false;
+        sptr cur;
+        {
+            asps_spinlock::lock_guard _l(m_spinlock);
+            if (m_ptr == expect) {
+                m_ptr.swap(ptr);
+                return true;
+            }
+            cur = m_ptr;
         }
+        // may destroy the object in expect, so not under the lock
+        expect = std::move(cur);
+        return false;
     }
 };
 #if defined(_MSC_VER)
-- 
2.43.0


From d13f29fa3c39c5c0056e2c00cbc4fd4a182bbe87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:57 +0000
Subject: [PATCH 34/53] fix: sentry: make_sentry of an lvalue compiles before
 C++17

---
 include/itlib/sentry.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/itlib/sentry.hpp b/include/itlib/sentry.hpp
index ccd9458..116755e 100644
--- a/include/itlib/sentry.hpp
+++ b/include/itlib/sentry.hpp
@@ -106,7 +106,7 @@ public:
     ~sentry() { m_func(); }
 #else
     sentry(sentry&& other) noexcept
-        : m_func(std::move(other.m_func))
+        : m_func(std::forward<Func>(other.m_func))
         , m_has_func(other.m_has_func)
     {
         other.m_has_func = false;
-- 
2.43.0


From 5f2975fdd57d54df21f7a54616f7bb7966db2b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:05 +0000
Subject: [PATCH 35/53] fix: generator self-move-assignment destroyed the
 coroutine twice

---
 include/itlib/generator.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/itlib/generator.hpp b/include/itlib/generator.hpp
index 0cead31..90bb7a5 100644
--- a/include/itlib/generator.hpp
+++ b/include/itlib/generator.hpp
@@ -152,6 +152,7 @@ public:
     generator(generator&& other) noexcept : m_handle(std::exchange(other.m_handle, nullptr)) {}
 
     generator& operator=(generator&& other) noexcept {
+        if (&other == this) return *this; // prevent self usurp
         if (m_handle) m_handle.destroy();
         m_handle = std::exchange(other.m_handle, nullptr);
         return *this;
-- 
2.43.0


From 24b13b4aaab6d132b0af2bace8307f595848dcc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:07 +0000
Subject: [PATCH 36/53] fix: span: subspan and last with huge offsets don't
 wrap around the start of the span

---
 include/itlib/span.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/itlib/span.hpp b/include/itlib/span.hpp
index 8b10def..0b81b55 100644
--- a/include/itlib/span.hpp
+++ b/include/itlib/span.hpp
@@ -265,7 +265,7 @@ public:
     // slicing
     span subspan(size_t off, size_t count = size_t(-1)) const noexcept
     {
-        if (m_begin + off > m_end) return span(m_end, 0);
+        if (off > size()) return span(m_end, size_t(0));
         auto newSize = size() - off;
         if (count > newSize) count = newSize;
         return span(m_begin + off, count);
-- 
2.43.0


From cd599e92d4c1b28aed50ce2f5b59f1185722e957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:08 +0000
Subject: [PATCH 37/53] fix: stride_span: negative distances of iterators

---
 include/itlib/stride_span.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/itlib/stride_span.hpp b/include/itlib/stride_span.hpp
index 998b3d8..69ecfb4 100644
--- a/include/itlib/stride_span.hpp
+++ b/include/itlib/stride_span.hpp
@@ -213,7 +213,7 @@ public:
         t_iterator& operator-=(const ptrdiff_t diff) noexcept { p -= diff * stride; return *this; }
         t_iterator operator+(const ptrdiff_t diff) const noexcept { return t_iterator(p + stride * diff, stride); }
         t_iterator operator-(const ptrdiff_t diff) const noexcept { return t_iterator(p - stride * diff, stride); }
-        ptrdiff_t operator-(const t_iterator& other) const noexcept { return (p - other.p) / stride; }
+        ptrdiff_t operator-(const t_iterator& other) const noexcept { return (p - other.p) / ptrdiff_t(stride); }
         bool operator==(const t_iterator& other) const noexcept { return p == other.p; }
         bool operator!=(const t_iterator& other) const noexcept { return p != other.p; }
         bool operator<(const t_iterator& other) const noexcept { return p < other.p; }
-- 
2.43.0


From fac9357edffae112170c4a2cdaf5ea953e9bce38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:10 +0000
Subject: [PATCH 38/53] fix: poly_span: negative distances of iterators

---
 include/itlib/poly_span.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/itlib/poly_span.hpp b/include/itlib/poly_span.hpp
index e48b4f3..d712c5f 100644
--- a/include/itlib/poly_span.hpp
+++ b/include/itlib/poly_span.hpp
@@ -227,7 +227,7 @@ public:
         t_iterator& operator-=(const ptrdiff_t diff) noexcept { p -= diff * stride; return *this; }
         t_iterator operator+(const ptrdiff_t diff) const noexcept { return t_iterator(p + stride * diff, stride, poly_func); }
         t_iterator operator-(const ptrdiff_t diff) const noexcept { return t_iterator(p - stride * diff, stride, poly_func); }
-        ptrdiff_t operator-(const t_iterator& other) const noexcept { return (p - other.p) / stride; }
+        ptrdiff_t operator-(const t_iterator& other) const noexcept { return (p - other.p) / ptrdiff_t(stride); }
         bool operator==(const t_iterator& other) const noexcept { return p == other.p; }
         bool operator!=(const t_iterator& other) const noexcept { return p != other.p; }
         bool operator<(const t_iterator& other) const noexcept { return p < other.p; }
-- 
2.43.0


From c8d003167bbcd2b55a9aa4e8723ca39655253ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:53 +0000
Subject: [PATCH 39/53] fix: mem_ostreambuf::get_container: leave the put area
 in the emptied container

---
 include/itlib/mem_streambuf.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/itlib/mem_streambuf.hpp b/include/itlib/mem_streambuf.hpp
index 4e8a83c..8de2ff3 100644
--- a/include/itlib/mem_streambuf.hpp
+++ b/include/itlib/mem_streambuf.hpp
@@ -130,7 +130,7 @@ public:
         Container ret;
         auto size = this->poff();
         ret.swap(m_data);
-        this->setp(nullptr, nullptr);
+        this->setp(m_data.data(), m_data.data());
         ret.resize(size);
         return ret;
     }
-- 
2.43.0


From 370a155ac233236e09885e4b2bc4cc5ae9a681ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:53 +0000
Subject: [PATCH 40/53] fix: mem_streambuf: fail seeks to positions out of the
 buffer

---
 include/itlib/mem_streambuf.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/itlib/mem_streambuf.hpp b/include/itlib/mem_streambuf.hpp
index 8de2ff3..bf306a7 100644
--- a/include/itlib/mem_streambuf.hpp
+++ b/include/itlib/mem_streambuf.hpp
@@ -174,7 +174,9 @@ private:
 
     pos_type seekpos(pos_type sp, std::ios_base::openmode) override
     {
-        this->setp(m_data.data() + int(sp), m_data.data() + m_data.size());
+        const auto off = off_type(sp);
+        if (off < 0 || size_t(off) > m_data.size()) return pos_type(off_type(-1));
+        this->setp(m_data.data() + off, m_data.data() + m_data.size());
         return sp;
     }
 
@@ -240,7 +242,9 @@ public:
 private:
     pos_type seekpos(pos_type sp, std::ios_base::openmode) override
     {
-        this->setg(this->eback(), this->eback() + sp, this->egptr());
+        const auto off = off_type(sp);
+        if (off < 0 || size_t(off) > size()) return pos_type(off_type(-1));
+        this->setg(this->eback(), this->eback() + off, this->egptr());
         return sp;
     }
 
-- 
2.43.0


From 01228d9498086e837452ef6e721fcf346205ebba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:53 +0000
Subject: [PATCH 41/53] fix: mem_streambuf: don't overflow on huge reads and
 writes

---
 include/itlib/mem_streambuf.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/itlib/mem_streambuf.hpp b/include/itlib/mem_streambuf.hpp
index bf306a7..e856551 100644
--- a/include/itlib/mem_streambuf.hpp
+++ b/include/itlib/mem_streambuf.hpp
@@ -167,7 +167,7 @@ private:
         }
 
         memcpy(this->pptr(), s, num * sizeof(char_type));
-        this->pbump(int_type(num));
+        this->setp(this->pptr() + num, this->epptr()); // pbump is limited to int
 
         return num;
     }
@@ -258,7 +258,7 @@ private:
 
     std::streamsize xsgetn(char_type* s, std::streamsize count) override
     {
-        if (this->gptr() + count > this->egptr())
+        if (count > this->egptr() - this->gptr())
         {
             count = this->egptr() - this->gptr();
         }
-- 
2.43.0


From 5ecb2e9c2fba0bac22001fa3ba126800cb2bd9bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:53 +0000
Subject: [PATCH 42/53] fix: mem_ostreambuf: a copy must write to its own
 container

---
 include/itlib/mem_streambuf.hpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/include/itlib/mem_streambuf.hpp b/include/itlib/mem_streambuf.hpp
index e856551..8c6a003 100644
--- a/include/itlib/mem_streambuf.hpp
+++ b/include/itlib/mem_streambuf.hpp
@@ -114,6 +114,22 @@ public:
         cap_resize_by(reserve);
     }
 
+    mem_ostreambuf(const mem_ostreambuf& other)
+        : super(other)
+        , m_data(other.m_data)
+    {
+        this->setp(m_data.data() + other.poff(), m_data.data() + m_data.size());
+    }
+
+    mem_ostreambuf& operator=(const mem_ostreambuf& other)
+    {
+        const auto off = other.poff();
+        super::operator=(other);
+        m_data = other.m_data;
+        this->setp(m_data.data() + off, m_data.data() + m_data.size());
+        return *this;
+    }
+
     // put offset
     size_t poff() const
     {
-- 
2.43.0


From 7a604ae12a1ea4874c86a60f35c56f6981bfd8ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:02 +0000
Subject: [PATCH 43/53] fix: dynamic_bitset::copy lost the last bits if they
 straddle two words of the source

---
 include/itlib/dynamic_bitset.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/itlib/dynamic_bitset.hpp b/include/itlib/dynamic_bitset.hpp
index ee84748..42635b5 100644
--- a/include/itlib/dynamic_bitset.hpp
+++ b/include/itlib/dynamic_bitset.hpp
@@ -400,7 +400,13 @@ public:
 
         // now what remains is some bits from source that need to be splicet onto our last element
         const auto rpad = to.index % bits_per_word;
-        m_buf[own_windex] = ((src[src_windex] >> pad) & (word_mask(rpad) - 1)) | (m_buf[own_windex] & ~(word_mask(rpad) - 1));
+        word_type last = word_type(src[src_windex] >> pad);
+        if (rpad > bits_per_word - pad)
+        {
+            // the bits straddle two words of the source
+            last |= word_type(src[src_windex + 1] << (bits_per_word - pad));
+        }
+        m_buf[own_windex] = (last & (word_mask(rpad) - 1)) | (m_buf[own_windex] & ~(word_mask(rpad) - 1));
     }
 
     // static ops
-- 
2.43.0


From 03a11e3eb4569be045f9e11d4ce0e762f9c70c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:02 +0000
Subject: [PATCH 44/53] fix: dynamic_bitset: a resize which fails must not
 change the size

---
 include/itlib/dynamic_bitset.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/itlib/dynamic_bitset.hpp b/include/itlib/dynamic_bitset.hpp
index 42635b5..a84ed17 100644
--- a/include/itlib/dynamic_bitset.hpp
+++ b/include/itlib/dynamic_bitset.hpp
@@ -260,8 +260,8 @@ public:
             // clear the tail of the buf with zeroes in case they remain from previous ops
             m_buf.back() &= word_mask(pad) - 1;
         }
-        m_size = size;
         m_buf.resize(word_size(size));
+        m_size = size;
     }
     void push_back(bool b)
     {
-- 
2.43.0


From ae4b134608fc13b774d33285a2148ecbad9d9443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:02 +0000
Subject: [PATCH 45/53] fix: dynamic_bitset: appending a bitset to itself

---
 include/itlib/dynamic_bitset.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/itlib/dynamic_bitset.hpp b/include/itlib/dynamic_bitset.hpp
index a84ed17..1f9011f 100644
--- a/include/itlib/dynamic_bitset.hpp
+++ b/include/itlib/dynamic_bitset.hpp
@@ -278,6 +278,11 @@ public:
     void append(const dynamic_bitset& other)
     {
         if (other.empty()) return;
+        if (&other == this)
+        {
+            append(dynamic_bitset(other));
+            return;
+        }
 
         const auto pad = m_size % bits_per_word;
         if (pad == 0)
-- 
2.43.0


From 2a0ad3e8a91a867a4e740367b9e2804bb70fc20b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:33 +0000
Subject: [PATCH 46/53] fix: pmr_allocator::allocate_object must not allocate
 less than requested if the size overflows

---
 include/itlib/pmr_allocator.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/itlib/pmr_allocator.hpp b/include/itlib/pmr_allocator.hpp
index 99beccd..627209b 100644
--- a/include/itlib/pmr_allocator.hpp
+++ b/include/itlib/pmr_allocator.hpp
@@ -50,6 +50,7 @@
 
 #include <memory_resource>
 #include <cstddef>
+#include <new>
 
 namespace itlib {
 
@@ -75,6 +76,7 @@ public:
 
     template <class U>
     [[nodiscard]] U* allocate_object(std::size_t n = 1) {
+        if (n > std::size_t(-1) / sizeof(U)) throw std::bad_array_new_length();
         return static_cast<U*>(allocate_bytes(n * sizeof(U), alignof(U)));
     }
 
-- 
2.43.0


From 7ce8c052ccff063e6fa50009f131936bb90b4c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:34 +0000
Subject: [PATCH 47/53] fix: time_t: strftime with an empty result was an
 infinite loop

---
 include/itlib/time_t.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/itlib/time_t.hpp b/include/itlib/time_t.hpp
index ee8dd6c..14f3ba4 100644
--- a/include/itlib/time_t.hpp
+++ b/include/itlib/time_t.hpp
@@ -167,11 +167,13 @@ private:
 
 inline std::string strftime(const char* format, const std::tm& tm)
 {
+    // an additional character, so as to tell an empty result from a buffer which is too small
+    const std::string format_ex = std::string(format) + '.';
     std::string ret;
     ret.resize(128);
     size_t len;
-    while ((len = std::strftime(&ret.front(), ret.size(), format, &tm)) == 0) ret.resize(2 * ret.size());
-    ret.resize(len);
+    while ((len = std::strftime(&ret.front(), ret.size(), format_ex.c_str(), &tm)) == 0) ret.resize(2 * ret.size());
+    ret.resize(len - 1);
     return ret;
 }
 
-- 
2.43.0


From 6d66ad45a6e1589d7dae03c71cc3860af4a6d61c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:35 +0000
Subject: [PATCH 48/53] fix: transparent_umap: enable the overloads for
 transparent hashes and comparisons (and not for keys with is_transparent)

---
 include/itlib/transparent_umap.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/itlib/transparent_umap.hpp b/include/itlib/transparent_umap.hpp
index a69436f..e22934f 100644
--- a/include/itlib/transparent_umap.hpp
+++ b/include/itlib/transparent_umap.hpp
@@ -61,6 +61,10 @@ template <typename T, typename = void>
 constexpr bool is_transparent = false;
 template <class T>
 constexpr bool is_transparent<T, std::void_t<typename T::is_transparent>> = true;
+
+// K only makes this dependent on the template argument of a function
+template <typename K, typename Hash, typename KeyEqual>
+constexpr bool is_transparent_for = is_transparent<Hash> && is_transparent<KeyEqual>;
 } // namespace tumimpl
 
 // yes... a macro
@@ -83,13 +87,13 @@ public:
 
     // enable if transparent
     template <typename K, typename R>
-    using enable_if_tr = std::enable_if_t<tumimpl::is_transparent<K>, R>;
+    using enable_if_tr = std::enable_if_t<tumimpl::is_transparent_for<K, Hash, KeyEqual>, R>;
 
     // enable if transparent and convertible
     template <typename K, typename R>
     using enable_if_tr_c = std::enable_if_t<
-        tumimpl::is_transparent<K>
-        && std::is_convertible_v<Key, K>
+        tumimpl::is_transparent_for<K, Hash, KeyEqual>
+        && std::is_constructible_v<Key, K&&>
         // but not iterators
         && !std::is_convertible_v<K, iterator>
         && !std::is_convertible_v<K, const_iterator>
-- 
2.43.0


From a9c1a25dbbfa4fe0f68d48e025365e5b90e8f208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:37 +0000
Subject: [PATCH 49/53] fix: transparent_umap: try_emplace with a hint returns
 an iterator

---
 include/itlib/transparent_umap.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/itlib/transparent_umap.hpp b/include/itlib/transparent_umap.hpp
index e22934f..f62ddde 100644
--- a/include/itlib/transparent_umap.hpp
+++ b/include/itlib/transparent_umap.hpp
@@ -110,10 +110,10 @@ public:
     }
 
     template <typename K, typename... Args>
-    enable_if_tr<K, std::pair<iterator, bool>> try_emplace(const_iterator hint, K&& key, Args&&... args) {
+    enable_if_tr<K, iterator> try_emplace(const_iterator hint, K&& key, Args&&... args) {
         // what does the hint even mean?
         auto f = this->find(key);
-        if (f != this->end()) return { f, false };
+        if (f != this->end()) return f;
         return this->emplace_hint(hint, std::forward<K>(key), T(std::forward<Args>(args)...));
     }
 
-- 
2.43.0


From 193186978681e0cb2cc506e1da75bbae69185016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:15 +0000
Subject: [PATCH 50/53] fix: dynamic_bitset and tep_vector include <cstddef>
 for the size types they name

---
 include/itlib/dynamic_bitset.hpp | 1 +
 include/itlib/tep_vector.hpp     | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/itlib/dynamic_bitset.hpp b/include/itlib/dynamic_bitset.hpp
index 1f9011f..308fb3b 100644
--- a/include/itlib/dynamic_bitset.hpp
+++ b/include/itlib/dynamic_bitset.hpp
@@ -126,6 +126,7 @@
 #pragma once
 
 #include <cstdint>
+#include <cstddef>
 #include <vector>
 #include <cassert>
 
diff --git a/include/itlib/tep_vector.hpp b/include/itlib/tep_vector.hpp
index fb9cf34..e0b69c0 100644
--- a/include/itlib/tep_vector.hpp
+++ b/include/itlib/tep_vector.hpp
@@ -42,6 +42,7 @@
 //
 #pragma once
 #include <cstdint>
+#include <cstddef>
 
 namespace itlib {
 
-- 
2.43.0


From 3687e3a8cd8526d39c428fa501bd65362ae88b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:15 +0000
Subject: [PATCH 51/53] fix: mem_ostreambuf: work with std::string before
 C++17, as documented

---
 include/itlib/mem_streambuf.hpp | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/include/itlib/mem_streambuf.hpp b/include/itlib/mem_streambuf.hpp
index 8c6a003..cb43025 100644
--- a/include/itlib/mem_streambuf.hpp
+++ b/include/itlib/mem_streambuf.hpp
@@ -110,7 +110,7 @@ public:
 
     mem_ostreambuf(size_t reserve = 0)
     {
-        this->setp(m_data.data(), m_data.data());
+        this->setp(buf(), buf());
         cap_resize_by(reserve);
     }
 
@@ -118,7 +118,7 @@ public:
         : super(other)
         , m_data(other.m_data)
     {
-        this->setp(m_data.data() + other.poff(), m_data.data() + m_data.size());
+        this->setp(buf() + other.poff(), buf() + m_data.size());
     }
 
     mem_ostreambuf& operator=(const mem_ostreambuf& other)
@@ -126,7 +126,7 @@ public:
         const auto off = other.poff();
         super::operator=(other);
         m_data = other.m_data;
-        this->setp(m_data.data() + off, m_data.data() + m_data.size());
+        this->setp(buf() + off, buf() + m_data.size());
         return *this;
     }
 
@@ -146,7 +146,7 @@ public:
         Container ret;
         auto size = this->poff();
         ret.swap(m_data);
-        this->setp(m_data.data(), m_data.data());
+        this->setp(buf(), buf());
         ret.resize(size);
         return ret;
     }
@@ -154,11 +154,17 @@ public:
     void clear()
     {
         m_data.clear();
-        this->setp(m_data.data(), m_data.data());
+        this->setp(buf(), buf());
     }
 
 private:
 
+    // before C++17 std::string only has a const data()
+    char_type* buf()
+    {
+        return const_cast<char_type*>(m_data.data());
+    }
+
     int_type overflow(int_type ch) override
     {
         cap_resize_by(1);
@@ -192,7 +198,7 @@ private:
     {
         const auto off = off_type(sp);
         if (off < 0 || size_t(off) > m_data.size()) return pos_type(off_type(-1));
-        this->setp(m_data.data() + off, m_data.data() + m_data.size());
+        this->setp(buf() + off, buf() + m_data.size());
         return sp;
     }
 
@@ -215,7 +221,7 @@ private:
         auto new_size = m_data.capacity();
         m_data.resize(new_size);
 
-        this->setp(m_data.data() + off, m_data.data() + new_size);
+        this->setp(buf() + off, buf() + new_size);
     }
 };
 
-- 
2.43.0


From a9170e1a548b1cbd7d04067796e6efdb2143e9b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:26 +0000
Subject: [PATCH 52/53] fix: dynamic_bitset: all() with words narrower than int

---
 include/itlib/dynamic_bitset.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/itlib/dynamic_bitset.hpp b/include/itlib/dynamic_bitset.hpp
index 308fb3b..cb17d68 100644
--- a/include/itlib/dynamic_bitset.hpp
+++ b/include/itlib/dynamic_bitset.hpp
@@ -200,7 +200,7 @@ public:
         auto endit = it + m_size / bits_per_word;
         for (; it != endit; ++it)
         {
-            if (*it != ~word_type(0)) return false;
+            if (*it != word_type(~word_type(0))) return false;
         }
         if (endit != m_buf.end())
         {
-- 
2.43.0


From c083c2532b32c09858348faf55a884681b01fee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:10 +0000
Subject: [PATCH 53/53] fix: flat_set, flat_map: const_pointer points to const
 elements

---
 include/itlib/flat_map.hpp | 2 +-
 include/itlib/flat_set.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/itlib/flat_map.hpp b/include/itlib/flat_map.hpp
index f2a7d79..c9c6328 100644
--- a/include/itlib/flat_map.hpp
+++ b/include/itlib/flat_map.hpp
@@ -150,7 +150,7 @@ public:
     typedef const value_type& const_reference;
     typedef typename container_type::allocator_type allocator_type;
     typedef typename std::allocator_traits<allocator_type>::pointer pointer;
-    typedef typename std::allocator_traits<allocator_type>::pointer const_pointer;
+    typedef typename std::allocator_traits<allocator_type>::const_pointer const_pointer;
     typedef typename container_type::iterator iterator;
     typedef typename container_type::const_iterator const_iterator;
     typedef typename container_type::reverse_iterator reverse_iterator;
diff --git a/include/itlib/flat_set.hpp b/include/itlib/flat_set.hpp
index 53f03a6..437646d 100644
--- a/include/itlib/flat_set.hpp
+++ b/include/itlib/flat_set.hpp
@@ -115,7 +115,7 @@ public:
     using const_reference = const value_type& ;
     using allocator_type = typename container_type::allocator_type;
     using pointer = typename std::allocator_traits<allocator_type>::pointer;
-    using const_pointer = typename std::allocator_traits<allocator_type>::pointer;
+    using const_pointer = typename std::allocator_traits<allocator_type>::const_pointer;
     using iterator = typename container_type::iterator;
     using const_iterator = typename container_type::const_iterator;
     using reverse_iterator = typename container_type::reverse_iterator;
-- 
2.43.0

