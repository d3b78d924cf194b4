From 387e72c241bfe3bff9647c53961c9f746cb34e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:15 +0000
Subject: [PATCH 01/15] fix: release elements and buffer when constructing from
 a single pass range with a capacity fails

---
 include/boost/circular_buffer/base.hpp | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/include/boost/circular_buffer/base.hpp b/include/boost/circular_buffer/base.hpp
index 4744154..ba1e865 100644
--- a/include/boost/circular_buffer/base.hpp
+++ b/include/boost/circular_buffer/base.hpp
@@ -2576,16 +2576,22 @@ private:
         m_size = 0;
         if (buffer_capacity == 0)
             return;
-        while (first != last && !full()) {
-            boost::allocator_construct(alloc(), boost::to_address(m_last), *first++);
-            increment(m_last);
-            ++m_size;
-        }
-        while (first != last) {
-            replace(m_last, *first++);
-            increment(m_last);
-            m_first = m_last;
+        BOOST_TRY {
+            while (first != last && !full()) {
+                boost::allocator_construct(alloc(), boost::to_address(m_last), *first++);
+                increment(m_last);
+                ++m_size;
+            }
+            while (first != last) {
+                replace(m_last, *first++);
+                increment(m_last);
+                m_first = m_last;
+            }
+        } BOOST_CATCH(...) {
+            destroy();
+            BOOST_RETHROW
         }
+        BOOST_CATCH_END
     }
 
     /*! INTERNAL ONLY */
-- 
2.43.0


From 1541c2845af2b67d875d2a631577b677bb103efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:15 +0000
Subject: [PATCH 02/15] fix: release the buffer with its capacity, not its
 size, when constructing n items fails

---
 include/boost/circular_buffer/base.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/circular_buffer/base.hpp b/include/boost/circular_buffer/base.hpp
index ba1e865..babb69b 100644
--- a/include/boost/circular_buffer/base.hpp
+++ b/include/boost/circular_buffer/base.hpp
@@ -2501,7 +2501,7 @@ private:
         BOOST_TRY {
             cb_details::uninitialized_fill_n_with_alloc(m_buff, size(), item, alloc());
         } BOOST_CATCH(...) {
-            deallocate(m_buff, size());
+            deallocate(m_buff, buffer_capacity);
             BOOST_RETHROW
         }
         BOOST_CATCH_END
-- 
2.43.0


From 9a134af8276d5cdf02a72af50ca28b62b1c94b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:15 +0000
Subject: [PATCH 03/15] fix: destroy the items constructed before an exception
 in rinsert at the beginning

---
 include/boost/circular_buffer/base.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/boost/circular_buffer/base.hpp b/include/boost/circular_buffer/base.hpp
index babb69b..bc1f0ce 100644
--- a/include/boost/circular_buffer/base.hpp
+++ b/include/boost/circular_buffer/base.hpp
@@ -2944,9 +2944,10 @@ private:
                 for (; ii > 0; --ii, increment(p))
                     boost::allocator_construct(alloc(), boost::to_address(p), *wrapper());
             } BOOST_CATCH(...) {
-                size_type constructed = ii < construct ? construct - ii : 0;
-                m_last = add(m_last, constructed);
-                m_size += constructed;
+                for (size_type constructed = ii < construct ? construct - ii : 0; constructed > 0; --constructed) {
+                    decrement(p);
+                    destroy_item(p);
+                }
                 BOOST_RETHROW
             }
             BOOST_CATCH_END
-- 
2.43.0


From 378f9f3f4a383609693a60e07ca31f1e994ed41a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:15 +0000
Subject: [PATCH 04/15] fix: do not leak when an iterator of a source range
 throws

---
 include/boost/circular_buffer/base.hpp    | 4 ++--
 include/boost/circular_buffer/details.hpp | 4 +++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/boost/circular_buffer/base.hpp b/include/boost/circular_buffer/base.hpp
index bc1f0ce..d7b91b0 100644
--- a/include/boost/circular_buffer/base.hpp
+++ b/include/boost/circular_buffer/base.hpp
@@ -2610,14 +2610,14 @@ private:
         ForwardIterator first,
         ForwardIterator last,
         size_type distance) {
-        initialize_buffer(buffer_capacity);
-        m_first = m_buff;
         if (distance > buffer_capacity) {
             std::advance(first, distance - buffer_capacity);
             m_size = buffer_capacity;
         } else {
             m_size = distance;
         }
+        initialize_buffer(buffer_capacity);
+        m_first = m_buff;
         BOOST_TRY {
             m_last = cb_details::uninitialized_copy(first, last, m_buff, alloc());
         } BOOST_CATCH(...) {
diff --git a/include/boost/circular_buffer/details.hpp b/include/boost/circular_buffer/details.hpp
index d6d48f3..07cca67 100644
--- a/include/boost/circular_buffer/details.hpp
+++ b/include/boost/circular_buffer/details.hpp
@@ -427,8 +427,10 @@ template<class InputIterator, class ForwardIterator, class Alloc>
 inline ForwardIterator uninitialized_copy(InputIterator first, InputIterator last, ForwardIterator dest, Alloc& a) {
     ForwardIterator next = dest;
     BOOST_TRY {
-        for (; first != last; ++first, ++dest)
+        for (; first != last; ++first) {
             boost::allocator_construct(a, boost::to_address(dest), *first);
+            ++dest; // before the increment of first which may throw
+        }
     } BOOST_CATCH(...) {
         for (; next != dest; ++next)
             boost::allocator_destroy(a, boost::to_address(next));
-- 
2.43.0


From 490d5669acb2470a1e17a09a0ce94e9c3818e9c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:15 +0000
Subject: [PATCH 05/15] fix: resize and rresize past the capacity with an
 element of the same buffer

---
 include/boost/circular_buffer/base.hpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/boost/circular_buffer/base.hpp b/include/boost/circular_buffer/base.hpp
index d7b91b0..7e65005 100644
--- a/include/boost/circular_buffer/base.hpp
+++ b/include/boost/circular_buffer/base.hpp
@@ -918,9 +918,13 @@ public:
     */
     void resize(size_type new_size, param_value_type item = value_type()) {
         if (new_size > size()) {
-            if (new_size > capacity())
+            if (new_size > capacity()) {
+                const value_type tmp(item); // the item may be an element of this circular_buffer
                 set_capacity(new_size);
-            insert(end(), new_size - size(), item);
+                insert(end(), new_size - size(), tmp);
+            } else {
+                insert(end(), new_size - size(), item);
+            }
         } else {
             iterator e = end();
             erase(e - (size() - new_size), e);
@@ -993,9 +997,13 @@ public:
     */
     void rresize(size_type new_size, param_value_type item = value_type()) {
         if (new_size > size()) {
-            if (new_size > capacity())
+            if (new_size > capacity()) {
+                const value_type tmp(item); // the item may be an element of this circular_buffer
                 set_capacity(new_size);
-            rinsert(begin(), new_size - size(), item);
+                rinsert(begin(), new_size - size(), tmp);
+            } else {
+                rinsert(begin(), new_size - size(), item);
+            }
         } else {
             rerase(begin(), end() - new_size);
         }
-- 
2.43.0


From 3783e727495bdf49ad34bf77c0a69681bd28c954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:15 +0000
Subject: [PATCH 06/15] fix: keep the capacity control when assign of the space
 optimized buffer fails

---
 include/boost/circular_buffer/space_optimized.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/circular_buffer/space_optimized.hpp b/include/boost/circular_buffer/space_optimized.hpp
index 21681fd..9de57f9 100644
--- a/include/boost/circular_buffer/space_optimized.hpp
+++ b/include/boost/circular_buffer/space_optimized.hpp
@@ -724,8 +724,8 @@ public:
     */
     template <class InputIterator>
     void assign(capacity_type capacity_ctrl, InputIterator first, InputIterator last) {
-       m_capacity_ctrl = capacity_ctrl;
        circular_buffer<T, Alloc>::assign(capacity_ctrl, first, last);
+       m_capacity_ctrl = capacity_ctrl;
     }
 
     //! Swap the contents of two space-optimized circular-buffers.
-- 
2.43.0


From d3593899a2c8e302e02845f3bcf4f7c8e7655d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:15 +0000
Subject: [PATCH 07/15] fix: no endless loop when inserting a huge number of
 items into the space optimized buffer

---
 include/boost/circular_buffer/space_optimized.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/boost/circular_buffer/space_optimized.hpp b/include/boost/circular_buffer/space_optimized.hpp
index 9de57f9..b0ef6ac 100644
--- a/include/boost/circular_buffer/space_optimized.hpp
+++ b/include/boost/circular_buffer/space_optimized.hpp
@@ -1541,9 +1541,11 @@ private:
 
     /*! INTERNAL ONLY */
     void check_low_capacity(size_type n = 1) {
-        size_type new_size = size() + n;
+        size_type new_size = size() + (std::min)(n, reserve());
         size_type new_capacity = circular_buffer<T, Alloc>::capacity();
         if (new_size > new_capacity) {
+            if (new_size > max_size())
+                boost::throw_exception(std::length_error("circular_buffer"));
             if (new_capacity == 0)
                 new_capacity = 1;
             for (; new_size > new_capacity; new_capacity *= 2) {}
-- 
2.43.0


From 300d4d224d9af42631a49731fcbec84454e0e40e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:15 +0000
Subject: [PATCH 08/15] fix: read a single pass range only once when inserting
 it into the space optimized buffer

---
 .../boost/circular_buffer/space_optimized.hpp | 42 +++++++++++++++++++
 1 file changed, 42 insertions(+)

diff --git a/include/boost/circular_buffer/space_optimized.hpp b/include/boost/circular_buffer/space_optimized.hpp
index b0ef6ac..6e11189 100644
--- a/include/boost/circular_buffer/space_optimized.hpp
+++ b/include/boost/circular_buffer/space_optimized.hpp
@@ -1633,6 +1633,26 @@ private:
     /*! INTERNAL ONLY */
     template <class Iterator>
     void insert(const iterator& pos, Iterator first, Iterator last, const false_type&) {
+#if BOOST_WORKAROUND(BOOST_BORLANDC, BOOST_TESTED_AT(0x581))
+        insert(pos, first, last, std::iterator_traits<Iterator>::iterator_category());
+#else
+        insert(pos, first, last, BOOST_DEDUCED_TYPENAME std::iterator_traits<Iterator>::iterator_category());
+#endif
+    }
+
+    /*! INTERNAL ONLY */
+    template <class InputIterator>
+    void insert(iterator pos, InputIterator first, InputIterator last, const std::input_iterator_tag&) {
+        if (!full() || pos != begin()) {
+            for (; first != last; ++pos) {
+                pos = insert(pos, *first++);
+            }
+        }
+    }
+
+    /*! INTERNAL ONLY */
+    template <class ForwardIterator>
+    void insert(const iterator& pos, ForwardIterator first, ForwardIterator last, const std::forward_iterator_tag&) {
         size_type index = pos - begin();
         check_low_capacity(std::distance(first, last));
         circular_buffer<T, Alloc>::insert(begin() + index, first, last);
@@ -1647,6 +1667,28 @@ private:
     /*! INTERNAL ONLY */
     template <class Iterator>
     void rinsert(const iterator& pos, Iterator first, Iterator last, const false_type&) {
+#if BOOST_WORKAROUND(BOOST_BORLANDC, BOOST_TESTED_AT(0x581))
+        rinsert(pos, first, last, std::iterator_traits<Iterator>::iterator_category());
+#else
+        rinsert(pos, first, last, BOOST_DEDUCED_TYPENAME std::iterator_traits<Iterator>::iterator_category());
+#endif
+    }
+
+    /*! INTERNAL ONLY */
+    template <class InputIterator>
+    void rinsert(iterator pos, InputIterator first, InputIterator last, const std::input_iterator_tag&) {
+        if (!full() || pos.m_it != 0) {
+            for (; first != last; ++pos) {
+                pos = rinsert(pos, *first++);
+                if (pos.m_it == 0)
+                    break;
+            }
+        }
+    }
+
+    /*! INTERNAL ONLY */
+    template <class ForwardIterator>
+    void rinsert(const iterator& pos, ForwardIterator first, ForwardIterator last, const std::forward_iterator_tag&) {
         size_type index = pos - begin();
         check_low_capacity(std::distance(first, last));
         circular_buffer<T, Alloc>::rinsert(begin() + index, first, last);
-- 
2.43.0


From df6698a37b939ef6f62da8e01f9365f72cbe6a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:15 +0000
Subject: [PATCH 09/15] fix: strong exception safety of set_capacity and
 rset_capacity of the space optimized buffer

---
 .../boost/circular_buffer/space_optimized.hpp | 51 +++++++++++--------
 1 file changed, 30 insertions(+), 21 deletions(-)

diff --git a/include/boost/circular_buffer/space_optimized.hpp b/include/boost/circular_buffer/space_optimized.hpp
index 6e11189..7759939 100644
--- a/include/boost/circular_buffer/space_optimized.hpp
+++ b/include/boost/circular_buffer/space_optimized.hpp
@@ -223,12 +223,7 @@ public:
             <code>\link resize() resize(size_type, const_reference)\endlink</code>
     */
     void set_capacity(const capacity_type& capacity_ctrl) {
-        m_capacity_ctrl = capacity_ctrl;
-        if (capacity_ctrl < size()) {
-            iterator e = end();
-            circular_buffer<T, Alloc>::erase(e - (size() - capacity_ctrl), e);
-        }
-        adjust_min_capacity();
+        change_capacity(capacity_ctrl, true);
     }
 
     //! Change the size of the <code>circular_buffer_space_optimized</code>.
@@ -294,12 +289,7 @@ public:
             <code>\link rresize() rresize(size_type, const_reference)\endlink</code>
     */
     void rset_capacity(const capacity_type& capacity_ctrl) {
-        m_capacity_ctrl = capacity_ctrl;
-        if (capacity_ctrl < size()) {
-            iterator b = begin();
-            circular_buffer<T, Alloc>::rerase(b, b + (size() - capacity_ctrl));
-        }
-        adjust_min_capacity();
+        change_capacity(capacity_ctrl, false);
     }
 
     //! Change the size of the <code>circular_buffer_space_optimized</code>.
@@ -1523,11 +1513,26 @@ private:
 // Helper methods
 
     /*! INTERNAL ONLY */
-    void adjust_min_capacity() {
-        if (m_capacity_ctrl.min_capacity() > circular_buffer<T, Alloc>::capacity())
-            circular_buffer<T, Alloc>::set_capacity(m_capacity_ctrl.min_capacity());
-        else
-            check_high_capacity();
+    void change_capacity(const capacity_type& capacity_ctrl, bool keep_first) {
+        const capacity_type old_capacity_ctrl = m_capacity_ctrl;
+        m_capacity_ctrl = capacity_ctrl;
+        BOOST_TRY {
+            const size_type new_capacity = m_capacity_ctrl.min_capacity() > circular_buffer<T, Alloc>::capacity() ?
+                m_capacity_ctrl.min_capacity() :
+                high_capacity((std::min)(size(), m_capacity_ctrl.capacity()));
+            // surplus elements are dropped by the (strongly exception safe) change of the internal capacity
+            if (keep_first)
+                circular_buffer<T, Alloc>::set_capacity(new_capacity);
+            else
+                circular_buffer<T, Alloc>::rset_capacity(new_capacity);
+        } BOOST_CATCH(...) {
+            m_capacity_ctrl = old_capacity_ctrl;
+            BOOST_RETHROW
+        }
+        BOOST_CATCH_END
+#if BOOST_CB_ENABLE_DEBUG
+        this->invalidate_iterators_except(end());
+#endif
     }
 
     /*! INTERNAL ONLY */
@@ -1558,17 +1563,21 @@ private:
     }
 
     /*! INTERNAL ONLY */
-    void check_high_capacity() {
+    size_type high_capacity(size_type buffer_size) const {
         size_type new_capacity = circular_buffer<T, Alloc>::capacity();
-        while (new_capacity / 3 >= size()) { // (new_capacity / 3) -> avoid oscillations
+        while (new_capacity / 3 >= buffer_size) { // (new_capacity / 3) -> avoid oscillations
             new_capacity /= 2;
             if (new_capacity <= m_capacity_ctrl.min_capacity()) {
                 new_capacity = m_capacity_ctrl.min_capacity();
                 break;
             }
         }
-        circular_buffer<T, Alloc>::set_capacity(
-            ensure_reserve(new_capacity, size()));
+        return ensure_reserve(new_capacity, buffer_size);
+    }
+
+    /*! INTERNAL ONLY */
+    void check_high_capacity() {
+        circular_buffer<T, Alloc>::set_capacity(high_capacity(size()));
 #if BOOST_CB_ENABLE_DEBUG
         this->invalidate_iterators_except(end());
 #endif
-- 
2.43.0


From 346a591ebb4920021be38a3970338ea95edb7f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:50 +0000
Subject: [PATCH 10/15] fix: strong exception safety of the copy assignment of
 the space optimized buffer

---
 include/boost/circular_buffer/base.hpp        | 23 ++++++++++++-------
 .../boost/circular_buffer/space_optimized.hpp |  2 +-
 2 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/include/boost/circular_buffer/base.hpp b/include/boost/circular_buffer/base.hpp
index 7e65005..98717a1 100644
--- a/include/boost/circular_buffer/base.hpp
+++ b/include/boost/circular_buffer/base.hpp
@@ -1234,14 +1234,7 @@ public:
     circular_buffer<T, Alloc>& operator = (const circular_buffer<T, Alloc>& cb) {
         if (this == &cb)
             return *this;
-        pointer buff = allocate(cb.capacity());
-        BOOST_TRY {
-            reset(buff, cb_details::uninitialized_copy(cb.begin(), cb.end(), buff, alloc()), cb.capacity());
-        } BOOST_CATCH(...) {
-            deallocate(buff, cb.capacity());
-            BOOST_RETHROW
-        }
-        BOOST_CATCH_END
+        assign_copy(cb, cb.capacity());
         return *this;
     }
 
@@ -2637,6 +2630,20 @@ private:
             m_last = m_buff;
     }
 
+protected:
+    /*! INTERNAL ONLY */
+    void assign_copy(const circular_buffer<T, Alloc>& cb, capacity_type new_capacity) {
+        pointer buff = allocate(new_capacity);
+        BOOST_TRY {
+            reset(buff, cb_details::uninitialized_copy(cb.begin(), cb.end(), buff, alloc()), new_capacity);
+        } BOOST_CATCH(...) {
+            deallocate(buff, new_capacity);
+            BOOST_RETHROW
+        }
+        BOOST_CATCH_END
+    }
+
+private:
     /*! INTERNAL ONLY */
     void reset(pointer buff, pointer last, capacity_type new_capacity) {
         destroy();
diff --git a/include/boost/circular_buffer/space_optimized.hpp b/include/boost/circular_buffer/space_optimized.hpp
index 7759939..cb7d88a 100644
--- a/include/boost/circular_buffer/space_optimized.hpp
+++ b/include/boost/circular_buffer/space_optimized.hpp
@@ -553,7 +553,7 @@ public:
     circular_buffer_space_optimized<T, Alloc>& operator = (const circular_buffer_space_optimized<T, Alloc>& cb) {
         if (this == &cb)
             return *this;
-        circular_buffer<T, Alloc>::assign(cb.begin(), cb.end());
+        circular_buffer<T, Alloc>::assign_copy(cb, cb.size()); // strongly exception safe
         m_capacity_ctrl = cb.m_capacity_ctrl;
         return *this;
     }
-- 
2.43.0


From 18d47616776b667e62f2f82023ace076cb84c27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:36 +0000
Subject: [PATCH 11/15] fix: rotate with allocators whose pointer is a class
 type

---
 include/boost/circular_buffer/base.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/circular_buffer/base.hpp b/include/boost/circular_buffer/base.hpp
index 98717a1..c38ea4d 100644
--- a/include/boost/circular_buffer/base.hpp
+++ b/include/boost/circular_buffer/base.hpp
@@ -741,7 +741,7 @@ public:
         BOOST_CB_ASSERT(new_begin.is_valid(this)); // check for uninitialized or invalidated iterator
         BOOST_CB_ASSERT(new_begin.m_it != 0);      // check for iterator pointing to end()
         if (full()) {
-            m_first = m_last = const_cast<pointer>(new_begin.m_it);
+            m_first = m_last = m_buff + (new_begin.m_it - const_pointer(m_buff));
         } else {
             difference_type m = end() - new_begin;
             difference_type n = new_begin - begin();
-- 
2.43.0


From ab930293f3f6e10ddb2927320659debb46ef0ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:36 +0000
Subject: [PATCH 12/15] fix: constructing a space optimized buffer from a
 capacity and n items of integral type

---
 include/boost/circular_buffer/space_optimized.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/boost/circular_buffer/space_optimized.hpp b/include/boost/circular_buffer/space_optimized.hpp
index cb7d88a..ba5f141 100644
--- a/include/boost/circular_buffer/space_optimized.hpp
+++ b/include/boost/circular_buffer/space_optimized.hpp
@@ -498,8 +498,7 @@ public:
         init_capacity(capacity_ctrl, first, last, is_integral<InputIterator>()),
         first, last, alloc)
     , m_capacity_ctrl(capacity_ctrl) {
-        reduce_capacity(
-            is_same< BOOST_DEDUCED_TYPENAME std::iterator_traits<InputIterator>::iterator_category, std::input_iterator_tag >());
+        reduce_capacity(first, is_integral<InputIterator>());
     }
 
 #if defined(BOOST_CB_NEVER_DEFINED)
@@ -1583,6 +1582,17 @@ private:
 #endif
     }
 
+    /*! INTERNAL ONLY */
+    template <class IntegralType>
+    void reduce_capacity(const IntegralType&, const true_type&) {}
+
+    /*! INTERNAL ONLY */
+    template <class Iterator>
+    void reduce_capacity(const Iterator&, const false_type&) {
+        reduce_capacity(
+            is_same< BOOST_DEDUCED_TYPENAME std::iterator_traits<Iterator>::iterator_category, std::input_iterator_tag >());
+    }
+
     /*! INTERNAL ONLY */
     void reduce_capacity(const true_type&) {
         circular_buffer<T, Alloc>::set_capacity((std::max)(m_capacity_ctrl.min_capacity(), size()));
-- 
2.43.0


From 4e425dc1f6960b9e2f1a4583f61f01572a43e4ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:01 +0000
Subject: [PATCH 13/15] fix: move construction of
 circular_buffer_space_optimized needed a default constructible allocator

---
 include/boost/circular_buffer/space_optimized.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/circular_buffer/space_optimized.hpp b/include/boost/circular_buffer/space_optimized.hpp
index ba5f141..9768ff8 100644
--- a/include/boost/circular_buffer/space_optimized.hpp
+++ b/include/boost/circular_buffer/space_optimized.hpp
@@ -433,7 +433,7 @@ public:
         \par Constant.
     */
     circular_buffer_space_optimized(circular_buffer_space_optimized<T, Alloc>&& cb) BOOST_NOEXCEPT
-    : circular_buffer<T, Alloc>()
+    : circular_buffer<T, Alloc>(cb.get_allocator())
     , m_capacity_ctrl(0) {
         cb.swap(*this);
     }
-- 
2.43.0


From 38966c9a34ad0972d4359f049b041d13b79162f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:39 +0000
Subject: [PATCH 14/15] fix: detect decrementing begin() of an empty buffer in
 debug mode

begin() of an empty buffer equals end(), represented by a null pointer, so
the comparison with m_first did not notice it; the iterator came out valid
pointing into uninitialized storage.
---
 include/boost/circular_buffer/details.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/boost/circular_buffer/details.hpp b/include/boost/circular_buffer/details.hpp
index 07cca67..06a36d2 100644
--- a/include/boost/circular_buffer/details.hpp
+++ b/include/boost/circular_buffer/details.hpp
@@ -315,6 +315,7 @@ struct iterator
     iterator& operator -- () {
         BOOST_CB_ASSERT(is_valid(m_buff));        // check for uninitialized or invalidated iterator
         BOOST_CB_ASSERT(m_it != m_buff->m_first); // check for iterator pointing to begin()
+        BOOST_CB_ASSERT(!m_buff->empty());        // begin() of an empty buffer is end()
         if (m_it == 0)
             m_it = m_buff->m_last;
         m_buff->decrement(m_it);
-- 
2.43.0


From bb97538a08d5c824d7a88dcfde57568c99ec2551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:43 +0000
Subject: [PATCH 15/15] fix: stop an iterator movement by the smallest
 difference with an assertion

---
 include/boost/circular_buffer/details.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/boost/circular_buffer/details.hpp b/include/boost/circular_buffer/details.hpp
index 06a36d2..28fe99d 100644
--- a/include/boost/circular_buffer/details.hpp
+++ b/include/boost/circular_buffer/details.hpp
@@ -338,6 +338,7 @@ struct iterator
             if (m_it == m_buff->m_last)
                 m_it = 0;
         } else if (n < 0) {
+            BOOST_CB_ASSERT(m_buff->begin() - *this <= n); // check for too small n
             *this -= -n;
         }
         return *this;
@@ -353,6 +354,7 @@ struct iterator
             BOOST_CB_ASSERT(*this - m_buff->begin() >= n); // check for too large n
             m_it = m_buff->sub(m_it == 0 ? m_buff->m_last : m_it, n);
         } else if (n < 0) {
+            BOOST_CB_ASSERT(*this - m_buff->end() <= n); // check for too small n
             *this += -n;
         }
         return *this;
-- 
2.43.0

