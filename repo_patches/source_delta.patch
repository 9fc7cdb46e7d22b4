From b0f13a443b5ab39ff77ddc0ad69aab7cbc359ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:24 +0000
Subject: [PATCH 01/33] fix: vector::erase of an empty range destroyed the
 elements after it

With first == last the closing loop copy-constructed every following element
over itself and then destroyed it.
---
 ttl/vector.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ttl/vector.hpp b/ttl/vector.hpp
index fc42799..07f9490 100644
--- a/ttl/vector.hpp
+++ b/ttl/vector.hpp
@@ -305,6 +305,8 @@ namespace ttl
    {
       difference_type off = first - begin();
       difference_type lastoff = last - begin();
+      if (off == lastoff)
+         return begin() + off;
       for (T *f = elements_ + off, *l = elements_ + lastoff; f != l;)
          (--l)->~T();
       T *o = elements_ + off;
-- 
2.43.0


From 6397f8c2bc4bcacb7aa97f2fd84cbf649d931d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:28 +0000
Subject: [PATCH 02/33] fix: fixed_vector::erase of an empty range destroyed
 the elements after it

---
 ttl/fixed_vector.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ttl/fixed_vector.hpp b/ttl/fixed_vector.hpp
index 61099fe..b5f991c 100644
--- a/ttl/fixed_vector.hpp
+++ b/ttl/fixed_vector.hpp
@@ -264,6 +264,8 @@ namespace ttl
    {
       difference_type off = first - begin();
       difference_type lastoff = last - begin();
+      if (off == lastoff)
+         return begin() + off;
       for (T *f = elements() + off, *l = elements() + lastoff; f != l;)
          (--l)->~T();
       T *o = elements() + off;
-- 
2.43.0


From cb1df54aac0ca73dbf7fc2d51126d5c19be476e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:32 +0000
Subject: [PATCH 03/33] fix: self-assignment emptied the containers

The copy assignments cleared *this before copying from the other, so x = x lost
all the elements.
---
 ttl/backward_list.hpp | 2 ++
 ttl/fixed_vector.hpp  | 2 ++
 ttl/forward_list.hpp  | 2 ++
 ttl/lazy_queue.hpp    | 2 ++
 ttl/list.hpp          | 2 ++
 ttl/map.hpp           | 2 ++
 ttl/set.hpp           | 2 ++
 ttl/vector.hpp        | 2 ++
 8 files changed, 16 insertions(+)

diff --git a/ttl/backward_list.hpp b/ttl/backward_list.hpp
index f46213f..d70acf2 100644
--- a/ttl/backward_list.hpp
+++ b/ttl/backward_list.hpp
@@ -120,6 +120,8 @@ namespace ttl
 
       backward_list &operator=(const backward_list &other)
       {
+         if (this == &other)
+            return *this;
          clear();
          insert_after(cbefore_begin(), other.cbegin(), other.cend());
          return *this;
diff --git a/ttl/fixed_vector.hpp b/ttl/fixed_vector.hpp
index b5f991c..eead4e3 100644
--- a/ttl/fixed_vector.hpp
+++ b/ttl/fixed_vector.hpp
@@ -167,6 +167,8 @@ namespace ttl
    template<typename T, const unsigned int N>
    fixed_vector<T,N> &fixed_vector<T,N>::operator=(const fixed_vector &other)
    {
+      if (this == &other)
+         return *this;
       clear();
       for (const_iterator i = other.cbegin(); i != other.cend(); ++i)
          ::new(last_++) T(*i);
diff --git a/ttl/forward_list.hpp b/ttl/forward_list.hpp
index df44e9a..86615ac 100644
--- a/ttl/forward_list.hpp
+++ b/ttl/forward_list.hpp
@@ -108,6 +108,8 @@ namespace ttl
 
       forward_list &operator=(const forward_list &other)
       {
+         if (this == &other)
+            return *this;
          clear();
          insert_after(cbefore_begin(), other.cbegin(), other.cend());
          return *this;
diff --git a/ttl/lazy_queue.hpp b/ttl/lazy_queue.hpp
index 446ccec..b9712cb 100644
--- a/ttl/lazy_queue.hpp
+++ b/ttl/lazy_queue.hpp
@@ -144,6 +144,8 @@ namespace ttl
 
       lazy_queue &operator=(const lazy_queue &other)
       {
+         if (this == &other)
+            return *this;
          clear();
          insert_after(cbefore_begin(), other.cbegin(), other.cend());
          return *this;
diff --git a/ttl/list.hpp b/ttl/list.hpp
index 565cdc5..7c91d5c 100644
--- a/ttl/list.hpp
+++ b/ttl/list.hpp
@@ -209,6 +209,8 @@ namespace ttl
 
       list &operator=(const list &other)
       {
+         if (this == &other)
+            return *this;
          clear();
          insert(begin(), other.cbegin(), other.cend());
          return *this;
diff --git a/ttl/map.hpp b/ttl/map.hpp
index 1a52ced..ac1314c 100644
--- a/ttl/map.hpp
+++ b/ttl/map.hpp
@@ -181,6 +181,8 @@ namespace ttl
 
       map &operator=(const map &other)
       {
+         if (this == &other)
+            return *this;
          clear();
          rbtree_.assign(other.rbtree_);
          return *this;
diff --git a/ttl/set.hpp b/ttl/set.hpp
index a989355..7f41fc3 100644
--- a/ttl/set.hpp
+++ b/ttl/set.hpp
@@ -169,6 +169,8 @@ namespace ttl
 
       set &operator=(const set &other)
       {
+         if (this == &other)
+            return *this;
          clear();
          rbtree_.assign(other.rbtree_);
          return *this;
diff --git a/ttl/vector.hpp b/ttl/vector.hpp
index 07f9490..0df31bc 100644
--- a/ttl/vector.hpp
+++ b/ttl/vector.hpp
@@ -208,6 +208,8 @@ namespace ttl
    template<typename T>
    vector<T> &vector<T>::operator=(const vector &other)
    {
+      if (this == &other)
+         return *this;
       clear();
       reserve(other.capacity());
       for (const_iterator i = other.cbegin(); i != other.cend(); ++i)
-- 
2.43.0


From eae027fcd9bd416813811594960be24add436bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:37 +0000
Subject: [PATCH 04/33] fix: list::clear left the link to the last element
 dangling

---
 ttl/list.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ttl/list.hpp b/ttl/list.hpp
index 7c91d5c..882e3cf 100644
--- a/ttl/list.hpp
+++ b/ttl/list.hpp
@@ -406,6 +406,7 @@ namespace ttl
          head_.next = head_.next->next;
          delete p;
       }
+      head_.prev = &head_;
    }
    template<typename T>
    typename list<T>::iterator list<T>::erase(const_iterator pos, const_iterator last)
-- 
2.43.0


From c763b654f195dcf382f6945b4ce09890f7f0d56c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:41 +0000
Subject: [PATCH 05/33] fix: list::splice of an empty range, or of the elements
 just before the position

both leave the lists as they are, instead of corrupting the links
---
 ttl/list.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ttl/list.hpp b/ttl/list.hpp
index 882e3cf..65ae577 100644
--- a/ttl/list.hpp
+++ b/ttl/list.hpp
@@ -35,6 +35,8 @@ namespace ttl
 
       void splice(list_node *first, list_node *last)
       {
+         if (first == last || this == last)
+            return;
          last->prev->next = this;
          first->prev->next = last;
          this->prev->next = first;
-- 
2.43.0


From 5493e23e7dda1fcb93de42ed821b1ca744a6f96c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:45 +0000
Subject: [PATCH 06/33] fix: swap of two empty lists cross-linked their heads

---
 ttl/list.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ttl/list.hpp b/ttl/list.hpp
index 65ae577..c735259 100644
--- a/ttl/list.hpp
+++ b/ttl/list.hpp
@@ -78,6 +78,8 @@ namespace ttl
                t = a, a = b, b = t; // swap
             }
          }
+         else if (b == b->next)
+            return;
          a->prev = b->prev;
          a->next = b->next;
          b->prev->next = b->next->prev = a;
-- 
2.43.0


From a8b975a9ec87987747870749c5608d5bce3ac380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:50 +0000
Subject: [PATCH 07/33] fix: list::resize(0) kept all the elements

---
 ttl/list.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/ttl/list.hpp b/ttl/list.hpp
index c735259..0e18a82 100644
--- a/ttl/list.hpp
+++ b/ttl/list.hpp
@@ -366,6 +366,11 @@ namespace ttl
    template<typename T>
    void list<T>::resize(size_type newsize)
    {
+      if (!newsize)
+      {
+         clear();
+         return;
+      }
       size_type siz = 0;
       list_node *p;
       for (p = head_.next; p != &head_; p = p->next)
@@ -385,6 +390,11 @@ namespace ttl
    template<typename T>
    void list<T>::resize(size_type newsize, const T &value)
    {
+      if (!newsize)
+      {
+         clear();
+         return;
+      }
       size_type siz = 0;
       list_node *p;
       for (p = head_.next; p != &head_; p = p->next)
-- 
2.43.0


From 6068671b404ae2f2b5165db5adf20d1032d5a5f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:54 +0000
Subject: [PATCH 08/33] fix: list::resize appended uninitialized elements of
 the built-in types

---
 ttl/list.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttl/list.hpp b/ttl/list.hpp
index 0e18a82..db8077d 100644
--- a/ttl/list.hpp
+++ b/ttl/list.hpp
@@ -128,7 +128,7 @@ namespace ttl
       struct node: list_node
       {
          T value;
-         node() {}
+         node(): value() {}
          node(const T &v): value(v) {}
       };
       list_node head_;
-- 
2.43.0


From 0d331a0b7beb6bb46f717f7648ec51f5a59d0584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:59 +0000
Subject: [PATCH 09/33] fix: list::remove compared with a destroyed value

if the value is a reference to an element of the list: use-after-free
---
 ttl/list.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/ttl/list.hpp b/ttl/list.hpp
index db8077d..510f44a 100644
--- a/ttl/list.hpp
+++ b/ttl/list.hpp
@@ -438,12 +438,23 @@ namespace ttl
    template<typename T>
    void list<T>::remove(const T &value)
    {
+      list_node *own = 0; // the node of the value, if it is in this list
       for (list_node *p = head_.next, *n = p->next; p != &head_; p = n, n = n->next)
          if (static_cast<const node *>(p)->value == value)
          {
+            if (&static_cast<const node *>(p)->value == &value)
+            {
+               own = p;
+               continue;
+            }
             p->unlink();
             delete static_cast<node *>(p);
          }
+      if (own)
+      {
+         own->unlink();
+         delete static_cast<node *>(own);
+      }
    }
    template<typename T>
    template<typename Predicate>
-- 
2.43.0


From 9d551e44ec3d33a01778756fed793e37cd1b57ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:03 +0000
Subject: [PATCH 10/33] fix: fixed_vector::swap with a shorter vector

used the size of the longer one as the common size: accessed elements
past the end and lost the remainder
---
 ttl/fixed_vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttl/fixed_vector.hpp b/ttl/fixed_vector.hpp
index eead4e3..5121493 100644
--- a/ttl/fixed_vector.hpp
+++ b/ttl/fixed_vector.hpp
@@ -286,7 +286,7 @@ namespace ttl
       const bool this_a = this->size() < x.size();
       fixed_vector &a = this_a ? *this: x;
       fixed_vector &b = this_a ? x: *this;
-      size_type minsiz = this_a ? a.size(): b.size();
+      size_type minsiz = a.size();
       ttl::swap_ranges(a.elements(), a.elements() + minsiz, b.elements());
       T *e = b.elements() + minsiz;
       while (e < b.last_)
-- 
2.43.0


From 32c2b7fb8b1cb2c1c68d68b2fa07735fdf18659d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:07 +0000
Subject: [PATCH 11/33] fix: vector and fixed_vector insert of an own element

The elements after the position are moved before the new ones are constructed,
so the value must be copied first.
---
 ttl/fixed_vector.hpp | 3 ++-
 ttl/vector.hpp       | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/ttl/fixed_vector.hpp b/ttl/fixed_vector.hpp
index 5121493..3c43477 100644
--- a/ttl/fixed_vector.hpp
+++ b/ttl/fixed_vector.hpp
@@ -206,6 +206,7 @@ namespace ttl
          T *o;
          if (pos < end())
          {
+            const value_type copy(x); // the original can be an element being moved
             T *p = elements() + dist, *i = last_;
             for (o = last_ + n; end_of_elements() < o && i != p; --o)
                (--i)->~T();
@@ -218,7 +219,7 @@ namespace ttl
                i->~T();
             }
             for (o = p; n-- && o < end_of_elements();)
-               ::new(o++) T(x);
+               ::new(o++) T(copy);
          }
          else
          {
diff --git a/ttl/vector.hpp b/ttl/vector.hpp
index 0df31bc..1089da6 100644
--- a/ttl/vector.hpp
+++ b/ttl/vector.hpp
@@ -37,7 +37,7 @@ namespace ttl
       struct vc_args { };
       struct vc_counter_args: vc_args
       {
-         const value_type &x;
+         const value_type x; // a copy: the original can be an element being moved
          vc_counter_args(const value_type &_x): x(_x) {}
       };
       void vc_counter(T *p, vc_args &args) const
-- 
2.43.0


From d57c8300bdad4384cc32ac6ad42b8ac8cfb138df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:12 +0000
Subject: [PATCH 12/33] fix: fixed_vector::insert of a huge count wrapped the
 pointer around

---
 ttl/fixed_vector.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ttl/fixed_vector.hpp b/ttl/fixed_vector.hpp
index 3c43477..dd8ccb4 100644
--- a/ttl/fixed_vector.hpp
+++ b/ttl/fixed_vector.hpp
@@ -208,6 +208,8 @@ namespace ttl
          {
             const value_type copy(x); // the original can be an element being moved
             T *p = elements() + dist, *i = last_;
+            if (n > max_size())
+               n = max_size();
             for (o = last_ + n; end_of_elements() < o && i != p; --o)
                (--i)->~T();
             if (end_of_elements() < o)
-- 
2.43.0


From ed93a4f0fe764efaccfb5db239c38262bd3aae24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:17 +0000
Subject: [PATCH 13/33] fix: forward_list::splice_after of an empty range lost
 the tail of the list

Also leave the list as it is if the position is the iterator itself or just after
it, instead of making a loop.
---
 ttl/slist_node.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ttl/slist_node.hpp b/ttl/slist_node.hpp
index 1c9b74a..3435390 100644
--- a/ttl/slist_node.hpp
+++ b/ttl/slist_node.hpp
@@ -30,12 +30,16 @@ namespace ttl
       void splice_after(slist_node *o)
       {
          slist_node *n = o->next;
+         if (n == this)
+            return;
          o->next = n->next;
          n->next = next;
          next = n;
       }
       void splice_after(slist_node *f, slist_node *l)
       {
+         if (f == this || f->next == l)
+            return;
          slist_node *n = next;
          next = f->next;
          slist_node *o = f;
-- 
2.43.0


From 74aa3e07931e3d12074758dd58a234de85df4bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:21 +0000
Subject: [PATCH 14/33] fix: backward_list::insert_after(range) at the end did
 not update the tail

The copies of a backward_list were empty() and lost elements on push_back.
---
 ttl/backward_list.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttl/backward_list.hpp b/ttl/backward_list.hpp
index d70acf2..d308309 100644
--- a/ttl/backward_list.hpp
+++ b/ttl/backward_list.hpp
@@ -268,7 +268,7 @@ namespace ttl
       for ( ; first != last; ++first)
          p = p->insert_after(new node(*first));
       if (pn == tail_)
-         tail_ = pn;
+         tail_ = p;
    }
    template<typename T>
    void backward_list<T>::clear()
-- 
2.43.0


From 77e0a52bc16d05d48c8b5b351711d8b0ea8d5b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:25 +0000
Subject: [PATCH 15/33] fix: backward_list::pop_front of the last element left
 the tail dangling

---
 ttl/backward_list.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttl/backward_list.hpp b/ttl/backward_list.hpp
index d308309..ba290f3 100644
--- a/ttl/backward_list.hpp
+++ b/ttl/backward_list.hpp
@@ -175,7 +175,7 @@ namespace ttl
       void pop_front()
       {
          delete static_cast<node *>(head_.unlink_next());
-         if (empty())
+         if (!head_.next)
             tail_ = &head_;
       }
 
-- 
2.43.0


From 5ca62e157d7d91eb3d637b654928328905b08fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:29 +0000
Subject: [PATCH 16/33] fix: backward_list::reverse of an empty list made the
 tail a null pointer

---
 ttl/backward_list.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttl/backward_list.hpp b/ttl/backward_list.hpp
index ba290f3..175c6f5 100644
--- a/ttl/backward_list.hpp
+++ b/ttl/backward_list.hpp
@@ -290,7 +290,7 @@ namespace ttl
    template<typename T>
    void backward_list<T>::reverse()
    {
-      tail_ = head_.next;
+      tail_ = head_.next ? head_.next: &head_;
       head_.reverse();
    }
 #if TODO
-- 
2.43.0


From 9360dbd01cb2eda232b7cedfca5a0bf94dcddd58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:33 +0000
Subject: [PATCH 17/33] fix: backward_list and lazy_queue swap with an empty
 one

left the tail pointing into the other object
---
 ttl/backward_list.hpp | 4 ++++
 ttl/lazy_queue.hpp    | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/ttl/backward_list.hpp b/ttl/backward_list.hpp
index 175c6f5..99395ce 100644
--- a/ttl/backward_list.hpp
+++ b/ttl/backward_list.hpp
@@ -221,6 +221,10 @@ namespace ttl
       {
          ttl::swap(head_.next, other.head_.next);
          ttl::swap(tail_, other.tail_);
+         if (!head_.next)
+            tail_ = &head_;
+         if (!other.head_.next)
+            other.tail_ = &other.head_;
       }
 
       void clear();
diff --git a/ttl/lazy_queue.hpp b/ttl/lazy_queue.hpp
index b9712cb..a995462 100644
--- a/ttl/lazy_queue.hpp
+++ b/ttl/lazy_queue.hpp
@@ -209,6 +209,10 @@ namespace ttl
       {
          ttl::swap(head_.next, other.head_.next);
          ttl::swap(tail_, other.tail_);
+         if (!head_.next)
+            tail_ = &head_;
+         if (!other.head_.next)
+            other.tail_ = &other.head_;
       }
 
       void clear();
-- 
2.43.0


From cf422582af8a85903683cd0528bf425a394b3416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:37 +0000
Subject: [PATCH 18/33] fix: lazy_queue::cleanup destroyed the values of the
 pooled nodes again

---
 ttl/lazy_queue.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttl/lazy_queue.hpp b/ttl/lazy_queue.hpp
index a995462..ecbf7ff 100644
--- a/ttl/lazy_queue.hpp
+++ b/ttl/lazy_queue.hpp
@@ -139,7 +139,7 @@ namespace ttl
       void cleanup()
       {
          while (dead_.next)
-            ::delete(static_cast<node *>(dead_.unlink_next()));
+            ::operator delete(static_cast<node *>(dead_.unlink_next()));
       }
 
       lazy_queue &operator=(const lazy_queue &other)
-- 
2.43.0


From a37c418b126bb9bedc4dc8aad2ce8c0a6bfb9ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:12 +0000
Subject: [PATCH 19/33] fix: upper_bound and equal_range of a missing key in
 map and set

skipped an element: took the lower bound for an equal one
---
 ttl/map.hpp | 18 ++++--------------
 ttl/set.hpp | 18 ++++--------------
 2 files changed, 8 insertions(+), 28 deletions(-)

diff --git a/ttl/map.hpp b/ttl/map.hpp
index ac1314c..32419cd 100644
--- a/ttl/map.hpp
+++ b/ttl/map.hpp
@@ -275,18 +275,12 @@ namespace ttl
    template<typename KT, typename T, typename Compare>
    typename map<KT,T,Compare>::iterator map<KT,T,Compare>::upper_bound(const KT &key)
    {
-      node_type *lo = rbtree_.lower_bound(key);
-      if (lo == rbtree_.end())
-         return end();
-      return iterator(static_cast<node_type *>(rbtree_base::next_node(lo)));
+      return iterator(rbtree_.upper_bound(key));
    }
    template<typename KT, typename T, typename Compare>
    typename map<KT,T,Compare>::const_iterator map<KT,T,Compare>::upper_bound(const KT &key) const
    {
-      const node_type *lo = rbtree_.lower_bound(key);
-      if (lo == rbtree_.end())
-         return end();
-      return const_iterator(static_cast<const node_type *>(rbtree_base::next_node(lo)));
+      return const_iterator(rbtree_.upper_bound(key));
    }
 
    template<typename KT, typename T, typename Compare>
@@ -294,9 +288,7 @@ namespace ttl
    map<KT,T,Compare>::equal_range(const KT &key)
    {
       node_type *lo = rbtree_.lower_bound(key);
-      node_type *up = lo;
-      if (lo != rbtree_.end())
-         up = static_cast<node_type *>(rbtree_base::next_node(lo));
+      node_type *up = rbtree_.upper_bound(key);
       return pair<iterator, iterator>(iterator(lo), iterator(up));
    }
    template<typename KT, typename T, typename Compare>
@@ -304,9 +296,7 @@ namespace ttl
    map<KT,T,Compare>::equal_range(const KT &key) const
    {
       const node_type *lo = rbtree_.lower_bound(key);
-      const node_type *up = lo;
-      if (lo != rbtree_.end())
-         up = static_cast<const node_type *>(rbtree_base::next_node(lo));
+      const node_type *up = rbtree_.upper_bound(key);
       return pair<const_iterator, const_iterator>(const_iterator(lo), const_iterator(up));
    }
 
diff --git a/ttl/set.hpp b/ttl/set.hpp
index 7f41fc3..1681ac2 100644
--- a/ttl/set.hpp
+++ b/ttl/set.hpp
@@ -252,18 +252,12 @@ namespace ttl
    template<typename KT, typename Compare>
    typename set<KT,Compare>::iterator set<KT,Compare>::upper_bound(const KT &key)
    {
-      node_type *lo = rbtree_.lower_bound(key);
-      if (lo == rbtree_.end())
-         return end();
-      return iterator(static_cast<node_type *>(rbtree_base::next_node(lo)));
+      return iterator(rbtree_.upper_bound(key));
    }
    template<typename KT, typename Compare>
    typename set<KT,Compare>::const_iterator set<KT,Compare>::upper_bound(const KT &key) const
    {
-      const node_type *lo = rbtree_.lower_bound(key);
-      if (lo == rbtree_.end())
-         return end();
-      return const_iterator(static_cast<const node_type *>(rbtree_base::next_node(lo)));
+      return const_iterator(rbtree_.upper_bound(key));
    }
 
    template<typename KT, typename Compare>
@@ -271,9 +265,7 @@ namespace ttl
    set<KT,Compare>::equal_range(const KT &key)
    {
       node_type *lo = rbtree_.lower_bound(key);
-      node_type *up = lo;
-      if (lo != rbtree_.end())
-         up = static_cast<node_type *>(rbtree_base::next_node(lo));
+      node_type *up = rbtree_.upper_bound(key);
       return pair<iterator, iterator>(iterator(lo), iterator(up));
    }
    template<typename KT, typename Compare>
@@ -281,9 +273,7 @@ namespace ttl
    set<KT,Compare>::equal_range(const KT &key) const
    {
       const node_type *lo = rbtree_.lower_bound(key);
-      const node_type *up = lo;
-      if (lo != rbtree_.end())
-         up = static_cast<const node_type *>(rbtree_base::next_node(lo));
+      const node_type *up = rbtree_.upper_bound(key);
       return pair<const_iterator, const_iterator>(const_iterator(lo), const_iterator(up));
    }
 
-- 
2.43.0


From 9c03cec7588d94d08750341c13f0c222c16b44a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:16 +0000
Subject: [PATCH 20/33] fix: rbtree::count missed equal keys outside of the
 search path

---
 ttl/rbtree.hpp | 16 +++-------------
 1 file changed, 3 insertions(+), 13 deletions(-)

diff --git a/ttl/rbtree.hpp b/ttl/rbtree.hpp
index addb86a..ad3abe3 100644
--- a/ttl/rbtree.hpp
+++ b/ttl/rbtree.hpp
@@ -350,20 +350,10 @@ namespace ttl
    template <class K, class KV, class KeyOfValue, class Compare>
    size_t rbtree<K,KV,KeyOfValue,Compare>::count(const K &key) const
    {
-      const rbnode *n = root_();
       size_t c = 0;
-      while (n)
-      {
-         const K &nkey = keyof_(static_cast<const node *>(n)->data);
-         if (is_less_(nkey, key))
-            n = n->right;
-         else
-         {
-            if (nkey == key)
-               ++c;
-            n = n->left;
-         }
-      }
+      const rbnode *e = upper_bound(key);
+      for (const rbnode *n = lower_bound(key); n != e; n = next_node(n))
+         ++c;
       return c;
    }
 
-- 
2.43.0


From 8fee7ed58672a02c989e805565e3b801f3843f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:20 +0000
Subject: [PATCH 21/33] fix: sorted_vector_map::count was inverted

---
 ttl/sorted_vector_map.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttl/sorted_vector_map.hpp b/ttl/sorted_vector_map.hpp
index 487b685..592a00a 100644
--- a/ttl/sorted_vector_map.hpp
+++ b/ttl/sorted_vector_map.hpp
@@ -158,7 +158,7 @@ namespace ttl
       iterator find(const KT &key);
       const_iterator find(const KT &key) const;
 
-      size_type count(const KT &key) const { return find(key) == cend(); }
+      size_type count(const KT &key) const { return find(key) != cend(); }
 
       ttl::pair<iterator,iterator> equal_range(const KT &key)
       {
-- 
2.43.0


From 0975eb7a3f5976b3a11682c9901a19fe9c2a8ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:23 +0000
Subject: [PATCH 22/33] fix: sorted_vector_map did not grow from capacity 1

1 + 1/2 is still 1: wrote past the end of the array
---
 ttl/sorted_vector_map.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttl/sorted_vector_map.hpp b/ttl/sorted_vector_map.hpp
index 592a00a..eced061 100644
--- a/ttl/sorted_vector_map.hpp
+++ b/ttl/sorted_vector_map.hpp
@@ -280,7 +280,7 @@ namespace ttl
          value_type **i;
          size_type newcapacity = end_of_elements_ - elements_;
          newcapacity += newcapacity/2; // temporarily funny...
-         if (!newcapacity)
+         if (newcapacity < 2)
             newcapacity = 2;
          value_type **newelements = o = new value_type *[newcapacity];
          for (i = elements_; i != pos.ptr_;)
-- 
2.43.0


From ca4966618889426dd6ca9ae9b26cc19c7cbf18a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:28 +0000
Subject: [PATCH 23/33] fix: vector_map::count of an existing key never
 returned

---
 ttl/vector_map.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttl/vector_map.hpp b/ttl/vector_map.hpp
index 711b91d..6b692da 100644
--- a/ttl/vector_map.hpp
+++ b/ttl/vector_map.hpp
@@ -69,7 +69,7 @@ namespace ttl
       size_type count(const KT &key) const
       {
          size_type n = 0;
-         for (const_iterator i = begin(); (i = find_key(i, key)) != end();)
+         for (const_iterator i = begin(); (i = find_key(i, key)) != end(); ++i)
             ++n;
          return n;
       }
-- 
2.43.0


From d0df61ab6d6a09ea768de8b9e4874068096eac9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:32 +0000
Subject: [PATCH 24/33] fix: assigning a bit of a bitset to another cleared the
 other bits of the slot

---
 ttl/bitset.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttl/bitset.hpp b/ttl/bitset.hpp
index 9f95580..5bd346a 100644
--- a/ttl/bitset.hpp
+++ b/ttl/bitset.hpp
@@ -71,7 +71,7 @@ namespace ttl
          ~reference() {}
          reference& operator=(const reference &other)
          {
-            *bits_ = (*bits_ & mask_) | (-other.operator bool() & mask_);
+            *bits_ = (*bits_ & ~mask_) | (-other.operator bool() & mask_);
             return *this;
          }
          operator bool() const { return (*bits_ & mask_) != 0; }
-- 
2.43.0


From e7e169d708cd15ef978a450fed045699320d0dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:35 +0000
Subject: [PATCH 25/33] fix: bitset::set(pos, false) did not clear the bit

---
 ttl/bitset.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ttl/bitset.hpp b/ttl/bitset.hpp
index 5bd346a..78ba0ad 100644
--- a/ttl/bitset.hpp
+++ b/ttl/bitset.hpp
@@ -123,8 +123,8 @@ namespace ttl
       }
       bitset<N> &set(ttl::size_t pos, bool value)
       {
-         const slot_type mask = (slot_type)value << bits_bit(pos);
-         *bits_slot(pos) = (*bits_slot(pos) & ~mask) | mask;
+         const slot_type mask = (slot_type)1 << bits_bit(pos);
+         *bits_slot(pos) = (*bits_slot(pos) & ~mask) | ((slot_type)value << bits_bit(pos));
          return *this;
       }
 
-- 
2.43.0


From ce84e5d737b7313a01ad7b0d1703ebdae1aa4c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:55 +0000
Subject: [PATCH 26/33] fix: constructing a bitset from a longer string wrote
 past its end

---
 ttl/bitset.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttl/bitset.hpp b/ttl/bitset.hpp
index 78ba0ad..ebe7ed7 100644
--- a/ttl/bitset.hpp
+++ b/ttl/bitset.hpp
@@ -198,7 +198,7 @@ namespace ttl
    bitset<N>::bitset(const char *bits, ttl::size_t n, char zero, char one)
    {
       ttl::size_t i;
-      for (i = 0; i < n; ++i)
+      for (i = 0; i < n && i < N; ++i)
          if (!(bits[i] == zero || bits[i] == one))
             break;
       for (ttl::size_t s = i / (sizeof(slot_type) * CHAR_BIT); s < sizeof(bits_)/sizeof(*bits_); ++s)
-- 
2.43.0


From 2eb80d0cbb3773daba09fab1872cb3eb95d565c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:59 +0000
Subject: [PATCH 27/33] fix: a bitset assigned from a shorter one got its
 unused bits too

---
 ttl/bitset.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ttl/bitset.hpp b/ttl/bitset.hpp
index ebe7ed7..9889238 100644
--- a/ttl/bitset.hpp
+++ b/ttl/bitset.hpp
@@ -284,6 +284,8 @@ namespace ttl
       const ttl::size_t n = N < M ? capacity()/(sizeof(slot_type) * CHAR_BIT): other.capacity()/(sizeof(slot_type) * CHAR_BIT);
       for (i = 0; i < n; ++i)
          bits_[i] = other.slot(i);
+      if (M < N && i)
+         bits_[i - 1] &= bitset<M>::last_bits(); // the unused bits of the other
       for ( ; i < sizeof(bits_)/sizeof(*bits_); ++i)
          bits_[i] = 0;
       return *this;
-- 
2.43.0


From 30bb2a3f8fbab818f9ffff959543a5e51308184b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:03 +0000
Subject: [PATCH 28/33] fix: bitset<0> constructed from a number wrote past its
 end

---
 ttl/bitset.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ttl/bitset.hpp b/ttl/bitset.hpp
index 9889238..68e5cdc 100644
--- a/ttl/bitset.hpp
+++ b/ttl/bitset.hpp
@@ -373,6 +373,8 @@ namespace ttl
       return bitset<N>(a) ^= b;
    }
 
+   template<> inline bitset<0>::bitset(unsigned long) {}
+   template<> inline bitset<0>::bitset(unsigned long long) {}
    template<> inline bitset<0>::slot_type *bitset<0>::bits_slot(ttl::size_t) { return bits_; }
    template<> inline bool bitset<0>::test(ttl::size_t) const { return false; }
    template<> inline bitset<0> &bitset<0>::set() { return *this; }
-- 
2.43.0


From 25279c46542361c357ed09b79bca7f9543b865d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:08 +0000
Subject: [PATCH 29/33] fix: search_n with a predicate compared the first
 element with ==

---
 ttl/algorithm.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttl/algorithm.hpp b/ttl/algorithm.hpp
index 290cf8d..e62372a 100644
--- a/ttl/algorithm.hpp
+++ b/ttl/algorithm.hpp
@@ -135,7 +135,7 @@ namespace ttl
 
       for(; first != last; ++first)
       {
-         if (*first == value)
+         if (pred(*first, value))
          {
             ForwardIt candidate = first;
             for (Size c = 1;; ++c)
-- 
2.43.0


From dba425b903dd700f60aca823a2f13229b8d4968f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:09 +0000
Subject: [PATCH 30/33] fix: min returned the second of two equal arguments

---
 ttl/algorithm.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ttl/algorithm.hpp b/ttl/algorithm.hpp
index e62372a..e310f2d 100644
--- a/ttl/algorithm.hpp
+++ b/ttl/algorithm.hpp
@@ -660,13 +660,13 @@ namespace ttl
    template<class T>
    inline ttl_constexpr const T &min(const T &a, const T &b)
    {
-      return a < b ? a: b;
+      return b < a ? b: a;
    }
 
    template<class T, class Compare>
    inline ttl_constexpr const T &min(const T &a, const T &b, Compare comp)
    {
-      return comp(a, b) ? a: b;
+      return comp(b, a) ? b: a;
    }
 
    template<class T>
-- 
2.43.0


From 950f9b51fafe0abc9b8d76813b37c31bbdb1f9d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:06 +0000
Subject: [PATCH 31/33] fix: ttl_countof did not compile in C++11: the countof
 macro expanded inside it

---
 ttl/utility.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttl/utility.hpp b/ttl/utility.hpp
index 70697f4..619850f 100644
--- a/ttl/utility.hpp
+++ b/ttl/utility.hpp
@@ -16,7 +16,7 @@ namespace ttl
 #ifndef countof
 #define countof(a) ttl::countof(a)
 #endif
-#define ttl_countof(a) ttl::countof(a)
+#define ttl_countof(a) (ttl::countof)(a)
 #else
    template<typename T, unsigned int N> char (&_char_array_ref(const T (&)[N]))[N];
 #ifndef countof
-- 
2.43.0


From f436aa5fca336467aa817a9b03eb87ddbad09da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:11 +0000
Subject: [PATCH 32/33] fix: rbtree::remove of a repeated key lost other nodes

After move_right has rotated, the node on top is the left child of the node
looked at. If its key is equal, it was taken for the node to remove, but
its right subtree is not prepared for delete_min.
---
 ttl/rbtree.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ttl/rbtree.hpp b/ttl/rbtree.hpp
index ad3abe3..b8ba4cf 100644
--- a/ttl/rbtree.hpp
+++ b/ttl/rbtree.hpp
@@ -480,12 +480,15 @@ namespace ttl
                *root = 0;
                break;
             }
+            const rbnode *pivot = *root;
             if ((*root)->right && !is_red((*root)->right) && !is_red((*root)->right->left))
             {
                *root = move_right(*root);
                isless = is_less_(key, keyof_(static_cast<const node *>(*root)->data));
             }
-            if (key == keyof_(static_cast<const node *>(*root)->data))
+            // if rotated, the left child can have an equal key: remove the pivot, below
+            if (*root == pivot &&
+                key == keyof_(static_cast<const node *>(*root)->data))
             {
                rbnode *orphan = delete_min(&(*root)->right);
                orphan->color = (*root)->color;
-- 
2.43.0


From e87894fa8bcc7f221c0abbc500137d46d07add9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:03 +0000
Subject: [PATCH 33/33] fix: all() of bitset<0> was false

All of no bits are set, as in std::bitset<0>.
---
 ttl/bitset.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttl/bitset.hpp b/ttl/bitset.hpp
index 68e5cdc..bd51c78 100644
--- a/ttl/bitset.hpp
+++ b/ttl/bitset.hpp
@@ -384,7 +384,7 @@ namespace ttl
    template<> inline bitset<0> &bitset<0>::reset(ttl::size_t) { return *this; }
    template<> inline bitset<0> &bitset<0>::flip() { return *this; }
    template<> inline bitset<0> &bitset<0>::flip(ttl::size_t) { return *this; }
-   template<> inline bool bitset<0>::all() const { return false; }
+   template<> inline bool bitset<0>::all() const { return true; }
    template<> inline bool bitset<0>::any() const { return false; }
    template<> inline bool bitset<0>::none() const { return true; }
    template<> inline ttl::size_t bitset<0>::count() const { return 0; }
-- 
2.43.0

