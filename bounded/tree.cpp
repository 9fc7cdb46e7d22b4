// Bounded check of map, set and rbtree: C10 finite map, C11 red-black balance and links, C12 order, steps and bounds,
// C13 identity and lifetimes, C23 copies and ==, C24 rbtree with repeated keys. All short histories over few keys, all
// insertion orders of up to 6 keys with every erasure, and random long histories, against a sorted model.
#include <cstddef>
#include "hist.hpp"
#include <ttl/types.hpp>
#include <ttl/utility.hpp>
#include <ttl/functional.hpp>
#include <ttl/algorithm.hpp>
#include <ttl/map.hpp>
#include <ttl/set.hpp>
using h::choose; using h::say;
static int nid;
static int dom = 4;                     // keys 0..dom-1
struct Nd { KI k, v; const void *a; };  // entry of the model
typedef std::vector<Nd> Seq;
static std::string show(const Seq &s) { std::vector<KI> r; for (auto &n : s) r.push_back(n.k); return str(r); }
template<typename T> KI id(KI k) { if (!std::is_same<T, E>::value) k.second = 0; return k; }
template<typename KV> struct NodeOf: ttl::rbnode { KV data; };
static const ttl::rbnode *bad_node;
// black height of the subtree, -1 if it is not a red-black tree
static int walk(const ttl::rbnode *n, const ttl::rbnode *parent, const char *&why, std::vector<const ttl::rbnode *> &order, size_t limit, int d = 0)
{
   if (!n) return 0;
   if (order.size() > limit || d > 200) { why = "the tree has more nodes than entries"; return -1; }
   if (n->parent != parent) { why = "a parent link does not point to the parent"; return -1; }
   if (n->color && (n->left && n->left->color || n->right && n->right->color)) { why = "a red node has a red child"; return -1; }
   int l = walk(n->left, n, why, order, limit, d + 1); if (l < 0) return -1;
   order.push_back(n);
   int r = walk(n->right, n, why, order, limit, d + 1); if (r < 0) return -1;
   if (l != r) { why = "two paths have different numbers of black nodes"; return -1; }
   return l + !n->color;
}
static void tree(const char *p, const ttl::rbnode *first, const ttl::rbnode *root, const ttl::rbnode *header, const Seq &s, const std::function<const void *(const ttl::rbnode *)> &data)
{
   if (!root) { CK("C11", s.empty(), "the tree has no root"); return; }
   const char *why = ""; std::vector<const ttl::rbnode *> order;
   int b = walk(root, header, why, order, s.size() + 2);
   CK("C11", b >= 0, "%s (%s)", why, show(s).c_str());
   CK("C11", !root->color, "the root is red");
   if (b < 0) return;
   CK(p, order.size() == s.size(), "the tree has %lu nodes, not %lu", (unsigned long)order.size(), (unsigned long)s.size());
   for (size_t i = 0; i < order.size() && i < s.size(); ++i) CK(p, data(order[i]) == s[i].a, "node %lu of the tree is not entry %lu", (unsigned long)i, (unsigned long)i);
}
template<typename T> struct Rev { bool operator()(const T &a, const T &c) const { return c < a; } };
template<typename C> struct Less;
template<typename T> struct Less<ttl::less<T>> { static bool lt(int a, int c) { return a < c; } };
template<typename T> struct Less<Rev<T>> { static bool lt(int a, int c) { return c < a; } };
// what map and set differ in
template<typename K, typename T, typename C> struct MapKind
{
   typedef ttl::map<K, T, C> X; typedef ttl::pair<const K, T> KV; typedef T M; static const bool map = true;
   static const K &key(const KV &d) { return d.first; }
   static KI val(const KV &d) { return ki(d.second); }
   struct In { Arr<K> k; Arr<T> v; KV d; In(KI a, KI c): k(std::vector<KI>(1, a)), v(std::vector<KI>(1, c)), d(k.p[0], v.p[0]) {} };
   static bool eq(const X &a, const X &c) { return a == c; }
   static bool ne(const X &a, const X &c) { return a != c; }
};
template<typename K, typename C> struct SetKind
{
   typedef ttl::set<K, C> X; typedef K KV; typedef K M; static const bool map = false;
   static const K &key(const K &d) { return d; }
   static KI val(const K &) { return KI(0, 0); }
   struct In { Arr<K> k; K &d; In(KI a, KI): k(std::vector<KI>(1, a)), d(k.p[0]) {} };
   template<typename Y> static bool eq(const Y &a, const Y &c) { return a == c; }
   template<typename Y> static bool ne(const Y &a, const Y &c) { return a != c; }
};
template<typename K, typename Kd, typename C> struct S
{
   typedef typename Kd::X X; typedef typename X::iterator It; typedef typename X::const_iterator Ci; typedef typename Kd::KV KV; typedef typename Kd::M MT;
   X *x[2]; Seq m[2];
   static bool lt(int a, int c) { return Less<C>::lt(a, c); }
   size_t lo(int i, int k) { size_t p = 0; while (p < m[i].size() && lt(m[i][p].k.first, k)) ++p; return p; }
   size_t up(int i, int k) { size_t p = 0; while (p < m[i].size() && !lt(k, m[i][p].k.first)) ++p; return p; }
   bool has(int i, int k) { return lo(i, k) != up(i, k); }
   template<typename I> bool is(I it, int i, size_t p) { X &c = *x[i]; return p == m[i].size() ? it == c.end() : it != c.end() && (const void *)&*it == m[i][p].a; }
   void check(int i, bool deep = true)
   {
      X &l = *x[i]; const X &c = l; Seq &s = m[i]; size_t p = 0;
      for (It it = l.begin(); it != l.end(); ++it, ++p)
      {
         CK("C10,C12,C23", p < s.size(), "%d has more than %lu entries", i, (unsigned long)s.size());
         if (p >= s.size()) return;
         KI g = ki(Kd::key(*it)), v = Kd::val(*it);
         CK("C10,C12,C23", g == s[p].k, "entry %lu of %d has the key %d.%d, the keys should be %s", (unsigned long)p, i, g.first, g.second, show(s).c_str());
         CK("C10,C23", v == s[p].v, "entry %lu of %d (key %d) has the value %d.%d, not %d.%d", (unsigned long)p, i, g.first, v.first, v.second, s[p].v.first, s[p].v.second);
         if (s[p].a) CK("C13", s[p].a == &*it, "the entry of key %d was moved", g.first);
         s[p].a = &*it;
      }
      CK("C10,C12,C23", p == s.size(), "iteration over %d gives %lu entries, not %lu", i, (unsigned long)p, (unsigned long)s.size());
      if (p != s.size()) return;
      for (It it = l.end(); it != l.begin();) { --it; CK("C12", p > 0 && &*it == s[p - 1].a, "iterating backwards is wrong before %lu", (unsigned long)p); if (p == 0) return; --p; }
      CK("C12", p == 0, "iterating backwards ends early");
      CK("C10", c.empty() == s.empty(), "empty()");
      const ttl::rbnode *root = 0, *first = 0, *hdr = 0;
      if (s.size())
      {
         typedef NodeOf<KV> N;
         first = root = (const ttl::rbnode *)((const char *)s[0].a - offsetof(N, data));
         size_t n = 0;
         while (root->parent && root->parent->parent != root && n++ <= s.size()) root = root->parent;
         CK("C11", root->parent && n <= s.size(), "the parent links do not lead to the root");
         if (!root->parent || n > s.size()) return;
         hdr = root->parent;
         tree("C11", first, root, hdr, s, [](const ttl::rbnode *q) { return (const void *)&((const N *)q)->data; });
      }
      if (!deep) return;
      p = 0; for (Ci it = c.begin(); it != c.end(); it++, ++p) CK("C12", p < s.size() && &*it == s[p].a && it.operator->() == &*it, "const iteration"); CK("C12", p == s.size(), "const iteration ends early");
      for (Ci it = c.cend(); it != c.cbegin();) { Ci o = it; Ci r = it--; CK("C12", r == o && p > 0 && &*it == s[p - 1].a, "const iteration backwards"); if (!p--) return; }
      p = 0; for (It it = l.begin(); it != l.end(); ++p) { It o = it, r = it++; CK("C12", r == o && is(it, i, p + 1), "postfix ++"); It q = it; --q; CK("C12", q == o && !(q != o), "-- does not undo ++ at %lu", (unsigned long)p); q = it; It t = q--; CK("C12", t == it && q == o, "postfix --"); Ci u = it; Ci w = --u; CK("C12", w == Ci(o) && u == Ci(o), "-- of a const iterator"); w = u++; CK("C12", u == Ci(it) && w == Ci(o), "++ of a const iterator"); }
      for (int k = -1; k <= dom; ++k)
      {
         Arr<K> q(std::vector<KI>(1, KI(k, 999))); const K &kk = q.p[0];
         size_t a = lo(i, k), b = up(i, k), f = a != b ? a : s.size();
         CK("C10", is(l.find(kk), i, f) && is(c.find(kk), i, f), "find(%d)", k);
         CK("C10", l.count(kk) == b - a && c.count(kk) == b - a, "count(%d) is %lu, not %lu", k, (unsigned long)c.count(kk), (unsigned long)(b - a));
         CK("C12", is(l.lower_bound(kk), i, a) && is(c.lower_bound(kk), i, a), "lower_bound(%d)", k);
         CK("C12", is(l.upper_bound(kk), i, b) && is(c.upper_bound(kk), i, b), "upper_bound(%d)", k);
         auto e = l.equal_range(kk); auto ce = c.equal_range(kk);
         CK("C12", is(e.first, i, a) && is(e.second, i, b) && is(ce.first, i, a) && is(ce.second, i, b), "equal_range(%d)", k);
         if constexpr (Kd::map) if (a != b) CK("C10", &l.at(kk) == &l.find(kk)->second && &c.at(kk) == &c.find(kk)->second && (const void *)&*l.find(kk) == s[a].a, "at(%d)", k);
      }
   }
   void checks(bool deep = true)
   {
      check(0, deep); check(1, deep);
      long n = m[0].size() + m[1].size();
      if (std::is_same<K, E>::value) CK("C13", b::objects == n * (Kd::map && std::is_same<MT, E>::value ? 2 : 1), "%ld elements are alive for %ld entries", b::objects, n);
      CK("C13", b::blocks - 2 == n, "%ld nodes are allocated for %ld entries", b::blocks - 2, n);
   }
   int key() { return choose(dom); }
   KI kid(int k) { return id<K>(KI(k, ++nid)); }
   KI vid(int v) { ++nid; return Kd::map ? id<MT>(KI(v, nid)) : KI(0, 0); }
   // value -1 in the model: any (default constructed) value
   bool madd(int i, KI k, KI v) { size_t a = lo(i, k.first); if (has(i, k.first)) return false; Nd n = {k, v, 0}; m[i].insert(m[i].begin() + a, n); return true; }
   void ins(int i, int kk)
   {
      KI k = kid(kk), v = vid(kk * 10 + 1);
      say("%d.insert(%d);", i, kk); b::what = "insert";
      typename Kd::In in(k, v); size_t a = lo(i, kk); bool neu = madd(i, k, v);
      { SUT; auto r = x[i]->insert(in.d); CK("C10", r.second == neu, "insert(%d) reports %d, not %d", kk, r.second, neu); CK("C10", r.first != x[i]->end() && ki(Kd::key(*r.first)).first == kk, "insert(%d) does not return the entry", kk); if (neu) m[i][a].a = &*r.first; else CK("C10,C13", &*r.first == m[i][a].a, "insert(%d) returns another entry", kk); }
   }
   void ers(int i, int kk)
   {
      say("%d.erase(%d);", i, kk); b::what = "erase";
      Arr<K> q(std::vector<KI>(1, KI(kk, 999))); size_t n; bool had = has(i, kk);
      { SUT; n = x[i]->erase(q.p[0]); }
      CK("C10", n == (had ? 1 : 0), "erase(%d) returns %lu, not %d", kk, (unsigned long)n, had);
      if (had) m[i].erase(m[i].begin() + lo(i, kk));
   }
   std::vector<KI> fills(int n) { std::vector<KI> r; while (n--) r.push_back(kid(key())); return r; }
   void range(int i, std::vector<KI> s, bool make)
   {
      b::what = "range"; Seq o = m[i];
      if constexpr (Kd::map)
      {
         std::vector<KI> vs; for (auto &k : s) vs.push_back(vid(k.first * 10 + 2));
         Arr<K> ks(s); Arr<MT> ms(vs);
         typedef ttl::pair<K, MT> P; P *a = (P *)malloc(s.size() * sizeof(P) + 1); for (size_t q = 0; q < s.size(); ++q) new (a + q) P(ks.p[q], ms.p[q]);
         { SUT; if (make) x[i] = new X((const P *)a, (const P *)a + s.size()); else x[i]->insert((const P *)a, (const P *)a + s.size()); }
         for (size_t q = 0; q < s.size(); ++q) { madd(i, s[q], vs[q]); a[q].~P(); } free(a);
      }
      else
      {
         Arr<K> a(s); { SUT; if (make) x[i] = new X((const K *)a.begin(), (const K *)a.end()); else x[i]->insert((const K *)a.begin(), (const K *)a.end()); }
         for (auto &k : s) madd(i, k, KI(0, 0));
      }
   }
   void create(int i)
   {
      m[i].clear();
      if (i || !h::random_mode || choose(2)) { SUT; x[i] = new X; }
      else { auto s = fills(choose(dom)); say("%d=%s;", i, str(s).c_str()); range(i, s, true); }
   }
   static Seq plain(const Seq &s) { Seq r = s; for (auto &n : r) n.a = 0; return r; }
   void op()
   {
      int i = h::random_mode ? choose(4) == 3 : 0, j = 1 - i; X &l = *x[i]; Seq &s = m[i];
      int c = choose(h::random_mode ? 40 : 12);
      if (h::random_mode && c >= 12) { if (c < 27) ins(i, key()); else ers(i, key()); return; }
      switch (c)
      {
         case 0: ins(i, key()); break;
         case 1: ers(i, key()); break;
         case 2: if (h::random_mode && choose(4)) break; say("%d.clear;", i); b::what = "clear"; { SUT; l.clear(); } s.clear(); break;
         case 3: { auto t = fills(choose(h::random_mode ? dom : 3)); say("%d.insert(range %s);", i, str(t).c_str()); range(i, t, false); break; }
         case 4: case 5: if constexpr (Kd::map) {
               int k = key(); KI kk = kid(k), v = vid(k * 10 + 5); say("%d[%d]%s;", i, k, c == 4 ? "" : "=..."); b::what = "operator[]"; size_t a = lo(i, k); bool neu = madd(i, kk, id<MT>(KI(0, 0)));
               Arr<K> q(std::vector<KI>(1, kk)); Arr<MT> w(std::vector<KI>(1, v)); MT *r;
               { SUT; r = &(l[q.p[0]]); } CK("C10", ki(*r) == s[a].v, "[%d] is %d, not %d", k, ki(*r).first, s[a].v.first); if (c == 5) { SUT; *r = w.p[0]; s[a].v = v; }
               Arr<K> q2(std::vector<KI>(1, KI(k, 998))); CK("C10", r == &l.at(q2.p[0]), "[%d] is not the value of the entry", k); } break;
         case 6: say("%d=%d;", i, j); b::what = "operator="; { X *r; { SUT; r = &(l = *x[j]); } CK("C23,C13", r == &l, "does not return the target"); s = plain(m[j]); } break;
         case 7: say("%d=itself;", i); b::what = "operator= with itself"; { SUT; l = l; } break;
         case 8: { say("copy;"); b::what = "copy constructor"; X *t; { SUT; t = new X(l); } X *k = x[i]; Seq ks = s; Seq o = plain(s);
               x[i] = t; m[i] = o; check(i, false); int kk = key(); if (has(i, kk)) ers(i, kk); else ins(i, kk); check(i); o = m[i];
               x[i] = k; m[i] = ks; check(i); kk = key(); if (has(i, kk)) ers(i, kk); else ins(i, kk); ks = m[i]; x[i] = t; m[i] = o; check(i);
               if (choose(2)) { { SUT; delete k; } } else { { SUT; delete t; } x[i] = k; m[i] = ks; } break; }
         case 9: if constexpr (std::is_same<C, ttl::less<K>>::value || Kd::map) {
               say("==;"); b::what = "=="; X &a = *x[0], &c2 = *x[1]; bool e = m[0].size() == m[1].size(); for (size_t q = 0; e && q < m[0].size(); ++q) e = m[0][q].k.first == m[1][q].k.first && m[0][q].v.first == m[1][q].v.first;
               CK("C23", Kd::eq(a, c2) == e && Kd::eq(c2, a) == e && Kd::ne(a, c2) == !e, "== gives %d, should be %d", Kd::eq(a, c2), e); CK("C23", Kd::eq(a, a) && !Kd::ne(a, a), "not equal to itself"); } break;
         case 10: { int k = key(), k2 = key(); ins(i, k); ers(i, k2); break; }
         case 11: if constexpr (Kd::map) if (s.size()) { size_t q = choose(s.size()); KI v = vid(77); say("value %lu=...;", (unsigned long)q); b::what = "write"; Arr<MT> w(std::vector<KI>(1, v)); It t = l.begin(); for (size_t z = 0; z < q; ++z) ++t; { SUT; (*t).second = w.p[0]; } s[q].v = v; } break;
      }
   }
   void begin() { nid = 0; b::objects = 0; b::blocks = 0; if (h::random_mode) memset(b::ptrs.t, 0, sizeof b::ptrs.t); }
   void finish()
   {
      b::what = "destructor";
      { SUT; delete x[0]; delete x[1]; }
      CK("C13", b::objects == 0, "%ld elements are left after the destruction", b::objects);
      CK("C13", b::blocks == 0, "%ld blocks are left after the destruction", b::blocks);
      if (b::blocks) memset(b::ptrs.t, 0, sizeof b::ptrs.t);
   }
   void history(int ops, int every)
   {
      begin(); create(0); create(1); checks();
      for (int n = 1; n <= ops; ++n) { op(); checks(n % every == 0); }
      checks();
      finish();
   }
   // every insertion order of n keys, then every pair of erasures
   void orders(int n)
   {
      dom = n;
      std::vector<int> perm(n); for (int i = 0; i < n; ++i) perm[i] = i;
      do for (int e = -1; e < n * n; ++e)
      {
         b::begin_case(); h::trace.clear(); begin(); { SUT; x[0] = new X; x[1] = new X; } m[0].clear(); m[1].clear();
         for (int k : perm) { ins(0, k); if (e < 0) checks(false); }
         if (e >= 0) { ers(0, e / n); checks(false); ers(0, e % n); checks(); } else { ers(0, n + 1); ers(0, -1); checks(); }
         finish();
      } while (std::next_permutation(perm.begin(), perm.end()));
   }
};
// rbtree with repeated keys
template<typename K> struct R
{
   struct Kof { const K &operator()(const K &k) const { return k; } };
   typedef ttl::rbtree<K, K, Kof, ttl::less<K>> X; typedef typename X::node N;
   X *x; Seq m;
   size_t lo(int k) { size_t p = 0; while (p < m.size() && m[p].k.first < k) ++p; return p; }
   size_t up(int k) { size_t p = 0; while (p < m.size() && m[p].k.first <= k) ++p; return p; }
   bool is(const N *n, size_t p) { return p == m.size() ? n == x->end() : n != x->end() && (const void *)&n->data == m[p].a; }
   void check(bool deep)
   {
      tree("C24", 0, x->get_root(), x->end(), m, [](const ttl::rbnode *q) { return (const void *)&static_cast<const N *>(q)->data; });
      CK("C11", m.size() || !x->get_root(), "an empty tree has a root");
      CK("C11,C24", !m.size() || x->get_root(), "the tree has no root");
      if (m.empty()) return;
      const ttl::rbnode *n = ttl::rbtree_base::min_node(x->get_root());
      for (size_t p = 0; p < m.size(); ++p, n = ttl::rbtree_base::next_node(n))
      {
         CK("C24,C12", n && n != x->end() && &static_cast<const N *>(n)->data == m[p].a && ki(static_cast<const N *>(n)->data) == m[p].k, "entry %lu of the traversal is not %d.%d", (unsigned long)p, m[p].k.first, m[p].k.second);
         if (!n || n == x->end()) return;
         if (p) { const ttl::rbnode *q = ttl::rbtree_base::prev_node(n); CK("C12,C24", &static_cast<const N *>(q)->data == m[p - 1].a, "prev_node at %lu", (unsigned long)p); }
      }
      CK("C24,C12", n == x->end(), "the traversal does not end at the header");
      n = ttl::rbtree_base::max_node(x->get_root());
      CK("C24,C12", &static_cast<const N *>(n)->data == m.back().a, "max_node");
      if (!deep) return;
      const X &c = *x;
      for (int k = -1; k <= dom; ++k)
      {
         Arr<K> q(std::vector<KI>(1, KI(k, 999))); const K &kk = q.p[0]; size_t a = lo(k), e = up(k);
         CK("C24", c.count(kk) == e - a, "count(%d) is %lu, not %lu", k, (unsigned long)c.count(kk), (unsigned long)(e - a));
         CK("C24", is(c.lower_bound(kk), a) && is(x->lower_bound(kk), a), "lower_bound(%d)", k);
         CK("C24", is(c.upper_bound(kk), e) && is(x->upper_bound(kk), e), "upper_bound(%d)", k);
         CK("C24", is(c.equal_range(kk).first, a) && is(c.equal_range(kk).second, e) && is(x->equal_range(kk).first, a) && is(x->equal_range(kk).second, e), "equal_range(%d)", k);
         const N *f = c.find(kk); CK("C24", a == e ? f == c.end() : f != c.end() && ki(f->data).first == k, "find(%d)", k); CK("C24", x->find(kk) == f, "find(%d) const and not", k);
      }
   }
   void add(int k)
   {
      KI v = id<K>(KI(k, ++nid)); say("insert_equal(%d);", k); b::what = "insert_equal"; Arr<K> q(std::vector<KI>(1, v)); N *n;
      { SUT; n = x->insert_equal(q.p[0]); }
      CK("C24", n && ki(n->data) == v, "insert_equal does not return the entry");
      Nd d = {v, v, &n->data}; m.insert(m.begin() + up(k), d);
   }
   void del(int k)
   {
      say("remove(%d);", k); b::what = "remove"; Arr<K> q(std::vector<KI>(1, KI(k, 999))); N *n; size_t a = lo(k), e = up(k);
      { SUT; n = x->remove(q.p[0]); }
      CK("C24", (a != e) == (n != 0), "remove(%d) returns %s", k, n ? "a node" : "null");
      if (!n) return;
      size_t p = a; while (p < e && m[p].a != &n->data) ++p;
      CK("C24", p < e && n != (N *)x->end(), "remove(%d) returns another node", k);
      if (p < e) m.erase(m.begin() + p);
      { SUT; delete n; }
   }
   void uniq(int k)
   {
      KI v = id<K>(KI(k, ++nid)); say("insert_unique(%d);", k); b::what = "insert_unique"; Arr<K> q(std::vector<KI>(1, v)); size_t a = lo(k), e = up(k);
      ttl::pair<N *, bool> r; { SUT; r = x->insert_unique(q.p[0]); }
      CK("C24", r.second == (a == e), "insert_unique reports %d", r.second);
      CK("C24", r.first && ki(r.first->data).first == k, "insert_unique returns another node");
      if (a == e) { Nd d = {v, v, &r.first->data}; m.insert(m.begin() + a, d); }
   }
   void begin() { nid = 0; b::objects = 0; b::blocks = 0; if (h::random_mode) memset(b::ptrs.t, 0, sizeof b::ptrs.t); m.clear(); SUT; x = new X; }
   void finish()
   {
      CK("C13,C24", b::blocks == (long)m.size() + 1, "%ld nodes for %lu entries", b::blocks - 1, (unsigned long)m.size());
      { SUT; delete x; }
      CK("C13,C24", b::objects == 0 && b::blocks == 0, "%ld elements are left", b::objects);
      if (b::blocks) memset(b::ptrs.t, 0, sizeof b::ptrs.t);
   }
   void op(int c, int k)
   {
      if (c == 0) add(k); else if (c == 1) del(k); else if (c == 2) uniq(k);
      else if (c == 3) { say("clear;"); { SUT; x->clear(); } m.clear(); }
      else
      {
         say("assign;"); X *t; { SUT; t = new X; } Seq o = m;
         if (k & 1) { Arr<K> q(std::vector<KI>(1, KI(3, 0))); SUT; t->insert_equal(q.p[0]); }
         { SUT; t->assign(*x); } check(false);
         std::swap(t, x);
         if (x->get_root()) { const ttl::rbnode *n = ttl::rbtree_base::min_node(x->get_root()); for (size_t p = 0; p < m.size() && n != x->end(); ++p, n = ttl::rbtree_base::next_node(n)) { CK("C13,C24", &static_cast<const N *>(n)->data != o[p].a, "assign shares a node"); m[p].a = &static_cast<const N *>(n)->data; } }
         check(false); { SUT; delete t; }
      }
   }
   void history(int ops, int every)
   {
      begin();
      for (int n = 1; n <= ops; ++n) { int c = choose(h::random_mode ? 60 : 4); op(c < 5 ? c : c < 35 ? 0 : 1, choose(dom)); check(n % every == 0); }
      check(true); finish();
   }
   // every sequence of n insertions over d keys, then every single removal
   void fill(int n, int d)
   {
      dom = d;
      all_seqs(n, d, [&](const std::vector<KI> &v) {
         for (int r = -1; r < d; ++r) { b::begin_case(); h::trace.clear(); begin(); for (auto &k : v) add(k.first); if (r >= 0) del(r); check(true); finish(); }
      }, 1);
   }
};
int main(int argc, char **argv)
{
   b::start(argc, argv);
   b::life_props = "C13,C24"; b::describe = h::desc;
   int D = b::depth; unsigned long q = D > 1 ? 10 : 1;
   S<E, MapKind<E, E, ttl::less<E>>, ttl::less<E>> m; S<int, MapKind<int, int, Rev<int>>, Rev<int>> mr;
   S<E, SetKind<E, ttl::less<E>>, ttl::less<E>> s; S<int, SetKind<int, Rev<int>>, Rev<int>> sr;
   R<E> r; R<int> ri;
   if (!b::hits("C24"))
   {
      dom = 3; h::all([&] { m.history(2, 1); }); h::all([&] { s.history(2, 1); });
      dom = 2; h::all([&] { m.history(3, 1); }, D > 1 ? 400000 : 25000); h::all([&] { s.history(3, 1); }, D > 1 ? 400000 : 15000);
      for (int n = 1; n <= (D > 1 ? 7 : 6); ++n) { if (n < 6 || D > 1) m.orders(n); s.orders(n); }
      static const int doms[] = {5, 9, 17, 40, 120};
      for (int d : doms)
      {
         dom = d;
         h::random(60 * q, [&] { m.history(3 * d + 10, d > 20 ? 40 : 4); });
         h::random(60 * q, [&] { s.history(3 * d + 10, d > 20 ? 40 : 4); });
         h::random(60 * q, [&] { sr.history(3 * d + 10, d > 20 ? 40 : 4); });
         h::random(60 * q, [&] { mr.history(3 * d + 10, d > 20 ? 40 : 4); });
      }
   }
   if (b::hits("C24,C11,C12,C13"))
   {
      bool most = b::hits("C24");
      for (int d = 1; d <= 4; ++d) r.fill(d > 3 ? 5 : most ? 7 : 5, d);
      dom = 2; h::all([&] { r.history(most ? 5 : 4, 1); }, D > 1 ? 500000 : 40000);
      static const int doms[] = {2, 4, 9, 25, 60};
      for (int d : doms)
      {
         dom = d;
         h::random((most ? 300 : 60) * q, [&] { r.history(4 * d + 12, d > 20 ? 40 : 3); });
         h::random((most ? 300 : 60) * q, [&] { ri.history(4 * d + 12, d > 20 ? 40 : 3); });
      }
   }
   return b::finish();
}
