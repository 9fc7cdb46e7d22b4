// Bounded check of what large containers do to their elements: of containers of 300 and 4000 live elements every operation
// leaves exactly the elements which belong to it alive, keeps those of nodes where they are, and the destruction
// releases every block once (C02, C04, C06, C07-C09, C13, C14, C15); the trees stay red-black (C11, C24).
#include "b.hpp"
#include <memory>
#include <functional>
#include <ttl/types.hpp>
#include <ttl/utility.hpp>
#include <ttl/functional.hpp>
#include <ttl/algorithm.hpp>
#include <ttl/vector.hpp>
#include <ttl/fixed_vector.hpp>
#include <ttl/list.hpp>
#include <ttl/forward_list.hpp>
#include <ttl/backward_list.hpp>
#include <ttl/lazy_queue.hpp>
#include <ttl/map.hpp>
#include <ttl/set.hpp>
#include <ttl/sorted_vector_map.hpp>
#include <ttl/vector_map.hpp>
static std::string txt;
static std::string desc() { return txt; }
#define CK(p, c, ...) do { if (!(c)) b::fail(p, __VA_ARGS__); } while (0)
static const char *P;
static void step(const char *w, long n) { bool o = b::in_sut; b::in_sut = false; b::what = w; txt = std::to_string(n) + " elements"; b::begin_case(); b::in_sut = o; }
// f is run with its allocations counted; whatever it makes is gone afterwards
template<typename F> void scope(const char *p, const char *w, long n, F f)
{
   P = p; b::life_props = p; step(w, n);
   b::objects = b::blocks = 0; memset(b::ptrs.t, 0, sizeof b::ptrs.t);
   { b::Sut s; f(); }
   b::what = w;
   CK(p, b::objects == 0, "%ld elements are alive after the destruction", b::objects);
   CK(p, b::blocks == 0, "%ld blocks are left after the destruction", b::blocks);
}
typedef std::vector<int> V;
static V seq(long n) { V v; for (long i = 0; i < n; ++i) v.push_back(i); return v; }
template<typename X> void has(const X &x, const V &m, long alive = -1)
{
   size_t i = 0; bool ok = true;
   for (auto it = x.begin(); it != x.end() && i <= m.size(); ++it, ++i) if (i < m.size()) { E const &e = *it; e.check("read"); ok = ok && e.k == m[i]; }
   CK(P, i == m.size(), "%lu elements, not %lu", (unsigned long)i, (unsigned long)m.size());
   CK(P, ok, "the elements are wrong");
   if (alive < 0) alive = m.size();
   CK(P, b::objects == alive, "%ld elements are alive, not %ld", b::objects, alive);
}
struct Odd { bool operator()(const E &e) const { e.check("read"); return e.k & 1; } };
template<typename X> void vec(const char *p, long n, long cap)
{
   scope(p, "vector", n, [&] {
      std::unique_ptr<X> xp(new X), yp(new X); X &x = *xp, &y = *yp; V m = seq(n), r; long base = b::blocks;
      for (int k : m) x.push_back(E(k)); has(x, m);
      step("erase(range)", n); x.erase(x.begin() + n / 3, x.begin() + n / 3 + 70); m.erase(m.begin() + n / 3, m.begin() + n / 3 + 70); has(x, m);
      step("insert(pos, value)", n); x.insert(x.begin() + 5, E(-1)); m.insert(m.begin() + 5, -1); has(x, m);
      step("insert(pos, n, value)", n); { E e(-2); x.insert(x.begin() + 7, 60u, e); } m.insert(m.begin() + 7, 60, -2); has(x, m);
      step("insert(pos, range)", n); { E a[9]; x.insert(x.begin() + n / 2, a, a + 9); m.insert(m.begin() + n / 2, 9, 0); if ((long)m.size() > cap) m.resize(cap); } has(x, m);
      step("copy", n); { std::unique_ptr<X> c(new X(x)); has(*c, m, 2 * m.size()); c->erase(c->begin(), c->begin() + 40); y = *c; x = *c; r = V(m.begin() + 40, m.end()); has(y, r, 3 * r.size()); } has(x, r, 2 * r.size());
      step("swap", n); y.erase(y.begin(), y.begin() + 20); x.swap(y); has(y, r, 2 * r.size() - 20); r.erase(r.begin(), r.begin() + 20); has(x, r, 2 * r.size() + 20); y.clear();
      step("resize", n); x.resize(n / 2); r.resize(n / 2); has(x, r); { E e(4); x.resize(n / 2 + 90, e); } r.resize(n / 2 + 90, 4); has(x, r);
      step("pop_back", n); for (int i = 0; i < 50; ++i) x.pop_back(), r.pop_back(); has(x, r);
      step("assign", n); { E e(5); x.assign((size_t)n, e); } has(x, V(n, 5));
      CK(P, b::blocks - base <= 2 + 2, "%ld blocks are allocated", b::blocks - base);
   });
}
template<typename X> std::vector<const void *> where(const X &x) { std::vector<const void *> r; for (auto i = x.begin(); i != x.end(); ++i) r.push_back(&*i); return r; }
static void same(const std::vector<const void *> &a, const std::vector<const void *> &c) { CK(P, a == c, "elements were moved or replaced"); }
static void lst(long n)
{
   typedef ttl::list<E> X;
   scope("C06", "list", n, [&] {
      X x, y; V m = seq(n); for (int k : m) x.push_back(E(k)); has(x, m); auto w = where(x);
      step("copy", n); { X c(x); has(c, m, 2 * n); y = c; c.clear(); c = y; X d; d.push_back(E(7)); c = d; has(c, V(1, 7), 2 * n + 2); } has(y, m, 2 * n); y.resize(5);
      step("splice", n); { auto i = x.begin(); ++i; y.splice(y.begin(), x, i, x.end()); CK(P, b::objects == n + 5, "%ld elements are alive", b::objects); x.splice(x.end(), y); } for (int k = 0; k < 5; ++k) m.push_back(k); has(x, m); { auto u = where(x); u.resize(n); same(w, u); }
      step("resize", n); x.resize(n); m.resize(n); has(x, m); same(w, where(x));
      step("reverse", n); x.reverse(); x.reverse(); same(w, where(x));
      step("swap", n); x.swap(y); has(y, m); x.swap(y); same(w, where(x));
      step("remove_if", n); x.remove_if(Odd()); { V t; std::vector<const void *> u; for (long i = 0; i < n; ++i) if (m[i] % 2 == 0) t.push_back(m[i]), u.push_back(w[i]); m = t; w = u; } has(x, m); same(w, where(x));
      step("merge", n); { for (int k = 1; k < n; k += 2) y.push_back(E(k)); x.merge(y); } m = seq(n); has(x, m); { auto u = where(x); std::vector<const void *> v; for (long i = 0; i < n; i += 2) v.push_back(u[i]); same(w, v); w = u; }
      step("unique", n); { auto i = x.begin(); for (int k = 0; k < n / 2; ++k) ++i; E e(n / 2 - 1); x.insert(i, 80u, e); } x.unique(); has(x, m); same(w, where(x));
      step("erase", n); { V t; std::vector<const void *> u; long k = 0; for (auto i = x.begin(); i != x.end(); ++k) if (k % 3) i = x.erase(i); else { t.push_back(m[k]); u.push_back(w[k]); ++i; } m = t; w = u; } has(x, m); same(w, where(x));
      step("remove", n); x.remove(*x.begin()); m.erase(m.begin()); has(x, m);
      step("assign", n); { E e(3); x.assign((size_t)n, e); } has(x, V(n, 3));
      step("pop", n); for (int k = 0; k < 100; ++k) x.pop_back(), x.pop_front(); has(x, V(n - 200, 3));
   });
}
template<typename X> void sl(const char *p, const char *name, long n, bool lazy)
{
   scope(p, name, n, [&] {
      X x, y; V m = seq(n), r; std::vector<E> src(m.begin(), m.end());
      x.insert_after(x.before_begin(), src.data(), src.data() + n); src.clear(); src.shrink_to_fit(); has(x, m); auto w = where(x);
      step("copy", n); { X c(x); has(c, m, 2 * n); y = c; y = y; X d; d.push_front(E(7)); c = d; has(c, V(1, 7), 2 * n + 2); } has(y, m, 2 * n); y.clear(); has(x, m);
      step("swap", n); x.swap(y); has(y, m); x.swap(y); same(w, where(x));
      step("insert_after(n)", n); { auto i = x.begin(); ++i; { E e(-5); x.insert_after(i, 120u, e); } m.insert(m.begin() + 2, 120, -5); has(x, m);
         step("erase_after(range)", n); auto j = i; for (int k = 0; k < 121; ++k) ++j; x.erase_after(i, j); m.erase(m.begin() + 2, m.begin() + 122); has(x, m); same(w, where(x)); }
      step("erase_after", n); { V t; std::vector<const void *> u; long k = 1; t.push_back(m[0]); u.push_back(w[0]); for (auto i = x.begin(); k < n; ++k) if (k % 3) x.erase_after(i); else { t.push_back(m[k]); u.push_back(w[k]); ++i; } m = t; w = u; } has(x, m); same(w, where(x));
      step("pop_front", n); for (int k = 0; k < 40; ++k) { x.pop_front(); m.erase(m.begin()); w.erase(w.begin()); } has(x, m); same(w, where(x));
      step("push_front", n); for (int k = 0; k < 60; ++k) { x.push_front(E(k)); m.insert(m.begin(), k); } has(x, m); { auto u = where(x); u.erase(u.begin(), u.begin() + 60); same(w, u); }
   });
}
static void queue(long n)
{
   scope("C09", "lazy_queue", n, [&] {
      ttl::lazy_queue<E> q; V m = seq(n); for (int k : m) q.push_back(E(k)); has(q, m); auto w = where(q);
      step("pop_front", n); long used = b::blocks; for (int k = 0; k < n / 2; ++k) q.pop_front(); m.erase(m.begin(), m.begin() + n / 2); has(q, m); w.erase(w.begin(), w.begin() + n / 2); same(w, where(q));
      step("push_back", n); used = b::blocks; for (int k = 0; k < n / 2; ++k) q.push_back(E(k)); CK(P, b::blocks == used, "freed nodes are not used again"); for (int k = 0; k < n / 2; ++k) m.push_back(k); has(q, m);
      step("roll_head", n); for (int k = 0; k < 70; ++k) q.roll_head(); std::rotate(m.begin(), m.begin() + 70, m.end()); has(q, m);
      step("clear", n); q.clear(); has(q, V()); for (int k : m) q.push_back(E(k)); has(q, m); q.cleanup(); has(q, m);
   });
}
template<typename R> struct Peek: R { static const ttl::rbnode *top(const R &r) { return r.get_root(); } };
static int black(const ttl::rbnode *n, const ttl::rbnode *par, const char *&why, long &cnt, int d = 0)
{
   if (!n) return 0;
   if (d > 60) { why = "the tree is too deep"; return -1; }
   ++cnt;
   if (n->parent != par) { why = "a parent link does not point to the parent"; return -1; }
   if (n->color && ((n->left && n->left->color) || (n->right && n->right->color))) { why = "a red node has a red child"; return -1; }
   int l = black(n->left, n, why, cnt, d + 1), r = l < 0 ? -1 : black(n->right, n, why, cnt, d + 1);
   if (l < 0 || r < 0) return -1;
   if (l != r) { why = "two paths have different numbers of black nodes"; return -1; }
   return l + !n->color;
}
template<typename R> void balanced(const R &r, long n)
{
   const ttl::rbnode *top = r.get_root(); const char *why = ""; long c = 0;
   CK("C11", !top || !top->color, "the root is red");
   int h = black(top, top ? (const ttl::rbnode *)r.end() : 0, why, c);
   CK("C11", h >= 0, "%s", why); CK(P, c == n, "%ld nodes, not %ld", c, n);
}
typedef ttl::rbtree<int, int, ttl::select_same<int>, ttl::less<int>> RB;
static void rb(long n)
{
   P = "C11,C24"; b::life_props = P; V ks = seq(n); std::shuffle(ks.begin(), ks.end(), b::rng);
   for (int eq = 0; eq < 3; ++eq)
   {
      step(eq ? "insert_equal" : "insert_unique", n); RB t; long c = 0, total; std::vector<const void *> a;
      for (int k : ks) { int v = eq == 2 ? k / 8 : k; if (eq) a.push_back(t.insert_equal(v)); else { auto r = t.insert_unique(v); CK("C11", r.second, "insert_unique(%d)", v); } if (++c % 97 == 0) balanced(t, c); }
      balanced(t, n); total = n;
      long i = 0; int prev = -1; for (auto q = RB::min_node(t.get_root()); q != t.end(); q = RB::next_node(q), ++i) { int v = ((RB::node *)q)->data; CK(P, v >= prev, "node %ld is out of order", i); prev = v; if (i > n) break; } CK(P, i == n, "iteration gives %ld nodes", i);
      if (eq) for (int k = 0; k < n; k += 5) { int v = eq == 2 ? k / 8 : k; CK("C24", t.count(v) == (eq == 2 ? std::min<size_t>(8, n - v * 8) : 1), "count(%d) is %lu", v, (unsigned long)t.count(v)); CK("C24", t.lower_bound(v)->data == v && t.find(v)->data == v, "lower_bound(%d)", v); }
      step("remove", n); c = 0; for (int k : ks) { int v = eq == 2 ? k / 8 : k; auto q = t.remove(v); CK(P, q && q->data == v, "remove(%d)", v); delete q; --total; if (++c % 97 == 0 || total < 40) balanced(t, total); }
      CK(P, t.get_root() == 0, "not empty");
   }
}
static void trees(long n)
{
   typedef ttl::map<int, E> M; typedef ttl::set<E> S; V ks = seq(n); std::shuffle(ks.begin(), ks.end(), b::rng);
   auto all = [&](const char *w, const M &m, const S &s, const V &k, long alive) { size_t i = 0; for (auto it = m.begin(); it != m.end() && i < k.size(); ++it, ++i) CK(P, it->first == k[i] && it->second.k == 3 * k[i], "%s: entry %lu", w, (unsigned long)i); CK(P, i == k.size(), "%s: %lu entries", w, (unsigned long)i); i = 0; for (auto it = s.begin(); it != s.end() && i < k.size(); ++it, ++i) CK(P, it->k == k[i], "%s: element %lu", w, (unsigned long)i); CK(P, i == k.size(), "%s: %lu elements", w, (unsigned long)i); CK(P, b::objects == alive, "%s: %ld elements are alive, not %ld", w, b::objects, alive); };
   scope("C13", "map and set", n, [&] {
      M m; S s; for (int k : ks) { E e(3 * k); m.insert(ttl::pair<const int, E>(k, e)); s.insert(E(k)); } V k = seq(n); all("insert", m, s, k, 2 * n); auto a = where(m), c = where(s);
      step("insert again", n); for (int j : ks) { m.insert(ttl::pair<const int, E>(j, E(-1))); s.insert(E(j)); } all("insert", m, s, k, 2 * n); same(a, where(m)); same(c, where(s));
      step("copy", n); { M d(m), f; S t(s), u; all("copy", d, t, k, 4 * n); f = d; u = t; f = f; all("assignment", f, u, k, 6 * n); M g; g.insert(ttl::pair<const int, E>(7, E(7))); f = g; CK(P, b::objects == 5 * n + 2, "%ld elements are alive after an assignment", b::objects); } same(a, where(m)); all("copy", m, s, k, 2 * n);
      step("erase", n); V r; std::vector<const void *> a2, c2; for (int j = 0; j < n; ++j) if (j % 3 == 0) r.push_back(j), a2.push_back(a[j]), c2.push_back(c[j]);
      for (int j : ks) if (j % 3) { CK(P, m.erase(j) == 1 && s.erase(E(j)) == 1, "erase(%d)", j); if (j % 50 == 1) { M &mm = m; for (int q = 0; q < n; q += 3) if (&*mm.find(q) != a[q]) { CK(P, false, "the entry of key %d was moved", q); break; } } } all("erase", m, s, r, 2 * (long)r.size()); same(a2, where(m)); same(c2, where(s));
      step("clear", n); s.clear(); CK(P, b::objects == (long)r.size() && s.empty(), "clear()"); for (int j : r) s.insert(E(j)); all("insert", m, s, r, 2 * (long)r.size());
   });
}
static void flat(long n)
{
   scope("C14", "sorted_vector_map", n, [&] {
      typedef ttl::sorted_vector_map<int, E> S; S s; V ks = seq(n); std::shuffle(ks.begin(), ks.end(), b::rng); std::map<int, const void *> at;
      for (int k : ks) { auto r = s.insert(ttl::make_pair(k, E(k))); at[k] = &*r.first; } CK(P, b::objects == n && (long)s.size() == n, "%ld elements are alive", b::objects);
      for (auto i = s.begin(); i != s.end(); ++i) CK(P, at[i->first] == &*i && i->second.k == i->first, "the entry of key %d was moved", i->first);
      step("copy", n); { S c(s); CK(P, b::objects == 2 * n, "%ld elements are alive", b::objects); c[3].k = 9; CK(P, s[3].k == 3, "copies share entries"); }
      for (int k : ks) s.insert(ttl::make_pair(k, E(-1))); CK(P, b::objects == n, "%ld elements are alive", b::objects);
      s.clear(); CK(P, b::objects == 0, "%ld elements are alive after clear()", b::objects); s[5]; s[4]; CK(P, b::objects == 2, "%ld elements are alive", b::objects);
   });
   if (n < 3000) scope("C15", "vector_map", n, [&] {
      typedef ttl::vector_map<int, E> S; S s; for (int k = 0; k < n; ++k) { s.insert(ttl::make_pair(k, E(k))); s.insert(ttl::make_pair(k / 2, E(-1))); } CK(P, b::objects == n, "%ld elements are alive", b::objects);
      for (int k = 0; k < n; ++k) CK(P, s.at(k).k == k, "at(%d)", k);
      { S c(s); CK(P, b::objects == 2 * n, "%ld elements are alive", b::objects); } s[n]; CK(P, b::objects == n + 1, "%ld elements are alive", b::objects);
   });
}
int main(int argc, char **argv)
{
   b::start(argc, argv); b::describe = desc;
   static const long ns[] = {300, 4000};
   for (long n : ns)
   {
      if (b::hits("C02")) vec<ttl::vector<E>>("C02", n, 1l << 40);
      if (b::hits("C06")) lst(n);
      if (b::hits("C07")) sl<ttl::forward_list<E>>("C07", "forward_list", n, false);
      if (b::hits("C08")) sl<ttl::backward_list<E>>("C08", "backward_list", n, false);
      if (b::hits("C09")) { sl<ttl::lazy_queue<E>>("C09", "lazy_queue", n, true); queue(n); }
      if (b::hits("C11,C24")) rb(n);
      if (b::hits("C13")) trees(n);
      if (b::hits("C14,C15")) flat(n);
   }
   if (b::hits("C04")) { vec<ttl::fixed_vector<E, 300>>("C04", 300, 300); vec<ttl::fixed_vector<E, 4000>>("C04", 4000, 4000); }
   return b::finish();
}
