// Bounded check with large objects (300 and 70000 elements: sizes that do not fit in a byte or in 16 bits), and of
// the algorithms on every range of up to 40 elements (and up to 70, by 5) with one odd element at every position.
#include "b.hpp"
#include <set>
#include <memory>
#include <ttl/types.hpp>
#include <ttl/utility.hpp>
#include <ttl/functional.hpp>
#include <ttl/algorithm.hpp>
#include <ttl/numeric.hpp>
#include <ttl/array.hpp>
#include <ttl/vector.hpp>
#include <ttl/fixed_vector.hpp>
#include <ttl/list.hpp>
#include <ttl/forward_list.hpp>
#include <ttl/backward_list.hpp>
#include <ttl/lazy_queue.hpp>
#include <ttl/map.hpp>
#include <ttl/set.hpp>
#include <ttl/sorted_vector_map.hpp>
#include <ttl/vector_map.hpp>
#include <ttl/bitset.hpp>
typedef std::vector<int> V;
static std::string txt;
static std::string desc() { return txt; }
#define CK(p, c, ...) do { if (!(c)) b::fail(p, __VA_ARGS__); } while (0)
static void step(const char *w, long n, const char *o = "") { b::what = w; txt = std::string(o) + " of " + std::to_string(n) + " elements"; b::begin_case(); }
template<typename I> void same(const char *p, I f, I l, const V &m)
{
   size_t i = 0;
   for (; f != l; ++f, ++i)
   {
      CK(p, i < m.size(), "more than %lu elements", (unsigned long)m.size());
      CK(p, *f == m[i], "element %lu is wrong", (unsigned long)i);
   }
   CK(p, i == m.size(), "%lu elements, not %lu", (unsigned long)i, (unsigned long)m.size());
}
static V seq(long n, int k = 1, int c = 0) { V v; for (long i = 0; i < n; ++i) v.push_back(int(i * k + c)); return v; }

template<typename X> void vec(const char *P, X &x, X &y, long n, long cap)
{
   V m = seq(n);
   same(P, x.begin(), x.end(), m);
   CK(P, (long)x.size() == n && !x.empty(), "size() is %lu", (unsigned long)x.size());
   step("insert(pos, range)", n); V r = seq(301, 3);
   if (n + 301 <= cap) { auto it = x.insert(x.begin() + n / 2, r.data(), r.data() + 301); m.insert(m.begin() + n / 2, r.begin(), r.end()); CK(P, it == x.begin() + n / 2, "the wrong position"); same(P, x.begin(), x.end(), m); }
   step("insert(pos, n, value)", n); if (n + 900 <= cap) { x.insert(x.begin() + 1, 299u, -5); m.insert(m.begin() + 1, 299, -5); same(P, x.begin(), x.end(), m); }
   step("erase(range)", n); { auto it = x.erase(x.begin() + n / 4, x.begin() + n / 4 + n / 3); m.erase(m.begin() + n / 4, m.begin() + n / 4 + n / 3); CK(P, it == x.begin() + n / 4, "the wrong position"); same(P, x.begin(), x.end(), m); }
   step("copy", n); { std::unique_ptr<X> c(new X(x)); CK("C23", *c == x && !(*c != x), "a copy is not equal"); same("C23", c->begin(), c->end(), m); (*c)[m.size() - 1] = -9; CK("C23", *c != x, "copies share elements"); CK("C23", x[m.size() - 1] != -9, "copies share elements"); y = *c; CK("C23", y == *c && y != x, "== after assignment"); y = x; same("C23", y.begin(), y.end(), m); }
   step("swap", n); { y.erase(y.begin(), y.begin() + 7); V m2(m.begin() + 7, m.end()); x.swap(y); same(P, x.begin(), x.end(), m2); same(P, y.begin(), y.end(), m); x.swap(y); }
   step("resize", n); { long u = std::min(n / 2 + 300, cap); x.resize(u); m.resize(u); same(P, x.begin(), x.end(), m); x.resize(n / 2 + 7); m.resize(n / 2 + 7); same(P, x.begin(), x.end(), m); }
   step("assign(n, value)", n); x.assign((size_t)n, 4); m.assign(n, 4); same(P, x.begin(), x.end(), m);
   step("push_back", n); { x.clear(); m.clear(); CK(P, x.empty() && x.begin() == x.end(), "not empty"); for (int i = 0; i < 290; ++i) { x.push_back(i); m.push_back(i); } same(P, x.begin(), x.end(), m); for (int i = 0; i < 20; ++i) x.pop_back(), m.pop_back(); same(P, x.begin(), x.end(), m); }
}
template<long N> void fvec()
{
   typedef ttl::fixed_vector<int, N> X;
   V m = seq(N);
   step("fixed_vector(range)", N); std::unique_ptr<X> x(new X(m.data(), m.data() + N)), y(new X);
   CK("C03,C04", x->size() == N && x->capacity() == N && x->max_size() == N && x->full(), "size() is %lu", (unsigned long)x->size());
   x->push_back(3); same("C03,C04", x->begin(), x->end(), m);
   vec("C03,C04", *x, *y, N, N);
   step("truncating insert", N); *x = X(m.data(), m.data() + N - 5); x->insert(x->begin() + 2, 270u, 8); V t(m.begin(), m.end() - 5); t.insert(t.begin() + 2, 270, 8); t.resize(N); same("C03,C04", x->begin(), x->end(), t);
   step("fixed_vector(n)", N); std::unique_ptr<X> z(new X((size_t)N - 2, 6)); same("C03,C04", z->begin(), z->end(), V(N - 2, 6)); z.reset(new X((size_t)N)); same("C03,C04", z->begin(), z->end(), V(N));
}
static void lists(long n)
{
   V m = seq(n); const char *P = "C05,C06";
   step("list(range)", n); ttl::list<int> l(m.data(), m.data() + n); same(P, l.begin(), l.end(), m); CK(P, (long)l.size() == n, "size() is %lu", (unsigned long)l.size());
   step("copy", n); { ttl::list<int> c(l); CK("C23", c == l, "a copy is not equal"); same("C23", c.begin(), c.end(), m); *--c.end() = -3; CK("C23", c != l, "copies share elements"); c = l; CK("C23", c == l, "assignment"); }
   step("reverse", n); l.reverse(); std::reverse(m.begin(), m.end()); same(P, l.begin(), l.end(), m); l.reverse(); std::reverse(m.begin(), m.end());
   step("merge", n); { V o = seq(n, 1, (int)n / 2); ttl::list<int> k(o.data(), o.data() + n); l.merge(k); V r; std::merge(m.begin(), m.end(), o.begin(), o.end(), std::back_inserter(r)); same(P, l.begin(), l.end(), r); CK(P, k.empty(), "the other list is not empty"); m = r; }
   step("unique", n); l.unique(); m.erase(std::unique(m.begin(), m.end()), m.end()); same(P, l.begin(), l.end(), m);
   step("remove_if", n); { auto odd = [](int v) { return v % 2 != 0; }; l.remove_if(odd); m.erase(std::remove_if(m.begin(), m.end(), odd), m.end()); same(P, l.begin(), l.end(), m); }
   step("resize", n); l.resize(n / 2); m.resize(n / 2); same(P, l.begin(), l.end(), m); l.resize(n / 2 + 300, 5); m.resize(n / 2 + 300, 5); same(P, l.begin(), l.end(), m);
   step("splice", n); { ttl::list<int> k; k.splice(k.begin(), l, l.begin(), l.end()); CK(P, l.empty(), "not empty"); same(P, k.begin(), k.end(), m); l.swap(k); }
   step("assign", n); l.assign((size_t)n, 2); same(P, l.begin(), l.end(), V(n, 2)); l.insert(l.begin(), (size_t)n, 1); CK(P, (long)l.size() == 2 * n, "size()"); l.remove(2); same(P, l.begin(), l.end(), V(n, 1)); l.clear(); CK(P, l.empty(), "not empty");
}
template<typename L> void sl(const char *P, long n)
{
   V m = seq(n); b::what = "insert_after(range)";
   L l; l.insert_after(l.before_begin(), m.data(), m.data() + n); same(P, l.begin(), l.end(), m);
   step("copy", n); { L c(l); same("C23", c.begin(), c.end(), m); *c.begin() = -3; CK("C23", *l.begin() != -3, "copies share elements"); c = l; same("C23", c.begin(), c.end(), m); }
   step("insert_after(n)", n); { auto i = l.begin(); for (long z = 0; z < n / 2; ++z) ++i; l.insert_after(i, (size_t)300, 9); m.insert(m.begin() + n / 2 + 1, 300, 9); same(P, l.begin(), l.end(), m);
      auto j = i; for (int z = 0; z <= 299; ++z) ++j; step("erase_after(range)", n); l.erase_after(i, j); m.erase(m.begin() + n / 2 + 1, m.begin() + n / 2 + 300); same(P, l.begin(), l.end(), m); }
   step("swap", n); { L k; k.swap(l); same(P, k.begin(), k.end(), m); CK(P, l.empty(), "not empty"); l.swap(k); k.clear(); }
   step("clear", n); l.clear(); CK(P, l.empty(), "not empty"); L q((size_t)n, 6); same(P, q.begin(), q.end(), V(n, 6));
}
template<typename M> bool has(M &s, int k) { return s.find(k) != s.end(); }
template<typename M> size_t cnt(const M &m) { size_t n = 0; for (auto i = m.begin(); i != m.end(); ++i) ++n; return n; }
static void trees(long n)
{
   const char *P = "C10,C12,C13"; V ks = seq(n); std::shuffle(ks.begin(), ks.end(), b::rng);
   step("map insert", n); typedef ttl::map<int, int> M; M t; ttl::set<int> s;
   for (int k : ks) { auto r = t.insert(ttl::pair<const int, int>(k, k * 2)); CK(P, r.second && r.first->first == k, "insert(%d)", k); s.insert(k); }
   CK(P, (long)cnt(t) == n && (long)cnt(s) == n, "size() is %lu", (unsigned long)cnt(t));
   long i = 0; for (auto it = t.begin(); it != t.end(); ++it, ++i) CK(P, it->first == i && it->second == 2 * i, "entry %ld", i); CK(P, i == n, "iteration ends after %ld", i);
   i = n; for (auto it = s.end(); it != s.begin();) { --it; --i; CK(P, *it == i, "element %ld", i); } CK(P, i == 0, "backwards");
   step("map copy", n); { M c(t); CK("C23,C10", (long)cnt(c) == n, "a copy has %lu entries", (unsigned long)cnt(c)); i = 0; for (auto it = c.begin(); it != c.end(); ++it, ++i) CK("C23", it->first == i && it->second == 2 * i, "entry %ld", i); c.begin()->second = -1; CK("C23", t.begin()->second == 0, "copies share entries"); ttl::set<int> d; d = s; CK("C23", (long)cnt(d) == n, "assignment"); }
   step("map lower_bound", n); for (int q = 0; q < 2000; ++q) { int k = b::rng() % (n + 2) - 1; auto a = t.lower_bound(k), c = t.upper_bound(k); int la = k < 0 ? 0 : k, ua = k + 1; CK(P, la >= n ? a == t.end() : a->first == la, "lower_bound(%d)", k); CK(P, ua >= n ? c == t.end() : c->first == ua, "upper_bound(%d)", k); CK(P, (long)t.count(k) == (k >= 0 && k < n) && has(s, k) == (k >= 0 && k < n), "count(%d)", k); }
   step("map erase", n); for (int k : ks) if (k % 3) { CK(P, t.erase(k) == 1, "erase(%d)", k); CK(P, s.erase(k) == 1, "erase(%d)", k); }
   for (int k = 0; k < n; ++k) { CK(P, has(t, k) == (k % 3 == 0), "find(%d)", k); CK(P, has(s, k) == (k % 3 == 0), "find(%d)", k); }
   CK(P, (long)cnt(t) == (n + 2) / 3, "size() is %lu", (unsigned long)cnt(t));
   step("clear", n); t.clear(); s.clear(); CK(P, t.empty() && s.empty() && cnt(t) == 0, "not empty");
}
static void svm(long n)
{
   typedef ttl::sorted_vector_map<int, int> S; step("insert", n);
   S s; for (int k = 0; k < n; ++k) { auto r = s.insert(ttl::make_pair(2 * k, k)); CK("C14", r.second && r.first->second == k, "insert(%d)", 2 * k); }
   CK("C14", (long)s.size() == n, "size() is %lu", (unsigned long)s.size());
   for (int q = 0; q < 600; ++q) { int k = b::rng() % (2 * n); if (s.size() > n + 200) break; s[k] = -k; auto i = s.find(k); CK("C14", i != s.end() && i->second == -k, "[%d]", k); }
   int prev = -1; long c = 0; for (auto it = s.begin(); it != s.end(); ++it, ++c) { CK("C14", it->first > prev, "entry %ld out of order", c); prev = it->first; }
   CK("C14", c == (long)s.size(), "iteration");
   for (int k = 0; k < 2 * n; k += 2) { auto i = s.find(k); CK("C14", i != s.end() && i->first == k && s.lower_bound(k) == i && s.upper_bound(k) == ++i && s.count(k) == 1, "find(%d)", k); }
   CK("C14", s.find(2 * n) == s.end() && s.find(-1) == s.end() && s.lower_bound(2 * n) == s.end() && s.lower_bound(-1) == s.begin(), "absent keys");
   step("copy", n); { S d(s); CK("C14,C23", d.size() == s.size(), "a copy has %lu entries", (unsigned long)d.size()); auto i = s.begin(); for (auto j = d.begin(); j != d.end(); ++j, ++i) CK("C14,C23", i->first == j->first && i->second == j->second && &*i != &*j, "the copy differs at key %d", i->first); }
   s.clear(); CK("C14", s.empty(), "not empty");
}
static void vmap(long n)
{
   typedef ttl::vector_map<int, int> S; step("insert", n);
   S s; for (int k = 0; k < n; ++k) { auto r = s.insert(ttl::make_pair(2 * k, k)); CK("C15", r.second && r.first == s.begin() + k, "insert(%d)", 2 * k); }
   for (int k = 0; k < n; ++k) { CK("C15", s.find(2 * k) == s.begin() + k && s.count(2 * k) == 1 && s.count(2 * k + 1) == 0 && s[2 * k] == k, "find(%d)", 2 * k); }
   for (int k = 0; k < n; ++k) s.push_back(ttl::make_pair(4, k));
   CK("C15", (long)s.count(4) == n + 1, "count(4) is %lu", (unsigned long)s.count(4));
}
template<size_t N> void bits()
{
   const char *P = "C16,C17"; typedef ttl::bitset<N> B; step("bitset", N);
   std::unique_ptr<B> x(new B), y(new B); std::vector<bool> m(N);
   CK(P, x->none() && !x->any() && x->count() == 0 && x->size() == N, "a new bitset");
   for (size_t i = 0; i < N; ++i) if (b::rng() % 2) { x->set(i); m[i] = true; }
   size_t c = std::count(m.begin(), m.end(), true);
   auto same = [&](const B &v, const std::vector<bool> &w) { for (size_t i = 0; i < N; ++i) CK(P, v.test(i) == w[i] && v[i] == w[i], "bit %lu", (unsigned long)i); };
   same(*x, m); CK(P, x->count() == c, "count() is %lu, not %lu", (unsigned long)x->count(), (unsigned long)c);
   static const size_t shifts[] = {1, 63, 64, 65, 255, 256, 257, 299, 65535, 65536, 65537, N};
   for (size_t s : shifts) { step("shift", N); std::vector<bool> l(N), r(N); for (size_t i = 0; i < N; ++i) { if (i >= s) l[i] = m[i - s]; if (i + s < N) r[i] = m[i + s]; } *y = *x << s; same(*y, l); *y = *x >> s; same(*y, r); *y = *x; *y <<= s; same(*y, l); *y = *x; *y >>= s; same(*y, r); }
   step("copy", N); *y = *x; CK("C16,C23", *y == *x, "== of a copy"); y->flip(N - 1); CK("C16,C23", *y != *x, "== of different ones"); CK(P, y->test(N - 1) != x->test(N - 1), "flip");
   step("set", N); y->set(); CK(P, y->all() && y->count() == N, "set()"); y->reset(N - 1); CK(P, !y->all() && y->any() && y->count() == N - 1, "reset(pos)"); y->reset(); y->set(N - 1); CK(P, y->any() && !y->none() && y->count() == 1, "any()"); y->flip(); CK(P, y->count() == N - 1, "flip()");
   *y = ~*x; CK(P, y->count() == N - c, "~"); *y |= *x; CK(P, y->all(), "|="); *y &= *x; same(*y, m); *y ^= *x; CK(P, y->none(), "^=");
   step("string", N); std::string t; for (size_t i = N; i--;) t += m[i] ? '1' : '0'; y.reset(new B(t.c_str())); same(*y, m);
}
// every length up to 40 (and some more), one odd element at every position
static void spots(long n)
{
   const V a = seq(n, 2); const int *f = a.data(), *l = f + n; auto eq = [](int x, int y) { return x == y; }; auto lt = [](int x, int y) { return x < y; };
   for (long p = 0; p < n; ++p)
   {
      txt = std::to_string(n) + " elements, one odd at " + std::to_string(p); b::begin_case();
      V c = a; c[p] = -1; const int *g = c.data(), *h = g + n;
      if (b::hits("C18"))
      {
         b::what = "mismatch"; CK("C18", ttl::mismatch(f, l, g).second == g + p && ttl::mismatch(f, l, g, eq).first == f + p && ttl::mismatch(f, l, g, h).second == g + p && ttl::mismatch(f, l, g, h, eq).first == f + p, "the wrong position");
         CK("C18", ttl::mismatch(f, l, f, f + p).first == f + p && ttl::mismatch(f, f + p, f, l).second == f + p && ttl::mismatch(f, f + p, f, l, eq).second == f + p && ttl::mismatch(f, f + p, f).first == f + p, "a shorter range");
         b::what = "equal"; CK("C18", !ttl::equal(f, l, g) && !ttl::equal(f, l, g, eq) && !ttl::equal(f, l, g, h) && !ttl::equal(f, l, g, h, eq), "different ranges");
         CK("C18", ttl::equal(f, f + p, g) && ttl::equal(f, f + p, g, g + p) && ttl::equal(f, f + p, g, g + p, eq) && !ttl::equal(f, f + p, f, l) && !ttl::equal(f, l, f, f + p), "equal ranges");
         b::what = "find"; CK("C18", ttl::find(g, h, -1) == g + p && ttl::find_if(g, h, [](int x) { return x < 0; }) == g + p && ttl::find_if_not(g, h, [](int x) { return x >= 0; }) == g + p && ttl::find(g, g + p, -1) == g + p, "the wrong position");
         b::what = "count"; CK("C18", ttl::count(g, h, -1) == 1 && ttl::count_if(g, h, [](int x) { return x >= 0; }) == n - 1 && ttl::any_of(g, h, [](int x) { return x < 0; }) && !ttl::all_of(g, h, [](int x) { return x >= 0; }) && !ttl::none_of(g, h, [](int x) { return x < 0; }) && ttl::none_of(g, g + p, [](int x) { return x < 0; }), "one element");
         b::what = "for_each"; long z = 0, w = 0; ttl::for_each(g, h, [&](int x) { ++z; w += x; }); CK("C18", z == n && w == n * (n - 1) - 2 * p - 1, "the calls");
         b::what = "search"; for (long k = 1; p + k <= n && k < 24; ++k) CK("C18", ttl::search(f, l, f + p, f + p + k) == f + p && ttl::search(f, l, f + p, f + p + k, eq) == f + p && ttl::search(f, l - 1, f + n - k, l) == l - 1, "the wrong position");
         if (p) { V d = a; d[p] = d[p - 1]; b::what = "adjacent_find"; CK("C18", ttl::adjacent_find(d.data(), d.data() + n) == d.data() + p - 1 && ttl::adjacent_find(d.data(), d.data() + n, eq) == d.data() + p - 1, "the wrong position"); }
         V r(n, 5); r[p] = 6; b::what = "search_n"; for (long k = 1; k <= n; ++k) { const int *e = r.data() + (k <= p ? 0 : k <= n - p - 1 ? p + 1 : n); CK("C18", ttl::search_n((const int *)r.data(), (const int *)r.data() + n, k, 5) == e && ttl::search_n((const int *)r.data(), (const int *)r.data() + n, k, 5, eq) == e, "%ld times", k); }
      }
      if (b::hits("C19"))
      {
         V o(n + 1, 77), m = c; int *q = o.data(); auto neg = [](int x) { return x < 0; }; V k = c; k.erase(k.begin() + p);
#define IS(e, len) CK("C19", (e) == q + (len) && V(q, q + (len)) == V(m.begin(), m.begin() + (len)) && o[n] == 77, "the result is wrong"); o.assign(n + 1, 77)
         b::what = "copy"; IS(ttl::copy(g, h, q), n); b::what = "copy_n"; IS(ttl::copy_n(g, n, q), n); IS(ttl::copy_n(g, p, q), p);
         b::what = "copy_backward"; CK("C19", ttl::copy_backward(g, h, q + n) == q && V(q, q + n) == m && o[n] == 77, "the result is wrong"); o.assign(n + 1, 77);
         { V v = c; v.push_back(0); ttl::copy_backward(v.data() + p, v.data() + n, v.data() + n + 1); V y = c; y.insert(y.begin() + p, -1); CK("C19", v == y, "overlapping"); b::what = "copy"; v = c; v.push_back(3); ttl::copy(v.data() + p + 1, v.data() + n + 1, v.data() + p); y = k; y.push_back(3); y.push_back(3); CK("C19", v == y, "overlapping"); }
         b::what = "replace_copy"; m[p] = 9; IS(ttl::replace_copy(g, h, q, -1, 9), n); IS(ttl::replace_copy_if(g, h, q, neg, 9), n);
         b::what = "replace"; { V v = c; ttl::replace(v.data(), v.data() + n, -1, 9); CK("C19", v == m, "the result is wrong"); v = c; ttl::replace_if(v.data(), v.data() + n, neg, 9); CK("C19", v == m, "the result is wrong"); }
         m = k; m.push_back(0); b::what = "remove_copy"; IS(ttl::remove_copy(g, h, q, -1), n - 1); IS(ttl::remove_copy_if(g, h, q, neg), n - 1); b::what = "copy_if"; IS(ttl::copy_if(g, h, q, [](int x) { return x >= 0; }), n - 1);
         b::what = "remove"; { V v = c; int *e = ttl::remove(v.data(), v.data() + n, -1); CK("C19", V(v.data(), e) == k, "the result is wrong"); v = c; e = ttl::remove_if(v.data(), v.data() + n, neg); CK("C19", V(v.data(), e) == k, "the result is wrong"); }
         m = c; for (int &x : m) x = -x; b::what = "transform"; IS(ttl::transform(g, h, q, [](int x) { return -x; }), n); for (long i = 0; i < n; ++i) m[i] = c[i] - a[i]; IS(ttl::transform(g, h, f, q, [](int x, int y) { return x - y; }), n);
         m.assign(c.rbegin(), c.rend()); b::what = "reverse_copy"; IS(ttl::reverse_copy(g, h, q), n); b::what = "reverse"; { V v = c; ttl::reverse(v.data(), v.data() + n); CK("C19", v == m, "the result is wrong"); v = c; ttl::reverse(v.data() + p, v.data() + n); V y = c; std::reverse(y.begin() + p, y.end()); CK("C19", v == y, "a part"); }
         b::what = "fill"; { V v = c, y = c; ttl::fill(v.data() + p, v.data() + n, 8); std::fill(y.begin() + p, y.end(), 8); CK("C19", v == y, "the result is wrong"); v = y = c; CK("C19", ttl::fill_n(v.data(), p, 8) == v.data() + p, "the wrong position"); std::fill_n(y.begin(), p, 8); CK("C19", v == y, "fill_n"); int t = 0; v = y = c; ttl::generate(v.data(), v.data() + p, [&] { return t++; }); for (long i = 0; i < p; ++i) y[i] = (int)i; CK("C19", v == y, "generate"); }
         b::what = "swap_ranges"; { V v = c, y = a; CK("C19", ttl::swap_ranges(v.data(), v.data() + n, y.data()) == y.data() + n && v == a && y == c, "the result is wrong"); }
      }
      if (b::hits("C20"))
         for (int v = int(2 * p) - 1; v <= 2 * p + 1; ++v)
         {
            const int *lo = f + (v + 1) / 2, *up = f + (v < 0 ? 0 : v / 2 + 1); b::what = "lower_bound";
            CK("C20", ttl::lower_bound(f, l, v) == lo && ttl::lower_bound(f, l, v, lt) == lo && ttl::upper_bound(f, l, v) == up && ttl::upper_bound(f, l, v, lt) == up, "the wrong position of %d", v);
            CK("C20", ttl::binary_search(f, l, v) == (lo != up) && ttl::binary_search(f, l, v, lt) == (lo != up) && ttl::equal_range(f, l, v).first == lo && ttl::equal_range(f, l, v, lt).second == up, "the wrong range of %d", v);
         }
      if (b::hits("C21"))
      {
         b::what = "is_sorted"; const int *e = g + (p ? p : n); CK("C21", ttl::is_sorted_until(g, h) == e && ttl::is_sorted(g, h) == !p, "the wrong position");
         V d = c; d[p] = 1000; b::what = "min_element"; CK("C21", ttl::min_element(g, h) == g + p && ttl::max_element(d.data(), d.data() + n) == d.data() + p && ttl::minmax_element(g, h).first == g + p && ttl::minmax_element(d.data(), d.data() + n).second == d.data() + p, "the wrong position");
         b::what = "merge"; for (long i = 0; i <= n; ++i) { V x(a.begin(), a.begin() + p), y(a.begin() + p, a.end()), z(a.begin(), a.begin() + i), r(2 * n, 0), w; w.clear(); std::merge(y.begin(), y.end(), z.begin(), z.end(), std::back_inserter(w)); CK("C21", ttl::merge(y.data(), y.data() + y.size(), z.data(), z.data() + i, r.data()) == r.data() + w.size() && V(r.data(), r.data() + w.size()) == w, "the result is wrong"); }
      }
   }
}
static void algos(long n)
{
   V a = seq(n), c, o; a[n / 2] = a[n / 2 - 1]; int *f = a.data(), *l = f + n; auto lt = [](int x, int y) { return x < y; }; auto eq = [](int x, int y) { return x == y; }; auto ne = [](int x) { return x >= 0; };
   step("find", n); CK("C18", ttl::find(f, l, (int)n - 1) == l - 1 && ttl::find(f, l, -1) == l && ttl::find_if(f, l, [&](int x) { return x == n - 1; }) == l - 1, "the wrong position");
   step("count", n); CK("C18", ttl::count(f, l, (int)n - 1) == 1 && ttl::count_if(f, l, ne) == n && ttl::all_of(f, l, ne) && !ttl::any_of(f, l, [](int x) { return x < 0; }), "count");
   step("equal", n); c = a; CK("C18,C23", ttl::equal(f, l, c.data(), c.data() + n) && ttl::equal(f, l, c.data()), "equal ranges"); c[n - 1] = -1; CK("C18,C23", !ttl::equal(f, l, c.data(), c.data() + n) && !ttl::equal(f, l, c.data(), c.data() + n, eq) && !ttl::equal(f, l, c.data()), "different ranges"); CK("C18", ttl::mismatch(f, l, c.data()).first == l - 1, "mismatch");
   step("search", n); CK("C18", ttl::search(f, l, l - 290, l) == l - 290 && ttl::adjacent_find(f, l) == f + n / 2 - 1, "search"); c = a; std::fill(c.begin() + n / 2, c.end(), 7); CK("C18", ttl::search_n(c.data(), c.data() + n, n - n / 2, 7) == c.data() + n / 2 && ttl::search_n(c.data(), c.data() + n, n - n / 2 + 1, 7) == c.data() + n, "search_n");
   step("copy", n); o.assign(n, 0); CK("C19", ttl::copy(f, l, o.data()) == o.data() + n && o == a, "copy"); o.assign(n, 0); CK("C19", ttl::copy_n(f, n, o.data()) == o.data() + n && o == a, "copy_n"); o.assign(n, 0); CK("C19", ttl::copy_backward(f, l, o.data() + n) == o.data() && o == a, "copy_backward");
   step("fill_n", n); ttl::fill_n(o.data(), n, 3); CK("C19", o == V(n, 3), "fill_n"); ttl::fill(o.data(), o.data() + n, 4); CK("C19", o == V(n, 4), "fill"); { int z = 0; CK("C19", ttl::generate_n(o.data(), n, [&] { return z++; }) == o.data() + n && o == seq(n), "generate_n"); }
   step("replace", n); o = a; ttl::replace(o.data(), o.data() + n, (int)n - 1, -4); CK("C19", o[n - 1] == -4, "replace"); o = a; { auto e = ttl::remove_if(o.data(), o.data() + n, [](int x) { return x % 2; }); V r = a; r.erase(std::remove_if(r.begin(), r.end(), [](int x) { return x % 2; }), r.end()); CK("C19", e == o.data() + r.size() && V(o.data(), e) == r, "remove_if"); }
   step("reverse", n); o = a; ttl::reverse(o.data(), o.data() + n); c = a; std::reverse(c.begin(), c.end()); CK("C19", o == c, "reverse"); o.assign(n, 0); ttl::reverse_copy(f, l, o.data()); CK("C19", o == c, "reverse_copy"); o = a; CK("C19,C22", ttl::swap_ranges(o.data(), o.data() + n, c.data()) == c.data() + n && c == a, "swap_ranges");
   V s = seq(n, 2);
   for (int q = 0; q < 3000; ++q) { if (q % 500 == 0) step("lower_bound", n); int k = b::rng() % (2 * n + 2) - 1; const int *lo = s.data() + (k + 1) / 2, *up = s.data() + (k < 0 ? 0 : k / 2 + 1), *e = s.data() + n; if (lo > e) lo = e; if (up > e) up = e; const int *sf = s.data();
      CK("C20", ttl::lower_bound(sf, e, k) == lo && ttl::lower_bound(sf, e, k, lt) == lo, "lower_bound(%d)", k); CK("C20", ttl::upper_bound(sf, e, k) == up && ttl::upper_bound(sf, e, k, lt) == up, "upper_bound(%d)", k); CK("C20", ttl::binary_search(sf, e, k) == (lo != up) && ttl::equal_range(sf, e, k).second == up, "binary_search(%d)", k); }
   step("merge", n); c = seq(n, 3); o.assign(2 * n, 0); V r; std::merge(s.begin(), s.end(), c.begin(), c.end(), std::back_inserter(r)); CK("C21", ttl::merge(s.data(), s.data() + n, c.data(), c.data() + n, o.data()) == o.data() + 2 * n && o == r, "merge");
   step("is_sorted", n); CK("C21", ttl::is_sorted(s.data(), s.data() + n) && ttl::max_element(s.data(), s.data() + n) == s.data() + n - 1, "is_sorted"); s[n - 1] = -1; CK("C21", !ttl::is_sorted(s.data(), s.data() + n) && ttl::is_sorted_until(s.data(), s.data() + n) == s.data() + n - 1 && ttl::min_element(s.data(), s.data() + n) == s.data() + n - 1, "is_sorted_until");
   step("iota", n); ttl::iota(o.data(), o.data() + n, 1); CK("C22", V(o.data(), o.data() + n) == seq(n, 1, 1), "iota"); CK("C22", ttl::accumulate(o.data(), o.data() + n, 0ll) == (long long)n * (n + 1) / 2, "accumulate");
}
template<size_t N> void arr()
{
   typedef ttl::array<int, N> X; step("array", N); std::unique_ptr<X> x(new X), y(new X); x->fill(4); V m(N, 4); same("C22", x->begin(), x->end(), m); CK("C22", x->size() == N && x->max_size() == N, "size()"); y->fill(5); x->swap(*y); same("C22", y->begin(), y->end(), m); *y = *x; CK("C22,C23", *x == *y, "=="); (*y)[N - 1] = 0; CK("C22,C23", *x != *y && x->back() == 5, "!=");
}
int main(int argc, char **argv)
{
   b::start(argc, argv); b::describe = desc; b::life_props = "C02,C04";
   static const long ns[] = {300, 70000};
   for (long n = 1; n <= 70; n += n < 40 ? 1 : 5) spots(n);
   for (long n : ns)
   {
      if (b::hits("C01,C02,C23")) { V m = seq(n); step("vector(range)", n); ttl::vector<int> x(m.data(), m.data() + n), y; CK("C01", (long)x.capacity() >= n, "capacity()"); vec("C01,C02", x, y, n, 1l << 40); step("vector(n)", n); ttl::vector<int> z((size_t)n, 3), w((size_t)n); same("C01", z.begin(), z.end(), V(n, 3)); same("C01", w.begin(), w.end(), V(n)); step("reserve", n); z.reserve(2 * n); same("C01", z.begin(), z.end(), V(n, 3)); CK("C01", (long)z.capacity() >= 2 * n, "capacity()"); }
      if (b::hits("C05,C06,C23")) lists(n);
      if (b::hits("C07,C23")) { step("forward_list", n); sl<ttl::forward_list<int>>("C07", n); }
      if (b::hits("C08,C23")) { step("backward_list", n); sl<ttl::backward_list<int>>("C08", n); }
      if (b::hits("C09,C23")) { step("lazy_queue", n); sl<ttl::lazy_queue<int>>("C09", n); }
      if (b::hits("C10,C12,C13,C23")) trees(n);
      if (b::hits("C14,C23")) svm(n);
      if (b::hits("C15")) vmap(n > 3000 ? 3000 : n);
      if (b::hits("C18,C19,C20,C21,C22,C23")) algos(n);
   }
   if (b::hits("C03,C04,C23")) { fvec<300>(); fvec<70000>(); }
   if (b::hits("C16,C17,C23")) { bits<300>(); bits<70000>(); }
   if (b::hits("C22,C23")) { arr<300>(); arr<70000>(); }
   return b::finish();
}
