// Bounded check of sorted_vector_map (C14), vector_map (C15) and copies of sorted_vector_map (C23): all short histories over
// few keys and random longer ones against models.
#include "hist.hpp"
#include <ttl/types.hpp>
#include <ttl/utility.hpp>
#include <ttl/functional.hpp>
#include <ttl/algorithm.hpp>
#include <ttl/sorted_vector_map.hpp>
#include <ttl/vector_map.hpp>
using h::choose; using h::say;
static int nid, dom = 4;
struct Nd { KI k, v; const void *a; };
typedef std::vector<Nd> Seq;
static std::string show(const Seq &s) { std::vector<KI> r; for (auto &n : s) r.push_back(n.k); return str(r); }
template<typename T> KI id(KI k) { if (!std::is_same<T, E>::value) k.second = 0; return k; }
template<typename T> struct Rev { bool operator()(const T &a, const T &c) const { return c < a; } };
template<typename K, typename C> struct S
{
   typedef ttl::sorted_vector_map<K, K, C> X; typedef typename X::iterator It; typedef typename X::const_iterator Ci; typedef ttl::pair<K, K> P;
   X *x; Seq m;
   static bool lt(int a, int c) { return std::is_same<C, Rev<K>>::value ? c < a : a < c; }
   size_t lo(int k) { size_t p = 0; while (p < m.size() && lt(m[p].k.first, k)) ++p; return p; }
   size_t up(int k) { size_t p = 0; while (p < m.size() && !lt(k, m[p].k.first)) ++p; return p; }
   template<typename I> bool is(I it, size_t p) { X &c = *x; if (p == m.size()) return it == c.end(); return it != c.end() && (const void *)&*it == m[p].a; }
   void check()
   {
      X &l = *x; const X &c = l; size_t p = 0;
      CK("C14,C23", c.size() == m.size() && c.empty() == m.empty(), "size() is %lu, not %lu", (unsigned long)c.size(), (unsigned long)m.size());
      if (c.size() != m.size()) return;
      for (It it = l.begin(); it != l.end(); ++it, ++p)
      {
         if (p >= m.size()) { CK("C14,C23", 0, "more entries than %lu", (unsigned long)p); return; }
         KI k = ki(it->first), v = ki(it->second);
         CK("C14,C23", k == m[p].k && v == m[p].v, "entry %lu is (%d.%d, %d.%d), not (%d.%d, %d.%d); keys should be %s", (unsigned long)p, k.first, k.second, v.first, v.second, m[p].k.first, m[p].k.second, m[p].v.first, m[p].v.second, show(m).c_str());
         if (m[p].a) CK("C14", m[p].a == &*it, "the entry of key %d was moved", k.first);
         m[p].a = &*it;
      }
      for (It it = l.end(); it != l.begin();) { It o = it, r = it--; CK("C14", r == o && &*it == m[--p].a, "backwards"); }
      p = 0; for (Ci it = c.begin(); it != c.end(); ++p) { CK("C14", &*it == m[p].a && it.operator->() == &*it, "const iteration"); Ci o = it, r = it++; CK("C14", r == o && r != it, "postfix ++"); --it; CK("C14", it == o, "--"); ++it; }
      CK("C14", p == m.size(), "const iteration ends early");
      for (int k = -1; k <= dom; ++k)
      {
         Arr<K> q(std::vector<KI>(1, KI(k, 999))); const K &kk = q.p[0]; size_t a = lo(k), b = up(k), f = a != b ? a : m.size();
         CK("C14", is(l.find(kk), f) && is(c.find(kk), f), "find(%d)", k);
         CK("C14", c.count(kk) == b - a, "count(%d) is %lu", k, (unsigned long)c.count(kk));
         CK("C14", is(l.lower_bound(kk), a) && is(c.lower_bound(kk), a), "lower_bound(%d)", k);
         CK("C14", is(l.upper_bound(kk), b) && is(c.upper_bound(kk), b), "upper_bound(%d)", k);
         auto e = l.equal_range(kk); auto ce = c.equal_range(kk);
         if (a != b) CK("C14", is(e.first, a) && is(e.second, b) && is(ce.first, a) && is(ce.second, b), "equal_range(%d)", k);
         else CK("C14", e.first == e.second && ce.first == ce.second, "equal_range(%d) of an absent key is not empty", k);
         if (a != b) CK("C14", &l.at(kk) == &l.find(kk)->second && &c.at(kk) == &c.find(kk)->second, "at(%d)", k);
      }
      if (std::is_same<K, E>::value) CK("C14", b::objects == 2 * (long)m.size(), "%ld elements are alive for %lu entries", b::objects, (unsigned long)m.size());
   }
   bool madd(KI k, KI v) { size_t a = lo(k.first); if (a != up(k.first)) return false; Nd n = {k, v, 0}; m.insert(m.begin() + a, n); return true; }
   void create()
   {
      m.clear();
      int c = choose(h::random_mode ? 8 : 4);
      if (c == 0) { say("new;"); SUT; x = new X; }
      else { size_t n = c == 1 ? 0 : c - 1; if (c == 7) n = 40; say("new(%lu);", (unsigned long)n); SUT; x = new X(n); }
   }
   void op()
   {
      X &l = *x; int c = choose(h::random_mode ? 16 : 6); if (c > 5) c = 0;
      if (h::random_mode && c == 3 && choose(6)) c = 0;
      switch (c)
      {
         case 0: { int k = choose(dom); KI kk = id<K>(KI(k, ++nid)), v = id<K>(KI(k * 10, ++nid)); say("insert(%d);", k); b::what = "insert"; size_t a = lo(k); bool neu = madd(kk, v);
               Arr<K> ka(std::vector<KI>(1, kk)), va(std::vector<KI>(1, v)); P pr(ka.p[0], va.p[0]);
               { SUT; auto r = l.insert(pr); CK("C14", r.second == neu, "insert(%d) reports %d", k, r.second); CK("C14", l.begin() != l.end() && &*r.first == &*l.find(ka.p[0]) && ki(r.first->first).first == k, "insert(%d) does not return the entry", k); if (!neu) CK("C14", &*r.first == m[a].a, "insert(%d) returns another entry", k); } break; }
         case 1: case 2: { int k = choose(dom); KI kk = id<K>(KI(k, ++nid)), v = id<K>(KI(k * 10 + 5, ++nid)); say("[%d]%s;", k, c == 1 ? "" : "=..."); b::what = "operator[]"; size_t a = lo(k); madd(kk, KI(0, 0));
               Arr<K> ka(std::vector<KI>(1, kk)), va(std::vector<KI>(1, v)); K *r; { SUT; r = &l[ka.p[0]]; } CK("C14", ki(*r) == m[a].v, "[%d] is %d.%d", k, ki(*r).first, ki(*r).second); CK("C14", r == &l.at(ka.p[0]), "[%d] is not the value of the entry", k);
               if (c == 2) { SUT; *r = va.p[0]; m[a].v = v; } break; }
         case 3: say("clear;"); b::what = "clear"; { SUT; l.clear(); } m.clear(); break;
         case 4: { say("copy;"); b::what = "copy constructor"; X *t; long ob = b::objects; { SUT; t = new X(l); }
               CK("C14,C23", t->size() == m.size(), "the copy has %lu entries", (unsigned long)t->size());
               size_t p = 0; for (It it = t->begin(); it != t->end() && p < m.size(); ++it, ++p) { CK("C14,C23", ki(it->first) == m[p].k && ki(it->second) == m[p].v, "entry %lu of the copy", (unsigned long)p); CK("C14,C23", &*it != m[p].a, "the copy shares an entry"); }
               if (choose(2)) { KI v = id<K>(KI(choose(dom), 5)); Arr<K> q(std::vector<KI>(1, v)); { SUT; (*t)[q.p[0]] = q.p[0]; t->clear(); delete t; } }
               else { { SUT; std::swap(t, x); if (t->size()) t->begin()->second = K(); t->clear(); delete t; } for (auto &n : m) n.a = 0; } break; }
         case 5: if (m.size()) { size_t q = choose(m.size()); KI v = id<K>(KI(77, ++nid)); say("value %lu=...;", (unsigned long)q); b::what = "write"; Arr<K> w(std::vector<KI>(1, v)); It t = l.begin(); for (size_t z = 0; z < q; ++z) ++t; { SUT; t->second = w.p[0]; } m[q].v = v; } break;
      }
   }
   void history(int ops, bool fresh)
   {
      nid = 0; b::objects = 0; b::blocks = 0; if (h::random_mode) memset(b::ptrs.t, 0, sizeof b::ptrs.t);
      create(); check();
      for (int i = 0; i < ops; ++i) { op(); check(); }
      b::what = "destructor"; { SUT; delete x; }
      CK("C14", b::objects == 0 && b::blocks == 0, "%ld elements and %ld blocks are left after the destruction", b::objects, b::blocks);
      if (b::blocks) memset(b::ptrs.t, 0, sizeof b::ptrs.t);
   }
};
template<typename K> struct V
{
   typedef ttl::vector_map<K, K> X; typedef ttl::pair<K, K> P; typedef ttl::vector<P> B; typedef typename X::iterator It; typedef typename X::const_iterator Ci;
   X *x; Seq m;
   size_t first(int k) { size_t p = 0; while (p < m.size() && m[p].k.first != k) ++p; return p; }
   size_t num(int k) { size_t n = 0; for (auto &e : m) n += e.k.first == k; return n; }
   void check()
   {
      X &l = *x; const X &c = l;
      CK("C15", c.size() == m.size() && (size_t)(c.end() - c.begin()) == m.size() && (size_t)(l.end() - l.begin()) == m.size() && c.cend() - c.cbegin() == (long)m.size(), "size() is %lu, not %lu", (unsigned long)c.size(), (unsigned long)m.size());
      if (c.size() != m.size()) return;
      for (size_t p = 0; p < m.size(); ++p)
      {
         It it = l.begin() + p; KI k = ki(it->first), v = ki(it->second);
         CK("C15", k == m[p].k && v == m[p].v && c.begin() + p == it, "entry %lu is (%d.%d, %d.%d), not (%d.%d, %d.%d)", (unsigned long)p, k.first, k.second, v.first, v.second, m[p].k.first, m[p].k.second, m[p].v.first, m[p].v.second);
      }
      for (int k = -1; k <= dom; ++k)
      {
         Arr<K> q(std::vector<KI>(1, KI(k, 999))); const K &kk = q.p[0]; size_t f = first(k);
         CK("C15", l.find(kk) == l.begin() + f && c.find(kk) == c.begin() + f, "find(%d) is %ld, not %lu", k, (long)(c.find(kk) - c.begin()), (unsigned long)f);
         CK("C15", c.count(kk) == num(k), "count(%d) is %lu, not %lu", k, (unsigned long)c.count(kk), (unsigned long)num(k));
         if (f < m.size()) CK("C15", &l.at(kk) == &(l.begin() + f)->second && &c.at(kk) == &(c.begin() + f)->second, "at(%d)", k);
      }
      if (std::is_same<K, E>::value) CK("C15", b::objects == 2 * (long)m.size(), "%ld elements are alive for %lu entries", b::objects, (unsigned long)m.size());
   }
   void op()
   {
      X &l = *x; B &v = l; int c = choose(h::random_mode ? 12 : 8); if (c > 7) c = 0;
      if (h::random_mode && c == 7 && choose(6)) c = 3;
      int k = c < 5 ? choose(dom) : 0; KI kk = id<K>(KI(k, ++nid)), vv = id<K>(KI(k * 10, ++nid)); Arr<K> ka(std::vector<KI>(1, kk)), va(std::vector<KI>(1, vv)); P pr(ka.p[0], va.p[0]); size_t f = first(k); Nd n = {kk, vv, 0};
      switch (c)
      {
         case 0: { say("insert(%d);", k); b::what = "insert"; bool neu = f == m.size(); if (neu) m.push_back(n); { SUT; auto r = l.insert(pr); CK("C15", r.second == neu, "insert(%d) reports %d", k, r.second); CK("C15", r.first == l.begin() + f, "insert(%d) returns position %ld, not %lu", k, (long)(r.first - l.begin()), (unsigned long)f); } break; }
         case 1: case 2: { say("[%d]%s;", k, c == 1 ? "" : "=..."); b::what = "operator[]"; n.v = KI(0, 0); if (f == m.size()) m.push_back(n); K *r; { SUT; r = &l[ka.p[0]]; } CK("C15", r == &(l.begin() + f)->second, "[%d] is not the value of the entry", k); CK("C15", ki(*r) == m[f].v, "[%d] is %d", k, ki(*r).first); if (c == 2) { SUT; *r = va.p[0]; m[f].v = vv; } break; }
         case 3: say("push_back(%d);", k); b::what = "push_back"; { SUT; v.push_back(pr); } m.push_back(n); break;
         case 4: { size_t p = choose(m.size() + 1); say("vector insert(%lu,%d);", (unsigned long)p, k); b::what = "vector insert"; { SUT; v.insert(v.begin() + p, pr); } m.insert(m.begin() + p, n); break; }
         case 5: if (m.size()) { size_t p = choose(m.size()); say("erase(%lu);", (unsigned long)p); b::what = "erase"; { SUT; l.erase(l.begin() + p); } m.erase(m.begin() + p); } break;
         case 6: { say("copy;"); b::what = "copy constructor"; X *t; { SUT; t = new X(l); std::swap(t, x); if (m.size()) t->begin()->second = K(), t->pop_back(); delete t; } break; }
         case 7: say("clear;"); b::what = "clear"; { SUT; l.clear(); } m.clear(); break;
      }
   }
   void history(int ops)
   {
      nid = 0; b::objects = 0; b::blocks = 0; if (h::random_mode) memset(b::ptrs.t, 0, sizeof b::ptrs.t);
      m.clear(); { SUT; x = new X; } check();
      for (int i = 0; i < ops; ++i) { op(); check(); }
      b::what = "destructor"; { SUT; delete x; }
      CK("C15", b::objects == 0 && b::blocks == 0, "%ld elements and %ld blocks are left after the destruction", b::objects, b::blocks);
      if (b::blocks) memset(b::ptrs.t, 0, sizeof b::ptrs.t);
   }
};
int main(int argc, char **argv)
{
   b::start(argc, argv);
   b::life_props = "C14,C15"; b::describe = h::desc;
   int D = b::depth; unsigned long q = D > 1 ? 10 : 1;
   if (b::hits("C14,C23"))
   {
      S<E, ttl::less<E>> s; S<int, Rev<int>> r;
      dom = 3; h::all([&] { s.history(3, true); }, D > 1 ? ~0ul : 40000); h::all([&] { r.history(3, true); }, D > 1 ? ~0ul : 20000);
      dom = 2; h::all([&] { s.history(4, true); }, D > 1 ? 1000000 : 40000);
      static const int doms[] = {3, 6, 12, 30, 80};
      for (int d : doms) { dom = d; h::random(200 * q, [&] { s.history(2 * d + 8, true); }); h::random(200 * q, [&] { r.history(2 * d + 8, true); }); }
   }
   if (b::hits("C15"))
   {
      V<E> s; V<int> r;
      dom = 2; h::all([&] { s.history(3); }); h::all([&] { r.history(3); });
      dom = 2; h::all([&] { s.history(4); }, D > 1 ? ~0ul : 60000);
      static const int doms[] = {2, 4, 12, 30, 80};
      for (int d : doms) { dom = d; h::random(200 * q, [&] { s.history(2 * d + 8); }); h::random(200 * q, [&] { r.history(2 * d + 8); }); }
   }
   return b::finish();
}
