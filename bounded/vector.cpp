// Bounded check of vector (C01 contents, C02 lifetimes and memory, C23 copies and ==): all histories of two operations on
// small vectors, and random longer ones, against std::vector as the model.
#include "hist.hpp"
#include <ttl/types.hpp>
#include <ttl/utility.hpp>
#include <ttl/algorithm.hpp>
#include <ttl/vector.hpp>
#include <ttl/list.hpp>
using h::choose; using h::say;
typedef std::vector<KI> Seq;
static int nid;
template<typename T> struct V
{
   typedef ttl::vector<T> X;
   typedef typename X::iterator It;
   X *x[2]; Seq m[2];
   static KI fresh() { ++nid; return KI(choose(h::random_mode ? 4 : 2), std::is_same<T, E>::value ? nid : 0); }
   static KI fr(int k) { ++nid; return KI(k, std::is_same<T, E>::value ? nid : 0); }
   static T mk(KI v) { return mk_(v, (T *)0); }
   static E mk_(KI v, E *) { return E(v.first, v.second); }
   template<typename I> static I mk_(KI v, I *) { return v.first; }
   static KI def() { return KI(0, 0); }
   void check(int i)
   {
      X &v = *x[i]; const X &c = v; Seq &s = m[i];
      CK("C01,C23", c.size() == s.size(), "size() of %d is %lu, not %lu", i, (unsigned long)c.size(), (unsigned long)s.size());
      if (c.size() != s.size()) return;
      CK("C01", c.empty() == s.empty(), "empty() of %d", i);
      CK("C01", c.capacity() >= c.size(), "capacity() of %d is %lu, size is %lu", i, (unsigned long)c.capacity(), (unsigned long)c.size());
      CK("C01", v.end() - v.begin() == (long)s.size() && c.end() - c.begin() == (long)s.size() && c.cend() - c.cbegin() == (long)s.size() && c.begin() == v.begin() && c.cbegin() == v.begin(), "the iterators of %d do not span the elements", i);
      CK("C01", v.data() == v.begin() && c.data() == c.begin(), "data() of %d", i);
      for (size_t k = 0; k < s.size(); ++k)
      {
         KI g = ki(c[k]);
         CK("C01,C23", g == s[k], "element %lu of %d is %d.%d, the contents should be %s", (unsigned long)k, i, g.first, g.second, str(s).c_str());
         CK("C01", &c[k] == c.begin() + k && &v[k] == &c[k] && &v.at(k) == &c[k] && &c.at(k) == &c[k], "[] or at(%lu)", (unsigned long)k);
      }
      if (s.size()) CK("C01", &v.front() == &c[0] && &c.front() == &c[0] && &v.back() == &c[s.size() - 1] && &c.back() == &c[s.size() - 1], "front() or back() of %d", i);
   }
   void checks()
   {
      check(0); check(1);
      if (std::is_same<T, E>::value) CK("C02", b::objects == (long)(m[0].size() + m[1].size()), "%ld elements are alive, not %ld", b::objects, (long)(m[0].size() + m[1].size()));
      CK("C02", b::blocks <= 4, "%ld blocks are allocated by two vectors", b::blocks);
   }
   void ret(It r, size_t p, int i) { CK("C01", r - x[i]->begin() == (long)p, "returns position %ld, not %lu", (long)(r - x[i]->begin()), (unsigned long)p); }
   size_t pos(int i) { return choose(m[i].size() + 1); }
   size_t num() { return h::random_mode ? (choose(5) ? choose(5) : choose(3) ? choose(20) : choose(90)) : choose(4); }
   Seq range() { Seq s(num()); for (auto &k : s) k = fr(s.size() % 2); return s; }
   void create(int i)
   {
      m[i].clear();
      switch (choose(i ? 2 : 6))
      {
         case 0: { say("v%d();", i); SUT; x[i] = new X; break; }
         case 1: { Seq s(choose(h::random_mode ? 6 : 3)); for (auto &k : s) k = fr(1); Arr<T> a(s); say("v%d(range of %lu);", i, (unsigned long)s.size()); { SUT; x[i] = new X((const T *)a.begin(), (const T *)a.end()); } m[i] = s; break; }
         case 2: { size_t n = num(); say("v%d(%lu);", i, (unsigned long)n); { SUT; x[i] = new X(n); } m[i] = Seq(n, def()); break; }
         case 3: { size_t n = num(); KI k = fresh(); Arr<T> a(Seq(1, k)); say("v%d(%lu,%d);", i, (unsigned long)n, k.first); { SUT; x[i] = new X(n, (const T &)a.p[0]); } m[i] = Seq(n, k); break; }
         case 4: { Seq s = range(); Arr<T> a(s); say("v%d(range of %lu);", i, (unsigned long)s.size()); { SUT; x[i] = new X((const T *)a.begin(), (const T *)a.end()); } m[i] = s; break; }
         case 5: { Seq s = range(); Arr<T> a(s); say("v%d(copy of a vector of %lu);", i, (unsigned long)s.size()); X *t; { SUT; t = new X((const T *)a.begin(), (const T *)a.end()); x[i] = new X(*t); delete t; } m[i] = s; break; }
      }
   }
   void op()
   {
      int i = h::random_mode ? choose(2) : 0, j = 1 - i;
      X &v = *x[i]; Seq &s = m[i];
      b::what = "?";
      switch (choose(25))
      {
         case 0: { KI k = fresh(); say("push_back(%d);", k.first); b::what = "push_back"; { Arr<T> a(Seq(1, k)); SUT; v.push_back(a.p[0]); } s.push_back(k); break; }
         case 1: if (s.size()) { say("pop_back;"); b::what = "pop_back"; { SUT; v.pop_back(); } s.pop_back(); } break;
         case 2: { size_t p = pos(i); KI k = fresh(); say("insert(%lu,%d);", p, k.first); b::what = "insert(pos,x)"; { Arr<T> a(Seq(1, k)); SUT; It r = v.insert(v.begin() + p, a.p[0]); ret(r, p, i); } s.insert(s.begin() + p, k); break; }
         case 3: { size_t p = pos(i), n = num(); KI k = fresh(); say("insert(%lu,%lu,%d);", p, n, k.first); b::what = "insert(pos,n,x)"; { Arr<T> a(Seq(1, k)); SUT; It r = v.insert(v.begin() + p, n, (const T &)a.p[0]); ret(r, p, i); } s.insert(s.begin() + p, n, k); break; }
         case 4: { size_t p = pos(i); Seq t = range(); say("insert(%lu,range of %lu);", p, t.size()); b::what = "insert(pos,range)"; { Arr<T> a(t); SUT; It r = v.insert(v.begin() + p, (const T *)a.begin(), (const T *)a.end()); ret(r, p, i); } s.insert(s.begin() + p, t.begin(), t.end()); break; }
         case 5: if (s.size()) { size_t p = choose(s.size()); say("erase(%lu);", p); b::what = "erase(pos)"; { SUT; It r = v.erase(v.begin() + p); ret(r, p, i); } s.erase(s.begin() + p); } break;
         case 6: { size_t p = pos(i), q = p + choose(s.size() - p + 1); say("erase(%lu,%lu);", p, q); b::what = "erase(range)"; { SUT; It r = v.erase(v.begin() + p, v.begin() + q); ret(r, p, i); } s.erase(s.begin() + p, s.begin() + q); break; }
         case 7: { size_t n = num(); if (h::random_mode && choose(2)) n = s.size() / 2; say("resize(%lu);", n); b::what = "resize(n)"; { SUT; v.resize(n); } s.resize(n, def()); break; }
         case 8: { size_t n = num(); KI k = fresh(); say("resize(%lu,%d);", n, k.first); b::what = "resize(n,x)"; { Arr<T> a(Seq(1, k)); SUT; v.resize(n, a.p[0]); } s.resize(n, k); break; }
         case 9: { size_t n = h::random_mode ? num() + s.size() * choose(2) : choose(6); say("reserve(%lu);", n); b::what = "reserve"; if (n < s.size()) n = s.size(); { SUT; v.reserve(n); } CK("C01", v.capacity() >= n, "capacity() is %lu after reserve(%lu)", (unsigned long)v.capacity(), (unsigned long)n); break; }
         case 10: { say("clear;"); b::what = "clear"; { SUT; v.clear(); } s.clear(); break; }
         case 11: { say("swap;"); b::what = "swap"; { SUT; v.swap(*x[j]); } std::swap(m[0], m[1]); break; }
         case 12: { say("assign;"); b::what = "operator="; X *r; { SUT; r = &(v = *x[j]); } CK("C23", r == &v, "does not return the target"); s = m[j]; break; }
         case 13: { say("self-assign;"); b::what = "operator= with itself"; { SUT; v = v; } break; }
         case 14: { size_t n = num(); KI k = fresh(); say("assign(%lu,%d);", n, k.first); b::what = "assign(n,x)"; { Arr<T> a(Seq(1, k)); SUT; v.assign((typename X::size_type)n, (const T &)a.p[0]); } s.assign(n, k); break; }
         case 15: { Seq t = range(); say("assign(range of %lu);", t.size()); b::what = "assign(range)"; { Arr<T> a(t); SUT; v.assign((const T *)a.begin(), (const T *)a.end()); } s = t; break; }
         case 16: { Seq t = range(); say("assign(list of %lu);", t.size()); b::what = "assign(list range)"; { ttl::list<T> a; for (auto &k : t) a.push_back(mk(k)); SUT; v.assign(a.begin(), a.end()); } s = t; break; }
         case 17: if (s.size()) { size_t p = choose(s.size()); say("push_back([%lu]);", p); b::what = "push_back(own element)"; { SUT; v.push_back(v[p]); } s.push_back(KI(s[p])); } break;
         case 18: if (s.size()) { size_t p = pos(i), q = choose(s.size()), n = 1 + choose(2); say("insert(%lu,%lu,[%lu]);", p, n, q); b::what = "insert(pos,n,own element)"; { SUT; It r = n == 1 ? v.insert(v.begin() + p, v[q]) : v.insert(v.begin() + p, n, v[q]); ret(r, p, i); } KI k = s[q]; s.insert(s.begin() + p, n, k); } break;
         case 19: if (s.size()) { size_t q = choose(s.size()), n = num(); say("resize(%lu,[%lu]);", n, q); b::what = "resize(n,own element)"; { SUT; v.resize(n, v[q]); } KI k = s[q]; s.resize(n, k); } break;
         case 20: if (s.size()) { size_t q = choose(s.size()); KI k = fresh(); say("[%lu]=%d;", q, k.first); b::what = "write to []"; { Arr<T> a(Seq(1, k)); SUT; switch (choose(2)) { case 0: v[q] = a.p[0]; break; case 1: *(v.begin() + q) = a.p[0]; break; } } s[q] = k; } break;
         case 21: { say("copy;"); b::what = "copy constructor"; X *t; { SUT; t = new X(v); } Seq o = s; { X *k = x[i]; x[i] = t; check(i); x[i] = k; }
                    CK("C23,C01", t->capacity() >= t->size(), "capacity() < size()"); KI k = fr(3); { Arr<T> a(Seq(1, k)); SUT; t->push_back(a.p[0]); if (s.size()) (*t)[0] = a.p[0]; } check(i); { SUT; v.push_back(v.size() ? v[0] : (*t)[0]); } s.push_back(s.size() ? KI(s[0]) : k); CK("C23", t->size() == o.size() + 1, "changing the source changed the copy"); for (size_t q = 0; q < o.size(); ++q) CK("C23", ki((*t)[q]) == (q ? o[q] : k), "changing the source changed the copy"); { SUT; delete t; } break; }
         case 22: { say("==;"); b::what = "=="; bool e = m[0].size() == m[1].size(); for (size_t q = 0; e && q < m[0].size(); ++q) e = m[0][q].first == m[1][q].first; const X &a = *x[0], &c = *x[1]; CK("C23", (a == c) == e && (c == a) == e && (a != c) == !e, "== gives %d, should be %d", a == c, e); CK("C23", a == a && !(a != a), "not equal to itself"); break; }
         case 23: { say("make equal but one;"); b::what = "=="; { SUT; *x[1] = *x[0]; } m[1] = m[0]; if (m[0].size()) { size_t q = choose(m[0].size()); KI k = m[0][q]; k.first += 1; { Arr<T> a(Seq(1, k)); SUT; (*x[1])[q] = a.p[0]; } m[1][q] = k; CK("C23", !(*x[0] == *x[1]) && *x[0] != *x[1], "vectors that differ at %lu are equal", q); } break; }
         case 24: { say("self-swap;"); b::what = "swap with itself"; { SUT; v.swap(v); } break; }
      }
   }
   void history(int ops)
   {
      nid = 0; b::objects = 0; b::blocks = 0; memset(b::ptrs.t, 0, 0);
      create(0); create(1);
      checks();
      while (ops-- > 0) { op(); checks(); }
      b::what = "destructor";
      { SUT; delete x[0]; delete x[1]; }
      if (std::is_same<T, E>::value) CK("C02", b::objects == 0, "%ld elements are left after the vectors are destroyed", b::objects);
      CK("C02", b::blocks == 0, "%ld blocks are left after the vectors are destroyed", b::blocks);
      // (double deletes are caught by the sanitizer, double destruction by the element)
   }
};
int main(int argc, char **argv)
{
   b::start(argc, argv);
   b::life_props = "C02"; b::describe = h::desc;
   int D = b::depth;
   V<E> v; V<int> vi; V<char> vc;
   h::all([&] { v.history(1); });
   h::all([&] { vi.history(1); });
   h::all([&] { v.history(2); }, D > 1 ? ~0ul : 400000);
   h::random(D > 1 ? 60000 : 9000, [&] { v.history(12); });
   h::random(D > 1 ? 6000 : 1000, [&] { v.history(60); });
   h::random(D > 1 ? 6000 : 1000, [&] { vi.history(40); });
   h::random(D > 1 ? 6000 : 1000, [&] { vc.history(40); });
   return b::finish();
}
