// Bounded check of fixed_vector (C03 truncated contents, C04 lifetimes and memory, C23 copies and ==): all histories of one
// or two operations on small capacities, and random longer ones, against a model cut to N after each operation.
#include "hist.hpp"
#include <ttl/types.hpp>
#include <ttl/utility.hpp>
#include <ttl/algorithm.hpp>
#include <ttl/fixed_vector.hpp>
#include <ttl/list.hpp>
using h::choose; using h::say;
typedef std::vector<KI> Seq;
static int nid;
template<typename T, unsigned N> struct V
{
   typedef ttl::fixed_vector<T, N> X;
   struct Box { long g0; X v; long g1; };
   typedef typename X::iterator It;
   X *x[2]; Seq m[2]; Box *box[2];
   static void cut(Seq &s) { if (s.size() > N) s.resize(N); }
   // storage with guard words around it, filled with a pattern
   void *mem(int i) { box[i] = (Box *)malloc(sizeof(Box)); memset((void *)box[i], 0xCD, sizeof(Box)); return &box[i]->v; }
   static KI fresh() { ++nid; return KI(choose(h::random_mode ? 4 : 2), std::is_same<T, E>::value ? nid : 0); }
   static KI fr(int k) { ++nid; return KI(k, std::is_same<T, E>::value ? nid : 0); }
   static T mk(KI v) { return mk_(v, (T *)0); }
   static E mk_(KI v, E *) { return E(v.first, v.second); }
   template<typename I> static I mk_(KI v, I *) { return v.first; }
   static KI def() { return KI(0, 0); }
   void check(int i)
   {
      X &v = *x[i]; const X &c = v; Seq &s = m[i];
      CK("C03,C23", c.size() == s.size(), "size() of %d is %lu, not %lu", i, (unsigned long)c.size(), (unsigned long)s.size());
      if (c.size() != s.size()) return;
      CK("C03", c.empty() == s.empty(), "empty() of %d", i);
      CK("C03", c.capacity() == N && c.max_size() == N && c.full() == (s.size() == N), "capacity(), max_size() or full() of %d", i);
      CK("C04", (void *)&*c.begin() >= (void *)&c && (char *)(c.begin() + N) <= (char *)(&c + 1), "the elements are not inside of the object");
      CK("C03", v.end() - v.begin() == (long)s.size() && c.end() - c.begin() == (long)s.size() && c.cend() - c.cbegin() == (long)s.size() && c.begin() == v.begin() && c.cbegin() == v.begin(), "the iterators of %d do not span the elements", i);
      CK("C03", v.data() == v.begin() && c.data() == c.begin(), "data() of %d", i);
      for (size_t k = 0; k < s.size(); ++k)
      {
         KI g = ki(c[k]);
         CK("C03,C23", g == s[k], "element %lu of %d is %d.%d, the contents should be %s", (unsigned long)k, i, g.first, g.second, str(s).c_str());
         CK("C03", &c[k] == c.begin() + k && &v[k] == &c[k] && &v.at(k) == &c[k] && &c.at(k) == &c[k], "[] or at(%lu)", (unsigned long)k);
      }
      if (s.size()) CK("C03", &v.front() == &c[0] && &c.front() == &c[0] && &v.back() == &c[s.size() - 1] && &c.back() == &c[s.size() - 1], "front() or back() of %d", i);
   }
   void checks()
   {
      check(0); check(1);
      if (std::is_same<T, E>::value) CK("C04", b::objects == (long)(m[0].size() + m[1].size()), "%ld elements are alive, not %ld", b::objects, (long)(m[0].size() + m[1].size()));
      for (int i = 0; i < 2; ++i) CK("C04,C03", box[i]->g0 == (long)0xCDCDCDCDCDCDCDCD && box[i]->g1 == (long)0xCDCDCDCDCDCDCDCD, "memory around %d was changed", i);
      CK("C04", b::blocks == 0, "memory was allocated");
   }
   void checks_guard() { for (int i = 0; i < 2; ++i) CK("C04,C03", box[i]->g0 == (long)0xCDCDCDCDCDCDCDCD && box[i]->g1 == (long)0xCDCDCDCDCDCDCDCD, "memory around %d was changed by its destructor", i); }
   void ret(It r, size_t p, int i) { CK("C03", r - x[i]->begin() == (long)p, "returns position %ld, not %lu", (long)(r - x[i]->begin()), (unsigned long)p); }
   size_t pos(int i) { return choose(m[i].size() + 1); }
   size_t num() { return h::random_mode ? choose(4) == 0 ? N - 1 + choose(3) : (choose(5) ? choose(5) : choose(3) ? choose(20) : choose(90)) : choose(N + 3); }
   Seq range() { Seq s(num()); for (auto &k : s) k = fr(s.size() % 2); return s; }
   void create(int i)
   {
      m[i].clear();
      switch (choose(i ? 2 : 6))
      {
         case 0: { say("v%d();", i); SUT; x[i] = new (mem(i)) X; break; }
         case 1: { Seq s(choose(h::random_mode ? 6 : 3)); for (auto &k : s) k = fr(1); Arr<T> a(s); say("v%d(range of %lu);", i, (unsigned long)s.size()); { SUT; x[i] = new (mem(i)) X((const T *)a.begin(), (const T *)a.end()); } m[i] = s; break; }
         case 2: { size_t n = num(); say("v%d(%lu);", i, (unsigned long)n); { SUT; x[i] = new (mem(i)) X(n); } m[i] = Seq(n, def()); break; }
         case 3: { size_t n = num(); KI k = fresh(); Arr<T> a(Seq(1, k)); say("v%d(%lu,%d);", i, (unsigned long)n, k.first); { SUT; x[i] = new (mem(i)) X(n, (const T &)a.p[0]); } m[i] = Seq(n, k); break; }
         case 4: { Seq s = range(); Arr<T> a(s); say("v%d(range of %lu);", i, (unsigned long)s.size()); { SUT; x[i] = new (mem(i)) X((const T *)a.begin(), (const T *)a.end()); } m[i] = s; break; }
         case 5: { Seq s = range(); Arr<T> a(s); say("v%d(copy of a vector of %lu);", i, (unsigned long)s.size()); X *t; { SUT; t = new X((const T *)a.begin(), (const T *)a.end()); x[i] = new (mem(i)) X(*t); delete t; } m[i] = s; break; }
      }
      cut(m[i]);
   }
   void op()
   {
      int i = h::random_mode ? choose(2) : 0, j = 1 - i;
      X &v = *x[i]; Seq &s = m[i];
      b::what = "?";
      switch (choose(25))
      {
         case 0: { KI k = fresh(); say("push_back(%d);", k.first); b::what = "push_back"; { Arr<T> a(Seq(1, k)); SUT; v.push_back(a.p[0]); } s.push_back(k); break; }
         case 1: if (s.size()) { say("pop_back;"); b::what = "pop_back"; { SUT; v.pop_back(); } s.pop_back(); } break;
         case 2: { size_t p = pos(i); KI k = fresh(); say("insert(%lu,%d);", p, k.first); b::what = "insert(pos,x)"; { Arr<T> a(Seq(1, k)); SUT; It r = v.insert(v.begin() + p, a.p[0]); ret(r, p, i); } s.insert(s.begin() + p, k); break; }
         case 3: { size_t p = pos(i), n = num(); KI k = fresh(); say("insert(%lu,%lu,%d);", p, n, k.first); b::what = "insert(pos,n,x)"; size_t big = choose(8) ? n : choose(2) ? (size_t)-1 : (size_t)-1 / sizeof(T) + (sizeof(T) > 1 ? choose(3) : 0); if (big != n) say("(count %lu)", big), n = N + 1; { Arr<T> a(Seq(1, k)); SUT; It r = v.insert(v.begin() + p, big, (const T &)a.p[0]); ret(r, p, i); } s.insert(s.begin() + p, n, k); break; }
         case 4: { size_t p = pos(i); Seq t = range(); say("insert(%lu,range of %lu);", p, t.size()); b::what = "insert(pos,range)"; { Arr<T> a(t); SUT; It r = v.insert(v.begin() + p, (const T *)a.begin(), (const T *)a.end()); ret(r, p, i); } s.insert(s.begin() + p, t.begin(), t.end()); break; }
         case 5: if (s.size()) { size_t p = choose(s.size()); say("erase(%lu);", p); b::what = "erase(pos)"; { SUT; It r = v.erase(v.begin() + p); ret(r, p, i); } s.erase(s.begin() + p); } break;
         case 6: { size_t p = pos(i), q = p + choose(s.size() - p + 1); say("erase(%lu,%lu);", p, q); b::what = "erase(range)"; { SUT; It r = v.erase(v.begin() + p, v.begin() + q); ret(r, p, i); } s.erase(s.begin() + p, s.begin() + q); break; }
         case 7: { size_t n = num(); if (h::random_mode && choose(2)) n = s.size() / 2; say("resize(%lu);", n); b::what = "resize(n)"; { SUT; v.resize(n); } s.resize(n, def()); break; }
         case 8: { size_t n = num(); KI k = fresh(); say("resize(%lu,%d);", n, k.first); b::what = "resize(n,x)"; { Arr<T> a(Seq(1, k)); SUT; v.resize(n, a.p[0]); } s.resize(n, k); break; }
         case 9: { say("clear;"); b::what = "clear"; { SUT; v.clear(); } s.clear(); break; }
         case 10: { say("clear;"); b::what = "clear"; { SUT; v.clear(); } s.clear(); break; }
         case 11: { say("swap;"); b::what = "swap"; { SUT; v.swap(*x[j]); } std::swap(m[0], m[1]); break; }
         case 12: { say("assign;"); b::what = "operator="; X *r; { SUT; r = &(v = *x[j]); } CK("C23", r == &v, "does not return the target"); s = m[j]; break; }
         case 13: { say("self-assign;"); b::what = "operator= with itself"; { SUT; v = v; } break; }
         case 14: { size_t n = num(); KI k = fresh(); say("assign(%lu,%d);", n, k.first); b::what = "assign(n,x)"; { Arr<T> a(Seq(1, k)); SUT; v.assign((typename X::size_type)n, (const T &)a.p[0]); } s.assign(n, k); break; }
         case 15: { Seq t = range(); say("assign(range of %lu);", t.size()); b::what = "assign(range)"; { Arr<T> a(t); SUT; v.assign((const T *)a.begin(), (const T *)a.end()); } s = t; break; }
         case 16: { Seq t = range(); say("assign(list of %lu);", t.size()); b::what = "assign(list range)"; { ttl::list<T> a; for (auto &k : t) a.push_back(mk(k)); SUT; v.assign(a.begin(), a.end()); } s = t; break; }
         case 17: if (s.size()) { size_t p = choose(s.size()); say("push_back([%lu]);", p); b::what = "push_back(own element)"; { SUT; v.push_back(v[p]); } s.push_back(KI(s[p])); } break;
         case 18: if (s.size()) { size_t p = pos(i), q = choose(s.size()), n = 1 + choose(2); say("insert(%lu,%lu,[%lu]);", p, n, q); b::what = "insert(pos,n,own element)"; { SUT; It r = n == 1 ? v.insert(v.begin() + p, v[q]) : v.insert(v.begin() + p, n, v[q]); ret(r, p, i); } KI k = s[q]; s.insert(s.begin() + p, n, k); } break;
         case 19: if (s.size()) { size_t q = choose(s.size()), n = num(); say("resize(%lu,[%lu]);", n, q); b::what = "resize(n,own element)"; { SUT; v.resize(n, v[q]); } KI k = s[q]; s.resize(n, k); } break;
         case 20: if (s.size()) { size_t q = choose(s.size()); KI k = fresh(); say("[%lu]=%d;", q, k.first); b::what = "write to []"; { Arr<T> a(Seq(1, k)); SUT; switch (choose(2)) { case 0: v[q] = a.p[0]; break; case 1: *(v.begin() + q) = a.p[0]; break; } } s[q] = k; } break;
         case 21: { say("copy;"); b::what = "copy constructor"; Box *kb = box[i]; X *k = x[i], *t; { SUT; t = new (mem(i)) X(v); } x[i] = t; check(i); Box *tb = box[i]; x[i] = k; box[i] = kb; Seq o = s; KI e = fr(3);
                    { Arr<T> a(Seq(1, e)); SUT; if (o.size()) { (*t)[0] = a.p[0]; t->pop_back(); } else t->push_back(a.p[0]); } check(i); if (o.size()) { o[0] = e; o.pop_back(); } else o.push_back(e); cut(o);
                    { SUT; if (s.size()) { v[0] = v[s.size() - 1]; v.pop_back(); } } if (s.size()) { s[0] = s.back(); s.pop_back(); } m[i] = s; Seq ks = s; x[i] = t; box[i] = tb; m[i] = o; check(i); x[i] = k; box[i] = kb; m[i] = ks; CK("C04", tb->g0 == (long)0xCDCDCDCDCDCDCDCD && tb->g1 == (long)0xCDCDCDCDCDCDCDCD, "memory around the copy was changed"); { SUT; t->~X(); } free((void *)tb); break; }
         case 22: { say("==;"); b::what = "=="; bool e = m[0].size() == m[1].size(); for (size_t q = 0; e && q < m[0].size(); ++q) e = m[0][q].first == m[1][q].first; const X &a = *x[0], &c = *x[1]; CK("C23", (a == c) == e && (c == a) == e && (a != c) == !e, "== gives %d, should be %d", a == c, e); CK("C23", a == a && !(a != a), "not equal to itself"); break; }
         case 23: { say("make equal but one;"); b::what = "=="; { SUT; *x[1] = *x[0]; } m[1] = m[0]; if (m[0].size()) { size_t q = choose(m[0].size()); KI k = m[0][q]; k.first += 1; { Arr<T> a(Seq(1, k)); SUT; (*x[1])[q] = a.p[0]; } m[1][q] = k; CK("C23", !(*x[0] == *x[1]) && *x[0] != *x[1], "vectors that differ at %lu are equal", q); } break; }
         case 24: { say("self-swap;"); b::what = "swap with itself"; { SUT; v.swap(v); } break; }
      }
      cut(m[0]); cut(m[1]);
   }
   void history(int ops)
   {
      nid = 0; b::objects = 0; b::blocks = 0; 
      create(0); create(1);
      checks();
      while (ops-- > 0) { op(); checks(); }
      b::what = "destructor";
      { SUT; x[0]->~X(); x[1]->~X(); }
      checks_guard(); free((void *)box[0]); free((void *)box[1]);
      if (std::is_same<T, E>::value) CK("C04", b::objects == 0, "%ld elements are left after the vectors are destroyed", b::objects);
      CK("C04", b::blocks == 0, "%ld blocks are left after the vectors are destroyed", b::blocks);
      // (double deletes are caught by the sanitizer, double destruction by the element)
   }
};
int main(int argc, char **argv)
{
   b::start(argc, argv);
   b::life_props = "C04"; b::describe = h::desc;
   int D = b::depth;
   { V<E, 1> v; h::all([&] { v.history(2); }, 60000); h::random(1000, [&] { v.history(10); }); }
   { V<E, 2> v; h::all([&] { v.history(1); }); h::all([&] { v.history(2); }, D > 1 ? 5000000 : 150000); h::random(1000 * D, [&] { v.history(14); }); }
   { V<E, 3> v; h::all([&] { v.history(1); }); h::all([&] { v.history(2); }, D > 1 ? 5000000 : 50000); h::random(3000 * D, [&] { v.history(14); }); }
   { V<E, 5> v; h::random(6000 * D, [&] { v.history(16); }); }
   { V<E, 16> v; h::random(2000 * D, [&] { v.history(30); }); }
   { V<int, 4> v; h::all([&] { v.history(1); }); h::random(2000 * D, [&] { v.history(20); }); }
   { V<char, 7> v; h::random(2000 * D, [&] { v.history(20); }); }
   { V<E, 100> v; h::random(500 * D, [&] { v.history(30); }); }
   return b::finish();
}
