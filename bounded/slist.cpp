// Bounded check of forward_list (C07), backward_list (C08), lazy_queue (C09), and their copies and == (C23): all histories
// of one or two operations on two small lists, and random longer ones, against a model that also knows where elements live.
#include "hist.hpp"
#include <ttl/types.hpp>
#include <ttl/utility.hpp>
#include <ttl/algorithm.hpp>
#include <ttl/forward_list.hpp>
#include <ttl/backward_list.hpp>
#include <ttl/lazy_queue.hpp>
using h::choose; using h::say;
static int nid;
template<typename T, template<typename> class C> struct Kind;
template<typename T> struct Kind<T, ttl::forward_list> { static const int k = 7; };
template<typename T> struct Kind<T, ttl::backward_list> { static const int k = 8; };
template<typename T> struct Kind<T, ttl::lazy_queue> { static const int k = 9; };
template<typename T, template<typename> class C> struct S
{
   static const int K = Kind<T, C>::k;
   static constexpr bool F = K == 7, B = K == 8, Z = K == 9;
   static const char *P() { return F ? "C07" : B ? "C08" : "C09"; }
   static const char *PC() { return F ? "C07,C23" : B ? "C08,C23" : "C09,C23"; }
   typedef C<T> X; typedef typename X::iterator It; typedef typename X::const_iterator Ci;
   struct N { KI v; const T *a; };
   typedef std::vector<N> Seq;
   X *x[2]; Seq m[2];
   static KI id(KI k) { if (!std::is_same<T, E>::value) k.second = 0; return k; }
   static KI fresh() { ++nid; return id(KI(choose(h::random_mode ? 5 : 2), nid)); }
   static KI fr(int k) { ++nid; return id(KI(k, nid)); }
   static N nn(KI k) { N n = {k, 0}; return n; }
   static Seq ns(const std::vector<KI> &s) { Seq r; for (auto &k : s) r.push_back(nn(k)); return r; }
   static std::string show(const Seq &s) { std::vector<KI> r; for (auto &n : s) r.push_back(n.v); return str(r); }
   // p is one past the position: 0 is before_begin
   It at(int i, size_t p) { It r = x[i]->before_begin(); while (p--) ++r; return r; }
   // number of elements before it, 1 + size for the end
   size_t where(int i, It it) { size_t p = 0; for (It r = x[i]->before_begin(); !(r == it); ++r) { if (r == x[i]->end()) return (size_t)-1; ++p; if (p > m[i].size() + 5) return (size_t)-2; } return p; }
   void check(int i)
   {
      X &l = *x[i]; const X &c = l; Seq &s = m[i]; size_t p = 0;
      for (It it = l.begin(); it != l.end(); ++it, ++p)
      {
         CK(PC(), p < s.size(), "list %d has more than %lu elements", i, (unsigned long)s.size());
         if (p >= s.size()) return;
         KI g = ki(*it);
         CK(PC(), g == s[p].v, "element %lu of %d is %d.%d, the contents should be %s", (unsigned long)p, i, g.first, g.second, show(s).c_str());
         CK(P(), &*it == it.operator->(), "* and -> differ");
         if (s[p].a) CK(P(), s[p].a == &*it, "element %lu of %d (%d.%d) was moved to another address", (unsigned long)p, i, g.first, g.second);
         s[p].a = &*it;
      }
      CK(PC(), p == s.size(), "list %d has %lu elements, not %lu", i, (unsigned long)p, (unsigned long)s.size());
      if (p != s.size()) return;
      p = 0; for (Ci it = c.begin(); it != c.end(); it++, ++p) CK(P(), p < s.size() && &*it == s[p].a, "const iteration"); CK(P(), p == s.size(), "const iteration ends early");
      p = 0; for (Ci it = c.cbegin(); it != c.cend(); ++it) ++p; CK(P(), p == s.size(), "cbegin/cend");
      { It it = l.before_begin(); ++it; CK(P(), it == l.begin(), "before_begin"); Ci ci = c.cbefore_begin(); ++ci; CK(P(), ci == c.cbegin(), "cbefore_begin"); Ci cj = c.before_begin(); CK(P(), cj == c.cbefore_begin(), "before_begin"); }
      CK(P(), c.empty() == s.empty(), "empty() of %d", i);
      if (s.size()) CK(P(), &l.front() == s[0].a && &c.front() == s[0].a, "front() of %d", i);
      if constexpr (B || Z)
      {
         if (s.size()) { CK(P(), &l.back() == s.back().a && &c.back() == s.back().a, "back() of %d is not its last element", i); CK(P(), &*l.before_end() == s.back().a && &*c.before_end() == s.back().a && &*c.cbefore_end() == s.back().a, "before_end() of %d", i); }
         else CK(P(), l.before_end() == l.before_begin() && c.before_end() == c.before_begin() && c.cbefore_end() == c.cbefore_begin(), "before_end() of the empty list %d is not before_begin()", i);
      }
   }
   void checks()
   {
      check(0); check(1);
      long n = m[0].size() + m[1].size();
      if (std::is_same<T, E>::value) CK(P(), b::objects == n, "%ld elements are alive, not %ld", b::objects, n);
      if (!Z) CK(P(), b::blocks - 2 == n, "%ld nodes are allocated for %ld elements", b::blocks - 2, n);
      else CK(P(), b::blocks - 2 >= n, "%ld nodes are allocated for %ld elements", b::blocks - 2, n);
   }
   void ret(It r, size_t p, int i) { CK(P(), where(i, r) == p, "returns position %ld, not %lu", (long)where(i, r) - 1, (unsigned long)p - 1); }
   size_t pos(int i) { return choose(m[i].size() + 1); }
   size_t num() { return h::random_mode ? (choose(6) ? choose(5) : choose(3) ? choose(20) : choose(70)) : choose(4); }
   std::vector<KI> range() { std::vector<KI> s(num()); for (auto &k : s) k = h::random_mode ? fresh() : fr(s.size() % 2); return s; }
   void fill(X *t, const std::vector<KI> &s) { Arr<T> a(s); SUT; t->insert_after(t->cbefore_begin(), (const T *)a.begin(), (const T *)a.end()); }
   void create(int i)
   {
      m[i].clear();
      switch (choose(i ? 1 : h::random_mode ? 5 : 2))
      {
         case 1: { say("l%d;", i); SUT; x[i] = new X; break; }
         case 0: { std::vector<KI> s(choose(h::random_mode ? 6 : i ? 3 : 4)); for (auto &k : s) k = fresh(); say("l%d=%s;", i, str(s).c_str()); { SUT; x[i] = new X; } fill(x[i], s); m[i] = ns(s); break; }
         case 2: { size_t n = num(); KI k = fresh(); Arr<T> a(std::vector<KI>(1, k)); say("l%d(%lu,%d);", i, (unsigned long)n, k.first); { SUT; x[i] = new X((typename X::size_type)n, (const T &)a.p[0]); } m[i] = Seq(n, nn(k)); break; }
         case 3: { std::vector<KI> s = range(); say("l%d(copy of %s);", i, str(s).c_str()); X *t; { SUT; t = new X; } fill(t, s); { SUT; x[i] = new X(*t); delete t; } m[i] = ns(s); break; }
         case 4: { std::vector<KI> s = range(); Arr<T> a(s); say("l%d(range %s);", i, str(s).c_str());
            if constexpr (Z) { { SUT; x[i] = new X; } fill(x[i], s); } else { SUT; x[i] = new X((const T *)a.begin(), (const T *)a.end()); } m[i] = ns(s); break; }
      }
   }
   void op()
   {
      int i = h::random_mode ? choose(2) : 0, j = 1 - i;
      X &l = *x[i]; Seq &s = m[i];
      b::what = "?";
      switch (choose(22))
      {
         case 0: { KI k = fresh(); say("push_front(%d);", k.first); b::what = "push_front"; { Arr<T> a(std::vector<KI>(1, k)); SUT; l.push_front(a.p[0]); } s.insert(s.begin(), nn(k)); break; }
         case 1: if (s.size()) { say("pop_front;"); b::what = "pop_front"; { SUT; l.pop_front(); } s.erase(s.begin()); } break;
         case 2: { size_t p = pos(i); KI k = fresh(); say("insert_after(%ld,%d);", (long)p - 1, k.first); b::what = "insert_after(pos,x)"; It r; { Arr<T> a(std::vector<KI>(1, k)); SUT; r = l.insert_after(at(i, p), a.p[0]); } s.insert(s.begin() + p, nn(k)); ret(r, p + 1, i); break; }
         case 3: { size_t p = pos(i), n = num(); KI k = fresh(); say("insert_after(%ld,%lu,%d);", (long)p - 1, n, k.first); b::what = "insert_after(pos,n,x)"; { Arr<T> a(std::vector<KI>(1, k)); SUT; l.insert_after(at(i, p), (typename X::size_type)n, (const T &)a.p[0]); } s.insert(s.begin() + p, n, nn(k)); break; }
         case 4: { size_t p = pos(i); auto t = range(); Seq q = ns(t); say("insert_after(%ld,range %s);", (long)p - 1, str(t).c_str()); b::what = "insert_after(pos,range)"; { Arr<T> a(t); SUT; l.insert_after(at(i, p), (const T *)a.begin(), (const T *)a.end()); } s.insert(s.begin() + p, q.begin(), q.end()); break; }
         case 5: { size_t p = pos(i); say("insert_after(%ld,other list);", (long)p - 1); b::what = "insert_after(pos,list range)"; { SUT; if (choose(2)) l.insert_after(at(i, p), x[j]->begin(), x[j]->end()); else l.insert_after(at(i, p), x[j]->cbegin(), x[j]->cend()); } Seq q; for (auto &n : m[j]) q.push_back(nn(n.v)); s.insert(s.begin() + p, q.begin(), q.end()); break; }
         case 6: if (s.size()) { size_t p = choose(s.size()); say("erase_after(%ld);", (long)p - 1); b::what = "erase_after(pos)"; It r; { SUT; r = l.erase_after(at(i, p)); } s.erase(s.begin() + p); ret(r, p + 1, i); } break;
         case 7: { size_t p = pos(i), e = p + choose(s.size() - p + 1); say("erase_after(%ld,%ld);", (long)p - 1, (long)e); b::what = "erase_after(range)"; It r; { SUT; r = l.erase_after(at(i, p), at(i, e + 1)); } s.erase(s.begin() + p, s.begin() + e); ret(r, p + 1, i); break; }
         case 8: { say("clear;"); b::what = "clear"; { SUT; l.clear(); } s.clear(); break; }
         case 9: { say("swap;"); b::what = "swap"; { SUT; l.swap(*x[j]); } std::swap(m[0], m[1]); break; }
         case 10: { say("self-swap;"); b::what = "swap with itself"; { SUT; l.swap(l); } break; }
         case 11: { say("assign;"); b::what = "operator="; X *r; { SUT; r = &(l = *x[j]); } CK("C23", r == &l, "does not return the target"); s.clear(); for (auto &n : m[j]) s.push_back(nn(n.v)); break; }
         case 12: { say("self-assign;"); b::what = "operator= with itself"; { SUT; l = l; } break; }
         case 13: { say("copy;"); b::what = "copy constructor"; X *t; { SUT; t = new X(l); } Seq o; for (auto &n : s) o.push_back(nn(n.v)); X *k = x[i]; Seq ks = s; x[i] = t; m[i] = o; check(i); o = m[i];
                    { SUT; if (o.size()) { *t->begin() = T(); if (o.size() > 1) { It q = t->begin(); t->erase_after(q); } } t->push_front(T()); } x[i] = k; m[i] = ks; check(i); if (o.size()) { o[0].v = KI(0, 0); if (o.size() > 1) o.erase(o.begin() + 1); } o.insert(o.begin(), nn(KI(0, 0)));
                    { SUT; if (s.size()) k->pop_front(); } if (s.size()) s.erase(s.begin()); ks = s; x[i] = t; m[i] = o; check(i); x[i] = k; m[i] = ks; { SUT; delete t; } break; }
         case 14: if (s.size()) { size_t q = choose(s.size()); KI k = fresh(); say("*%lu=%d;", q, k.first); b::what = "write through an iterator"; { Arr<T> a(std::vector<KI>(1, k)); SUT; *at(i, q + 1) = a.p[0]; } s[q].v = k; } break;
         case 15: if (s.size()) { size_t p = pos(i), q = choose(s.size()); say("insert_after(%ld,[%lu]);", (long)p - 1, q); b::what = "insert_after(pos,own element)"; It r; { SUT; r = l.insert_after(at(i, p), *at(i, q + 1)); } KI k = s[q].v; s.insert(s.begin() + p, nn(k)); ret(r, p + 1, i); } break;
         case 16: if constexpr (F || B) { say("reverse;"); b::what = "reverse"; { SUT; l.reverse(); } std::reverse(s.begin(), s.end()); } else { say("roll_head;"); b::what = "roll_head"; { SUT; l.roll_head(); } if (s.size()) { s.push_back(s[0]); s.erase(s.begin()); } } break;
         case 17: if constexpr (B || Z) { KI k = fresh(); say("push_back(%d);", k.first); b::what = "push_back"; { Arr<T> a(std::vector<KI>(1, k)); SUT; l.push_back(a.p[0]); } s.push_back(nn(k)); }
                  else { size_t p = pos(i); say("splice_after(%ld,other);", (long)p - 1); b::what = "splice_after(pos,list)"; { SUT; l.splice_after(at(i, p), *x[j]); } s.insert(s.begin() + p, m[j].begin(), m[j].end()); m[j].clear(); } break;
         case 18: if constexpr (F) { if (m[j].size()) { size_t p = pos(i), q = choose(m[j].size()); say("splice_after(%ld,other,%ld);", (long)p - 1, (long)q - 1); b::what = "splice_after(pos,list,it)"; { SUT; l.splice_after(at(i, p), *x[j], at(j, q)); } N n = m[j][q]; m[j].erase(m[j].begin() + q); s.insert(s.begin() + p, n); } }
                  else if constexpr (Z) { say("cleanup;"); b::what = "cleanup"; long before = b::blocks; { SUT; l.cleanup(); x[j]->cleanup(); } (void)before; CK("C09", b::blocks - 2 == (long)(m[0].size() + m[1].size()), "%ld nodes are left after the cleanup of both queues, for %lu elements", b::blocks - 2, (unsigned long)(m[0].size() + m[1].size())); }
                  else { size_t n = num(); KI k = fresh(); say("assign(%lu,%d);", n, k.first); b::what = "assign(n,x)"; { Arr<T> a(std::vector<KI>(1, k)); SUT; l.assign((typename X::size_type)n, (const T &)a.p[0]); } s.assign(n, nn(k)); }
                  break;
         case 19: if constexpr (F) { size_t p = pos(i), f = pos(j), e = f + choose(m[j].size() - f + 1); say("splice_after(%ld,other,%ld,%lu);", (long)p - 1, (long)f - 1, e); b::what = "splice_after(pos,list,range)"; { SUT; l.splice_after(at(i, p), *x[j], at(j, f), at(j, e + 1)); } Seq q(m[j].begin() + f, m[j].begin() + e); m[j].erase(m[j].begin() + f, m[j].begin() + e); s.insert(s.begin() + p, q.begin(), q.end()); }
                  else if constexpr (Z) { if (s.size()) { say("push_back,pop_front;"); b::what = "push_back"; KI k = fr(1); long blocks; { Arr<T> a(std::vector<KI>(1, k)); SUT; l.pop_front(); blocks = b::blocks; l.push_back(a.p[0]); } s.erase(s.begin()); s.push_back(nn(k)); CK("C09", b::blocks == blocks, "a pooled node was not reused by an insertion"); } }
                  else { auto t = range(); say("assign(range %s);", str(t).c_str()); b::what = "assign(range)"; { Arr<T> a(t); SUT; l.assign((const T *)a.begin(), (const T *)a.end()); } s = ns(t); }
                  break;
         case 20: if constexpr (F)
                  {
                     if (choose(2) && s.size()) { size_t p = pos(i), q = choose(s.size()); say("splice_after(%ld,self,%ld);", (long)p - 1, (long)q - 1); b::what = "splice_after(pos,itself,it)"; { SUT; l.splice_after(at(i, p), l, at(i, q)); } N n = s[q]; if (p != q && p != q + 1) { s.erase(s.begin() + q); if (q < p) --p; s.insert(s.begin() + p, n); } }
                     else { size_t f = pos(i), e = f + choose(s.size() - f + 1), p = pos(i); if (p > f && p <= e) p = f; say("splice_after(%ld,self,%ld,%lu);", (long)p - 1, (long)f - 1, e); b::what = "splice_after(pos,itself,range)"; { SUT; l.splice_after(at(i, p), l, at(i, f), at(i, e + 1)); } Seq q(s.begin() + f, s.begin() + e); s.erase(s.begin() + f, s.begin() + e); if (p >= e) p -= e - f; s.insert(s.begin() + p, q.begin(), q.end()); }
                  }
                  break;
         case 21: if constexpr (F)
                  {
                     if (choose(2)) { size_t n = num(); KI k = fresh(); say("assign(%lu,%d);", n, k.first); b::what = "assign(n,x)"; { Arr<T> a(std::vector<KI>(1, k)); SUT; l.assign((typename X::size_type)n, (const T &)a.p[0]); } s.assign(n, nn(k)); }
                     else { auto t = range(); say("assign(range %s);", str(t).c_str()); b::what = "assign(range)"; { Arr<T> a(t); SUT; l.assign((const T *)a.begin(), (const T *)a.end()); } s = ns(t); }
                  }
                  if constexpr (F || B)
                  {
                     say("==;"); b::what = "=="; bool e = m[0].size() == m[1].size(); for (size_t q = 0; e && q < m[0].size(); ++q) e = m[0][q].v.first == m[1][q].v.first; const X &a = *x[0], &c = *x[1]; CK("C23", (a == c) == e && (c == a) == e && (a != c) == !e, "== gives %d, should be %d", a == c, e); CK("C23", a == a && !(a != a), "not equal to itself");
                     { SUT; *x[1] = *x[0]; } m[1].clear(); for (auto &n : m[0]) m[1].push_back(nn(n.v)); CK("C23", a == c && !(a != c), "a copy is not equal"); if (m[0].size()) { size_t q = choose(m[0].size()); KI k = m[0][q].v; k.first += 1; { Arr<T> aa(std::vector<KI>(1, k)); SUT; *at(1, q + 1) = aa.p[0]; } m[1][q].v = k; CK("C23", !(a == c) && a != c, "lists that differ at %lu are equal", q); }
                  }
                  break;
      }
   }
   void history(int ops)
   {
      nid = 0; b::objects = 0; b::blocks = 0; memset(b::ptrs.t, 0, h::random_mode ? sizeof b::ptrs.t : 0);
      create(0); create(1); checks();
      while (ops-- > 0) { op(); checks(); }
      b::what = "destructor";
      { SUT; delete x[0]; delete x[1]; }
      if (std::is_same<T, E>::value) CK(P(), b::objects == 0, "%ld elements are left after the lists are destroyed", b::objects);
      CK(P(), b::blocks == 0, "%ld blocks are left after the lists are destroyed", b::blocks);
      if (b::blocks) memset(b::ptrs.t, 0, sizeof b::ptrs.t);
   }
   static void run()
   {
      int D = b::depth;
      S l; S<int, C> li;
      h::all([&] { l.history(1); });
      h::all([&] { li.history(1); });
      h::all([&] { l.history(2); }, D > 1 ? 4000000 : 150000);
      h::random(D > 1 ? 60000 : 8000, [&] { l.history(12); });
      h::random(D > 1 ? 6000 : 800, [&] { l.history(60); });
      h::random(D > 1 ? 6000 : 800, [&] { li.history(30); });
   }
};
int main(int argc, char **argv)
{
   b::start(argc, argv);
   b::life_props = "C07,C08,C09"; b::describe = h::desc;
   std::string p = b::prop;
   if (p == "C07" || p == "C23") S<E, ttl::forward_list>::run();
   if (p == "C08" || p == "C23") S<E, ttl::backward_list>::run();
   if (p == "C09" || p == "C23") S<E, ttl::lazy_queue>::run();
   return b::finish();
}
