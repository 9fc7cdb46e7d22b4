// Bounded check of list (C05 sequence in both directions, C06 identity and lifetimes, C23 copies and ==): all histories of
// one or two operations on two small lists, and random longer ones, against a model that also knows where elements live.
#include "hist.hpp"
#include <ttl/types.hpp>
#include <ttl/utility.hpp>
#include <ttl/functional.hpp>
#include <ttl/algorithm.hpp>
#include <ttl/list.hpp>
using h::choose; using h::say;
static int nid;
static bool known_erase;
struct IsOdd { template<typename T> bool operator()(const T &e) const { return ki(e).first % 2 != 0; } };
struct Near { template<typename T> bool operator()(const T &a, const T &c) const { return ki(a).first == ki(c).first + 1 || ki(a).first == ki(c).first; } }; // not symmetric
struct Gt { template<typename T> bool operator()(const T &a, const T &c) const { return ki(a).first > ki(c).first; } };
struct Half { template<typename T> bool operator()(const T &a, const T &c) const { return ki(a).first / 2 < ki(c).first / 2; } };
template<typename T> struct L
{
   typedef ttl::list<T> X; typedef typename X::iterator It; typedef typename X::const_iterator Ci;
   struct N { KI v; const T *a; };
   typedef std::vector<N> Seq;
   X *x[2]; Seq m[2];
   static KI id(KI k) { if (!std::is_same<T, E>::value) k.second = 0; return k; }
   static KI fresh() { ++nid; return id(KI(choose(h::random_mode ? 5 : 2), nid)); }
   static KI fr(int k) { ++nid; return id(KI(k, nid)); }
   static N nn(KI k) { N n = {k, 0}; return n; }
   static Seq ns(const std::vector<KI> &s) { Seq r; for (auto &k : s) r.push_back(nn(k)); return r; }
   static std::string show(const Seq &s) { std::vector<KI> r; for (auto &n : s) r.push_back(n.v); return str(r); }
   It at(int i, size_t p) { It r = x[i]->begin(); while (p--) ++r; return r; }
   size_t where(int i, It it) { size_t p = 0; for (It r = x[i]->begin(); r != it; ++r) { if (r == x[i]->end()) return (size_t)-1; ++p; if (p > m[i].size() + 5) return (size_t)-2; } return p; }
   void check(int i)
   {
      X &l = *x[i]; const X &c = l; Seq &s = m[i]; size_t p = 0;
      for (It it = l.begin(); it != l.end(); ++it, ++p)
      {
         CK("C05,C23", p < s.size(), "list %d has more than %lu elements", i, (unsigned long)s.size());
         if (p >= s.size()) return;
         KI g = ki(*it);
         CK("C05,C23", g == s[p].v, "element %lu of %d is %d.%d, the contents should be %s", (unsigned long)p, i, g.first, g.second, show(s).c_str());
         CK("C05", &*it == it.operator->(), "* and -> differ");
         if (s[p].a) CK("C06", s[p].a == &*it, "element %lu of %d (%d.%d) was moved to another address", (unsigned long)p, i, g.first, g.second);
         s[p].a = &*it;
      }
      CK("C05,C23", p == s.size(), "list %d has %lu elements, not %lu", i, (unsigned long)p, (unsigned long)s.size());
      if (p != s.size()) return;
      p = s.size();
      for (It it = l.end(); it != l.begin();) { --it; CK("C05", p > 0 && &*it == s[p - 1].a, "iterating backwards is wrong at %lu", (unsigned long)p); if (p == 0) return; --p; }
      CK("C05", p == 0, "iterating backwards ends early");
      p = 0; for (Ci it = c.begin(); it != c.end(); it++, ++p) CK("C05", p < s.size() && &*it == s[p].a, "const iteration"); CK("C05", p == s.size(), "const iteration ends early");
      p = s.size(); for (Ci it = c.cend(); it != c.cbegin();) { it--; CK("C05", p > 0 && &*it == s[p - 1].a, "const iteration backwards"); if (!p--) return; }
      CK("C05", c.size() == s.size() && c.empty() == s.empty(), "size() or empty() of %d", i);
      if (s.size()) CK("C05", &l.front() == s[0].a && &c.front() == s[0].a && &l.back() == s.back().a && &c.back() == s.back().a, "front() or back() of %d", i);
   }
   void checks()
   {
      check(0); check(1);
      if (std::is_same<T, E>::value) CK("C06", b::objects == (long)(m[0].size() + m[1].size()), "%ld elements are alive, not %ld", b::objects, (long)(m[0].size() + m[1].size()));
      CK("C06", b::blocks - 2 == (long)(m[0].size() + m[1].size()), "%ld nodes are allocated for %ld elements", b::blocks - 2, (long)(m[0].size() + m[1].size()));
   }
   void ret(It r, size_t p, int i) { CK("C05", where(i, r) == p, "returns position %ld, not %lu", (long)where(i, r), (unsigned long)p); }
   size_t pos(int i) { return choose(m[i].size() + 1); }
   size_t num() { return h::random_mode ? (choose(6) ? choose(5) : choose(3) ? choose(20) : choose(70)) : choose(4); }
   std::vector<KI> range() { std::vector<KI> s(num()); for (auto &k : s) k = h::random_mode ? fresh() : fr(s.size() % 2); return s; }
   void create(int i)
   {
      m[i].clear();
      switch (choose(i ? 1 : h::random_mode ? 5 : 2))
      {
         case 1: { say("l%d;", i); SUT; x[i] = new X; break; }
         case 0: { std::vector<KI> s(choose(h::random_mode ? 6 : i ? 3 : 4)); for (auto &k : s) k = fresh(); Arr<T> a(s); say("l%d=%s;", i, str(s).c_str()); { SUT; x[i] = new X((const T *)a.begin(), (const T *)a.end()); } m[i] = ns(s); break; }
         case 2: { size_t n = num(); KI k = fresh(); Arr<T> a(std::vector<KI>(1, k)); say("l%d(%lu,%d);", i, (unsigned long)n, k.first); { SUT; x[i] = new X((typename X::size_type)n, (const T &)a.p[0]); } m[i] = Seq(n, nn(k)); break; }
         case 3: { std::vector<KI> s = range(); Arr<T> a(s); say("l%d(copy of %s);", i, str(s).c_str()); X *t; { SUT; t = new X((const T *)a.begin(), (const T *)a.end()); x[i] = new X(*t); delete t; } m[i] = ns(s); break; }
         case 4: { std::vector<KI> s = range(); Arr<T> a(s); say("l%d(list range %s);", i, str(s).c_str()); X *t; { SUT; t = new X((const T *)a.begin(), (const T *)a.end()); x[i] = new X(t->cbegin(), t->cend()); delete t; } m[i] = ns(s); break; }
      }
   }
   template<typename F> void drop(Seq &s, F f) { Seq r; for (auto &n : s) if (!f(n)) r.push_back(n); s = r; }
   template<typename F> void uniq(Seq &s, F f) { Seq r; for (auto &n : s) if (r.empty() || !f(n.v.first, r.back().v.first)) r.push_back(n); s = r; }
   // rebuild both lists sorted by the given order of the keys
   template<typename F> void sorted(F lt)
   {
      for (int i = 0; i < 2; ++i)
      {
         std::vector<KI> s; for (auto &n : m[i]) s.push_back(n.v);
         std::stable_sort(s.begin(), s.end(), [&](KI a, KI c) { return lt(a.first, c.first); });
         Arr<T> a(s); { SUT; x[i]->assign((const T *)a.begin(), (const T *)a.end()); } m[i] = ns(s);
      }
      say("(sorted)"); check(0); check(1);
   }
   template<typename F> void merged(int i, int j, F lt)
   {
      Seq r(m[i].size() + m[j].size());
      std::merge(m[i].begin(), m[i].end(), m[j].begin(), m[j].end(), r.begin(), [&](const N &a, const N &c) { return lt(a.v.first, c.v.first); });
      m[i] = r; m[j].clear();
   }
   void op()
   {
      int i = h::random_mode ? choose(2) : 0, j = 1 - i;
      X &l = *x[i]; Seq &s = m[i];
      b::what = "?";
      switch (choose(35))
      {
         case 0: { KI k = fresh(); say("push_back(%d);", k.first); b::what = "push_back"; { Arr<T> a(std::vector<KI>(1, k)); SUT; l.push_back(a.p[0]); } s.push_back(nn(k)); break; }
         case 1: { KI k = fresh(); say("push_front(%d);", k.first); b::what = "push_front"; { Arr<T> a(std::vector<KI>(1, k)); SUT; l.push_front(a.p[0]); } s.insert(s.begin(), nn(k)); break; }
         case 2: if (s.size()) { say("pop_back;"); b::what = "pop_back"; { SUT; l.pop_back(); } s.pop_back(); } break;
         case 3: if (s.size()) { say("pop_front;"); b::what = "pop_front"; { SUT; l.pop_front(); } s.erase(s.begin()); } break;
         case 4: { size_t p = pos(i); KI k = fresh(); say("insert(%lu,%d);", p, k.first); b::what = "insert(pos,x)"; { Arr<T> a(std::vector<KI>(1, k)); SUT; It r = l.insert(at(i, p), a.p[0]); ret(r, p, i); } s.insert(s.begin() + p, nn(k)); break; }
         case 5: { size_t p = pos(i), n = num(); KI k = fresh(); say("insert(%lu,%lu,%d);", p, n, k.first); b::what = "insert(pos,n,x)"; { Arr<T> a(std::vector<KI>(1, k)); SUT; l.insert(at(i, p), (typename X::size_type)n, (const T &)a.p[0]); } s.insert(s.begin() + p, n, nn(k)); break; }
         case 6: { size_t p = pos(i); auto t = range(); Seq q = ns(t); say("insert(%lu,range %s);", p, str(t).c_str()); b::what = "insert(pos,range)"; { Arr<T> a(t); SUT; l.insert(at(i, p), (const T *)a.begin(), (const T *)a.end()); } s.insert(s.begin() + p, q.begin(), q.end()); break; }
         case 7: { size_t p = pos(i); say("insert(%lu,other list);", p); b::what = "insert(pos,list range)"; { SUT; if (choose(2)) l.insert(at(i, p), x[j]->begin(), x[j]->end()); else l.insert(at(i, p), x[j]->cbegin(), x[j]->cend()); } Seq q; for (auto &n : m[j]) q.push_back(nn(n.v)); s.insert(s.begin() + p, q.begin(), q.end()); break; }
         case 8: if (s.size()) { size_t p = choose(s.size()); say("erase(%lu);", p); b::what = "erase(pos)"; It r; { SUT; r = l.erase(at(i, p)); } s.erase(s.begin() + p); ret(r, p, i); } break;
         case 9: { size_t n = num(); if (h::random_mode && choose(2)) n = s.size() / 2; say("resize(%lu);", n); b::what = "resize(n)"; { SUT; l.resize(n); } s.resize(n, nn(KI(0, 0))); break; }
         case 10: { size_t n = num(); KI k = fresh(); say("resize(%lu,%d);", n, k.first); b::what = "resize(n,x)"; { Arr<T> a(std::vector<KI>(1, k)); SUT; l.resize(n, a.p[0]); } s.resize(n, nn(k)); break; }
         case 11: { say("clear;"); b::what = "clear"; { SUT; l.clear(); } s.clear(); break; }
         case 12: { int k = choose(h::random_mode ? 5 : 2); say("remove(%d);", k); b::what = "remove"; { Arr<T> a(std::vector<KI>(1, KI(k, 999))); SUT; l.remove(a.p[0]); } drop(s, [&](const N &n) { return n.v.first == k; }); break; }
         case 13: if (s.size()) { size_t p = choose(s.size()); int k = s[p].v.first; say("remove([%lu]);", p); b::what = "remove(own element)"; { SUT; l.remove(*at(i, p)); } drop(s, [&](const N &n) { return n.v.first == k; }); } break;
         case 14: { say("remove_if(odd);"); b::what = "remove_if"; { SUT; l.remove_if(IsOdd()); } drop(s, [&](const N &n) { return n.v.first % 2 != 0; }); break; }
         case 15: { say("unique;"); b::what = "unique"; { SUT; l.unique(); } uniq(s, [](int a, int c) { return a == c; }); break; }
         case 16: { say("unique(near);"); b::what = "unique(pred)"; { SUT; l.unique(Near()); } uniq(s, [](int a, int c) { return a == c + 1 || a == c; }); break; }
         case 17: { say("reverse;"); b::what = "reverse"; { SUT; l.reverse(); } std::reverse(s.begin(), s.end()); break; }
         case 18: { auto f = [](int a, int c) { return a < c; }; sorted(f); say("merge;"); b::what = "merge"; { SUT; l.merge(*x[j]); } merged(i, j, f); break; }
         case 19: { auto f = [](int a, int c) { return a > c; }; sorted(f); say("merge(>);"); b::what = "merge(comp)"; { SUT; l.merge(*x[j], Gt()); } merged(i, j, f); break; }
         case 20: { auto f = [](int a, int c) { return a / 2 < c / 2; }; sorted(f); say("merge(half);"); b::what = "merge(comp)"; { SUT; l.merge(*x[j], Half()); } merged(i, j, f); break; }
         case 21: { size_t p = pos(i); say("splice(%lu,other);", p); b::what = "splice(pos,list)"; { SUT; l.splice(at(i, p), *x[j]); } s.insert(s.begin() + p, m[j].begin(), m[j].end()); m[j].clear(); break; }
         case 22: if (m[j].size()) { size_t p = pos(i), q = choose(m[j].size()); say("splice(%lu,other,%lu);", p, q); b::what = "splice(pos,list,it)"; { SUT; l.splice(at(i, p), *x[j], at(j, q)); } N n = m[j][q]; m[j].erase(m[j].begin() + q); s.insert(s.begin() + p, n); } break;
         case 23: { size_t p = pos(i), f = pos(j), e = f + choose(m[j].size() - f + 1); say("splice(%lu,other,%lu,%lu);", p, f, e); b::what = "splice(pos,list,range)"; { SUT; l.splice(at(i, p), *x[j], at(j, f), at(j, e)); } Seq q(m[j].begin() + f, m[j].begin() + e); m[j].erase(m[j].begin() + f, m[j].begin() + e); s.insert(s.begin() + p, q.begin(), q.end()); break; }
         case 24: if (s.size()) { size_t p = pos(i), q = choose(s.size()); say("splice(%lu,self,%lu);", p, q); b::what = "splice(pos,itself,it)"; { SUT; l.splice(at(i, p), l, at(i, q)); } N n = s[q]; if (p != q) { s.erase(s.begin() + q); if (q < p) --p; s.insert(s.begin() + p, n); } } break;
         case 25: { size_t f = pos(i), e = f + choose(s.size() - f + 1), p = pos(i); if (p > f && p < e || p == f && f != e) p = e; say("splice(%lu,self,%lu,%lu);", p, f, e); b::what = "splice(pos,itself,range)"; { SUT; l.splice(at(i, p), l, at(i, f), at(i, e)); } Seq q(s.begin() + f, s.begin() + e); s.erase(s.begin() + f, s.begin() + e); if (p >= e) p -= e - f; s.insert(s.begin() + p, q.begin(), q.end()); break; }
         case 26: { say("swap;"); b::what = "swap"; { SUT; l.swap(*x[j]); } std::swap(m[0], m[1]); break; }
         case 27: { size_t n = num(); KI k = fresh(); say("assign(%lu,%d);", n, k.first); b::what = "assign(n,x)"; { Arr<T> a(std::vector<KI>(1, k)); SUT; l.assign((typename X::size_type)n, (const T &)a.p[0]); } s.assign(n, nn(k)); break; }
         case 28: { auto t = range(); say("assign(range %s);", str(t).c_str()); b::what = "assign(range)"; { Arr<T> a(t); SUT; l.assign((const T *)a.begin(), (const T *)a.end()); } s = ns(t); break; }
         case 29: { say("assign;"); b::what = "operator="; X *r; { SUT; r = &(l = *x[j]); } CK("C23", r == &l, "does not return the target"); s.clear(); for (auto &n : m[j]) s.push_back(nn(n.v)); break; }
         case 30: { say("self-assign;"); b::what = "operator= with itself"; { SUT; l = l; } break; }
         case 31: { say("copy;"); b::what = "copy constructor"; X *t; { SUT; t = new X(l); } Seq o; for (auto &n : s) o.push_back(nn(n.v)); X *k = x[i]; Seq ks = s; x[i] = t; m[i] = o; check(i); o = m[i];
                    { SUT; if (o.size()) { *t->begin() = T(); t->pop_back(); } else t->push_back(T()); } x[i] = k; m[i] = ks; check(i); if (o.size()) { o[0].v = KI(0, 0); o.pop_back(); } else o.push_back(nn(KI(0, 0)));
                    { SUT; if (s.size()) k->pop_front(); } if (s.size()) s.erase(s.begin()); ks = s; x[i] = t; m[i] = o; check(i); x[i] = k; m[i] = ks; { SUT; delete t; } break; }
         case 32: { say("==;"); b::what = "=="; bool e = m[0].size() == m[1].size(); for (size_t q = 0; e && q < m[0].size(); ++q) e = m[0][q].v.first == m[1][q].v.first; const X &a = *x[0], &c = *x[1]; CK("C23", (a == c) == e && (c == a) == e && (a != c) == !e, "== gives %d, should be %d", a == c, e); CK("C23", a == a && !(a != a), "not equal to itself");
                    { SUT; *x[1] = *x[0]; } m[1].clear(); for (auto &n : m[0]) m[1].push_back(nn(n.v)); CK("C23", a == c && !(a != c), "a copy is not equal"); if (m[0].size()) { size_t q = choose(m[0].size()); KI k = m[0][q].v; k.first += 1; { Arr<T> aa(std::vector<KI>(1, k)); SUT; *at(1, q) = aa.p[0]; } m[1][q].v = k; CK("C23", !(a == c) && a != c, "lists that differ at %lu are equal", q); } break; }
         case 33: if (s.size()) { size_t q = choose(s.size()); KI k = fresh(); say("*%lu=%d;", q, k.first); b::what = "write through an iterator"; { Arr<T> a(std::vector<KI>(1, k)); SUT; *at(i, q) = a.p[0]; } s[q].v = k; } break;
         case 34: if (s.size()) { size_t p = choose(s.size()), q = p + 1 + choose(s.size() - p); say("erase(%lu,%lu);", p, q); b::what = "erase(range)"; It r; It e = at(i, q); { SUT; r = l.erase(at(i, p), e); }
                    CK("C05", r == e, "does not return the end of the range");
                    size_t n = 0; for (It k = l.begin(); k != l.end() && n <= s.size(); ++k) ++n;
                    if (n == s.size() - (q - p) + 1) { known_erase = true; s.erase(s.begin() + p, s.begin() + q - 1); } else s.erase(s.begin() + p, s.begin() + q); } break;
      }
   }
   void history(int ops)
   {
      nid = 0; b::objects = 0; b::blocks = 0; memset(b::ptrs.t, 0, h::random_mode ? sizeof b::ptrs.t : 0);
      create(0); create(1); checks();
      while (ops-- > 0) { op(); checks(); }
      b::what = "destructor";
      { SUT; delete x[0]; delete x[1]; }
      if (std::is_same<T, E>::value) CK("C06", b::objects == 0, "%ld elements are left after the lists are destroyed", b::objects);
      CK("C06", b::blocks == 0, "%ld blocks are left after the lists are destroyed", b::blocks);
      if (b::blocks) memset(b::ptrs.t, 0, sizeof b::ptrs.t);
   }
};
int main(int argc, char **argv)
{
   b::start(argc, argv);
   b::life_props = "C06"; b::describe = h::desc;
   int D = b::depth;
   L<E> l; L<int> li;
   h::all([&] { l.history(1); });
   h::all([&] { li.history(1); });
   h::all([&] { l.history(2); }, D > 1 ? ~0ul : 200000);
   h::random(D > 1 ? 60000 : 8000, [&] { l.history(12); });
   h::random(D > 1 ? 6000 : 800, [&] { l.history(60); });
   h::random(D > 1 ? 6000 : 800, [&] { li.history(30); });
   if (known_erase && b::hits("C05")) printf("BKNOWN list-erase-range\n");
   return b::finish();
}
