// Bounded check of the algorithms (C18, C19, C20, C21, C22) against their definitions: every range of up to 5..8
// elements over a small alphabet, on arrays, int arrays, and lists; random long ranges in addition.
#include "b.hpp"
#include <ttl/types.hpp>
#include <ttl/utility.hpp>
#include <ttl/functional.hpp>
#include <ttl/algorithm.hpp>
#include <ttl/numeric.hpp>
#include <ttl/array.hpp>
#include <ttl/list.hpp>
typedef std::vector<KI> Seq;
static Seq A_, B_; static int x_, y_, n_;
static std::string desc()
{
   return "A=" + str(A_) + " B=" + str(B_) + " x=" + std::to_string(x_) + " y=" + std::to_string(y_) + " n=" + std::to_string(n_);
}
#define OP(name) b::what = name
#define CK(p, c, ...) do { if (!(c)) b::fail(p, __VA_ARGS__); } while (0)

// the same elements as a list: bidirectional iterators only
template<typename T> struct Lst
{
   ttl::list<T> l; size_t n;
   Lst(const Seq &v): n(v.size()) { for (auto &x : v) add(x, (T *)0); }
   void add(KI v, E *) { l.push_back(E(v.first, v.second)); }
   void add(KI v, int *) { l.push_back(v.first); }
   typename ttl::list<T>::iterator begin() { return l.begin(); }
   typename ttl::list<T>::iterator end() { return l.end(); }
   Seq get() { Seq r; for (auto i = l.begin(); i != l.end(); ++i) r.push_back(ki(*i)); return r; }
};
#ifdef B_REDUCED // algorithms which only compile for random access iterators
#define Lst Arr
#endif
template<typename R> auto at(R &r, int i) { auto it = r.begin(); while (i-- > 0) ++it; return it; }
template<typename R, typename I> int pos(R &r, I it)
{
   int n = 0;
   for (auto i = r.begin();; ++i, ++n) { if (i == it) return n; if (i == r.end()) return -1; }
}
template<typename I> int gap(I a, I b_, int lim) { int n = 0; while (!(a == b_)) { if (n++ > lim) return -1; ++a; } return n; }
// predicates: by value; they count their calls
struct Even { bool operator()(const E &e) const { e.check("read"); return e.k % 2 == 0; } bool operator()(int k) const { return k % 2 == 0; } };
struct Odd1 { bool operator()(const E &e) const { e.check("read"); return e.k == 1; } bool operator()(int k) const { return k == 1; } };
// not an equivalence and not symmetric, to see the order of the arguments
struct Rel { bool operator()(const E &a, const E &c) const { a.check("read"); c.check("read"); return c.k == a.k + 1 || a.k == 2; } bool operator()(int a, int c) const { return c == a + 1 || a == 2; } };
static bool rel(int a, int c) { return c == a + 1 || a == 2; }
struct Gt { bool operator()(const E &a, const E &c) const { a.check("read"); c.check("read"); ++b::cmps; return a.k > c.k; } bool operator()(int a, int c) const { ++b::cmps; return a > c; } };
// a coarser order: equivalent but unequal values
struct Half { bool operator()(const E &a, const E &c) const { a.check("read"); c.check("read"); ++b::cmps; return a.k / 2 < c.k / 2; } bool operator()(int a, int c) const { ++b::cmps; return a / 2 < c / 2; } };
template<typename T> T mk(int k);
template<> E mk<E>(int k) { return E(k); }
template<> int mk<int>(int k) { return k; }
template<typename T> Seq nid(Seq s) { if (!std::is_same<T, E>::value) for (auto &x : s) x.second = 0; return s; }
static std::vector<long> visited;
struct Visit { int n; Visit(): n(0) {} void operator()(const E &e) { visited.push_back(e.k * 1000 + e.id); ++n; } void operator()(int e) { visited.push_back(e * 1000); ++n; } };
#define SAME(R_, s_, P) do { CK(P, R_.get() == nid<T>(s_), "a range that is only read was changed"); } while (0)

// ---- C18
template<typename T, template<typename> class C> void nonmod1(const Seq &s)
{
   A_ = s; B_.clear(); n_ = 0;
   C<T> r(s);
   int N = s.size();
   for (x_ = -1; x_ < 3; ++x_)
   {
      b::begin_case(N > 0);
      T v = mk<T>(x_);
      int p = 0, c = 0;
      while (p < N && s[p].first != x_) ++p;
      for (auto &e : s) c += e.first == x_;
      OP("find"); CK("C18", pos(r, ttl::find(r.begin(), r.end(), v)) == p, "returns position %d, not %d", pos(r, ttl::find(r.begin(), r.end(), v)), p);
      OP("count"); CK("C18", ttl::count(r.begin(), r.end(), v) == c, "returns %d, not %d", (int)ttl::count(r.begin(), r.end(), v), c);
      for (n_ = -1; n_ <= N + 1; ++n_)
      {
         auto ref = [&](auto eq) { if (n_ <= 0) return 0; for (int i = 0; i + n_ <= N; ++i) { int j = 0; while (j < n_ && eq(s[i + j].first, x_)) ++j; if (j == n_) return i; } return N; };
         int e = ref([](int a, int c_) { return a == c_; });
         OP("search_n"); int g = pos(r, ttl::search_n(r.begin(), r.end(), n_, v));
         CK("C18", g == e, "returns position %d, not %d", g, e);
         e = ref(rel);
         OP("search_n with predicate"); g = pos(r, ttl::search_n(r.begin(), r.end(), n_, v, Rel()));
         CK("C18", g == e, "returns position %d, not %d", g, e);
         if (n_ >= 0) { OP("search_n with unsigned count"); g = pos(r, ttl::search_n(r.begin(), r.end(), (unsigned long)n_, v, Rel())); CK("C18", g == e, "returns position %d, not %d", g, e); }
      }
      n_ = 0;
   }
   x_ = 0;
   b::begin_case(N > 0);
   int ev = 0, nev = 0, ce = 0, co = 0;
   while (ev < N && s[ev].first % 2 != 0) ++ev;
   while (nev < N && s[nev].first % 2 == 0) ++nev;
   for (auto &e : s) ce += e.first % 2 == 0, co += e.first == 1;
   OP("find_if"); CK("C18", pos(r, ttl::find_if(r.begin(), r.end(), Even())) == ev, "not the position of the first match (%d)", ev);
   OP("find_if_not"); CK("C18", pos(r, ttl::find_if_not(r.begin(), r.end(), Even())) == nev, "not the position of the first mismatch (%d)", nev);
   OP("count_if"); CK("C18", ttl::count_if(r.begin(), r.end(), Even()) == ce, "not %d", ce);
   OP("all_of"); CK("C18", ttl::all_of(r.begin(), r.end(), Odd1()) == (co == N), "wrong");
   OP("any_of"); CK("C18", ttl::any_of(r.begin(), r.end(), Odd1()) == (co > 0), "wrong");
   OP("none_of"); CK("C18", ttl::none_of(r.begin(), r.end(), Odd1()) == (co == 0), "wrong");
   int a = 0; while (a + 1 < N && s[a].first != s[a + 1].first) ++a; if (a + 1 >= N) a = N;
   OP("adjacent_find"); CK("C18", pos(r, ttl::adjacent_find(r.begin(), r.end())) == a, "returns %d, not %d", pos(r, ttl::adjacent_find(r.begin(), r.end())), a);
   a = 0; while (a + 1 < N && !rel(s[a].first, s[a + 1].first)) ++a; if (a + 1 >= N) a = N;
   OP("adjacent_find with predicate"); CK("C18", pos(r, ttl::adjacent_find(r.begin(), r.end(), Rel())) == a, "returns %d, not %d", pos(r, ttl::adjacent_find(r.begin(), r.end(), Rel())), a);
   visited.clear(); OP("for_each"); { Visit f = ttl::for_each(r.begin(), r.end(), Visit()); CK("C18", f.n == N, "the returned function saw %d elements", f.n); }
   std::vector<long> ex; for (auto &e : nid<T>(s)) ex.push_back(e.first * 1000 + e.second);
   CK("C18", visited == ex, "not every element once in order");
   SAME(r, s, "C18");
}
template<typename T, template<typename> class C> void nonmod2(const Seq &s, const Seq &t)
{
   A_ = s; B_ = t; x_ = n_ = 0;
   b::begin_case(s.size() > 0 && t.size() > 0);
   Seq s2 = s, t2 = t; for (auto &x : t2) x.second += 50;
   C<T> r(s2), q(t2);
   int N = s.size(), M = t.size();
   auto sref = [&](auto eq) { for (int i = 0; i + M <= N; ++i) { int j = 0; while (j < M && eq(s[i + j].first, t[j].first)) ++j; if (j == M) return i; } return N; };
   auto eqi = [](int a, int c) { return a == c; };
   int e = sref(eqi), g;
   OP("search"); g = pos(r, ttl::search(r.begin(), r.end(), q.begin(), q.end())); CK("C18", g == e, "returns %d, not %d", g, e);
   e = sref(rel);
   OP("search with predicate"); g = pos(r, ttl::search(r.begin(), r.end(), q.begin(), q.end(), Rel())); CK("C18", g == e, "returns %d, not %d", g, e);
   auto mref = [&](auto eq) { int i = 0; while (i < N && i < M && eq(s[i].first, t[i].first)) ++i; return i; };
   e = mref(eqi);
   bool all = e == N && e == M;
   OP("equal (4)"); CK("C18", ttl::equal(r.begin(), r.end(), q.begin(), q.end()) == all, "wrong, should be %d", all);
   OP("mismatch (4)"); { auto p = ttl::mismatch(r.begin(), r.end(), q.begin(), q.end()); CK("C18", pos(r, p.first) == e && pos(q, p.second) == e, "not at %d", e); }
   if (M >= N)
   {
      OP("equal (3)"); CK("C18", ttl::equal(r.begin(), r.end(), q.begin()) == (e == N), "wrong, should be %d", e == N);
      OP("mismatch (3)"); { auto p = ttl::mismatch(r.begin(), r.end(), q.begin()); CK("C18", pos(r, p.first) == e && pos(q, p.second) == e, "not at %d", e); }
   }
   e = mref(rel); all = e == N && e == M;
   OP("equal (4, predicate)"); CK("C18", ttl::equal(r.begin(), r.end(), q.begin(), q.end(), Rel()) == all, "wrong, should be %d", all);
   OP("mismatch (4, predicate)"); { auto p = ttl::mismatch(r.begin(), r.end(), q.begin(), q.end(), Rel()); CK("C18", pos(r, p.first) == e && pos(q, p.second) == e, "not at %d", e); }
   if (M >= N)
   {
      OP("equal (3, predicate)"); CK("C18", ttl::equal(r.begin(), r.end(), q.begin(), Rel()) == (e == N), "wrong, should be %d", e == N);
      OP("mismatch (3, predicate)"); { auto p = ttl::mismatch(r.begin(), r.end(), q.begin(), Rel()); CK("C18", pos(r, p.first) == e && pos(q, p.second) == e, "not at %d", e); }
   }
   SAME(r, s2, "C18"); SAME(q, t2, "C18");
}
// ---- C19
static int gen_; struct Gen { E operator()() { int g = gen_++; return E(g, g); } operator bool() const { return true; } };
struct GenI { int operator()() { return gen_++; } };
template<typename T> struct GenT; template<> struct GenT<E> { typedef Gen t; }; template<> struct GenT<int> { typedef GenI t; };
struct Op1 { E operator()(const E &e) const { e.check("read"); return E(e.k * 5 + 1, e.id + 7); } int operator()(int k) const { return k * 5 + 1; } };
struct Op2 { E operator()(const E &a, const E &c) const { a.check("read"); c.check("read"); return E(a.k * 5 + c.k * 11, a.id * 100 + c.id); } int operator()(int a, int c) const { return a * 5 + c * 11; } };
// a destination of n elements with guards around it
template<typename T, template<typename> class C> struct Dst
{
   C<T> c; int n;
   static Seq init(int n) { Seq s; for (int i = 0; i < n + 2; ++i) s.push_back(KI(90 + i, 900 + i)); return s; }
   Dst(int n_): c(init(n_)), n(n_) {}
   auto begin() { return at(c, 1); }
   auto nth(int i) { return at(c, 1 + i); }
   // the first |want| elements are want, everything else unchanged, and the returned position is the end
   template<typename I> void expect(const Seq &want_, I ret)
   {
      Seq want = nid<T>(want_), ex = nid<T>(init(n));
      for (size_t i = 0; i < want.size(); ++i) ex[1 + i] = want[i];
      Seq got = c.get();
      CK("C19", got == ex, "destination is %s, not %s", str(got).c_str(), str(ex).c_str());
      CK("C19", pos(c, ret) == 1 + (int)want.size(), "returns position %d, not %d", pos(c, ret) - 1, (int)want.size());
   }
   auto end_of(int k) { return at(c, 1 + k); }
};
template<typename T, template<typename> class C, template<typename> class D> void mod(const Seq &s)
{
   A_ = s; B_.clear(); x_ = y_ = n_ = 0;
   int N = s.size();
   b::begin_case(N > 0);
   Seq w;
   { C<T> r(s); Dst<T, D> d(N); OP("copy"); d.expect(s, ttl::copy(r.begin(), r.end(), d.begin())); SAME(r, s, "C19"); }
   { C<T> r(s); Dst<T, D> d(N); OP("copy_backward"); auto e = d.nth(N); auto ret = ttl::copy_backward(r.begin(), r.end(), e); CK("C19", pos(d.c, ret) == 1, "returns position %d", pos(d.c, ret) - 1); d.expect(s, d.nth(N)); SAME(r, s, "C19"); }
   w.clear(); for (auto &e : s) if (e.first % 2 == 0) w.push_back(e);
   { C<T> r(s); Dst<T, D> d(N); OP("copy_if"); d.expect(w, ttl::copy_if(r.begin(), r.end(), d.begin(), Even())); SAME(r, s, "C19"); }
   w.clear(); for (auto &e : s) if (e.first % 2 != 0) w.push_back(e);
   { C<T> r(s); Dst<T, D> d(N); OP("remove_copy_if"); d.expect(w, ttl::remove_copy_if(r.begin(), r.end(), d.begin(), Even())); SAME(r, s, "C19"); }
   { C<T> r(s); OP("remove_if"); int p = pos(r, ttl::remove_if(r.begin(), r.end(), Even())); CK("C19", p == (int)w.size(), "returns position %d, not %d", p, (int)w.size()); Seq g = r.get(); g.resize(w.size()); CK("C19", g == nid<T>(w), "leaves %s, not %s", str(g).c_str(), str(w).c_str()); }
   for (n_ = -1; n_ <= N; ++n_)
   {
      Seq m(s.begin(), s.begin() + std::max(n_, 0));
      { C<T> r(s); Dst<T, D> d(N); OP("copy_n"); d.expect(m, ttl::copy_n(r.begin(), n_, d.begin())); SAME(r, s, "C19"); }
      { Seq f(m.size(), KI(7, 77)); T v = mk<T>(7); Arr<T> va(Seq(1, KI(7, 77))); Dst<T, D> d(N); OP("fill_n"); d.expect(f, ttl::fill_n(d.begin(), n_, *va.begin())); }
      { Seq f; for (int i = 0; i < (int)m.size(); ++i) f.push_back(KI(20 + i, 20 + i)); gen_ = 20; Dst<T, D> d(N); OP("generate_n"); d.expect(f, ttl::generate_n(d.begin(), n_, typename GenT<T>::t())); CK("C19", gen_ == 20 + (int)m.size(), "the generator is called %d times", gen_ - 20); }
   }
   n_ = 0;
   { Arr<T> va(Seq(1, KI(7, 77))); Dst<T, D> d(N); OP("fill"); ttl::fill(d.begin(), d.nth(N), *va.begin()); d.expect(Seq(N, KI(7, 77)), d.nth(N)); }
   { Seq f; for (int i = 0; i < N; ++i) f.push_back(KI(20 + i, 20 + i)); gen_ = 20; Dst<T, D> d(N); OP("generate"); ttl::generate(d.begin(), d.nth(N), typename GenT<T>::t()); d.expect(f, d.nth(N)); CK("C19", gen_ == 20 + N, "the generator is called %d times", gen_ - 20); }
   w.clear(); for (auto &e : s) w.push_back(KI(e.first * 5 + 1, e.second + 7));
   { C<T> r(s); Dst<T, D> d(N); OP("transform"); d.expect(w, ttl::transform(r.begin(), r.end(), d.begin(), Op1())); SAME(r, s, "C19"); }
   { C<T> r(s); OP("transform in place"); auto e = ttl::transform(r.begin(), r.end(), r.begin(), Op1()); CK("C19", pos(r, e) == N && r.get() == nid<T>(w), "wrong"); }
   Seq s2; for (int i = 0; i < N; ++i) s2.push_back(KI(i * 3 + 1, 60 + i));
   w.clear(); for (int i = 0; i < N; ++i) w.push_back(KI(s[i].first * 5 + s2[i].first * 11, s[i].second * 100 + s2[i].second));
   { C<T> r(s), q(s2); Dst<T, D> d(N); OP("transform (2 ranges)"); d.expect(w, ttl::transform(r.begin(), r.end(), q.begin(), d.begin(), Op2())); SAME(r, s, "C19"); SAME(q, s2, "C19"); }
   if constexpr (std::is_same<C<T>, D<T>>::value) { C<T> r(s); Dst<T, D> d(N); OP("swap_ranges"); Seq o = d.c.get(); auto e = ttl::swap_ranges(r.begin(), r.end(), d.begin()); d.expect(s, e); Seq x(o.begin() + 1, o.end() - 1); CK("C19", r.get() == x, "the first range does not get the second"); }
   w.assign(s.rbegin(), s.rend());
   { C<T> r(s); Dst<T, D> d(N); OP("reverse_copy"); d.expect(w, ttl::reverse_copy(r.begin(), r.end(), d.begin())); SAME(r, s, "C19"); }
   { Dst<T, D> d(N); C<T> r(s); ttl::copy(r.begin(), r.end(), d.begin()); OP("reverse"); ttl::reverse(d.begin(), d.nth(N)); d.expect(w, d.nth(N)); }
   for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j)
      if (s.size() <= 4) { C<T> r(s); w = s; std::swap(w[i], w[j]); OP("iter_swap"); ttl::iter_swap(at(r, i), at(r, j)); CK("C19", r.get() == nid<T>(w), "%d and %d not swapped", i, j); }
   for (x_ = 0; x_ < 3; ++x_)
   {
      T v = mk<T>(x_);
      w.clear(); for (auto &e : s) if (e.first != x_) w.push_back(e);
      { C<T> r(s); Dst<T, D> d(N); OP("remove_copy"); d.expect(w, ttl::remove_copy(r.begin(), r.end(), d.begin(), v)); SAME(r, s, "C19"); }
      { C<T> r(s); OP("remove"); int p = pos(r, ttl::remove(r.begin(), r.end(), v)); CK("C19", p == (int)w.size(), "returns position %d, not %d", p, (int)w.size()); Seq g = r.get(); g.resize(w.size()); CK("C19", g == nid<T>(w), "leaves %s, not %s", str(g).c_str(), str(w).c_str()); }
      for (y_ = 0; y_ < 4; ++y_)
      {
         Arr<T> nv(Seq(1, KI(y_, 55)));
         w = s; for (auto &e : w) if (e.first == x_) e = KI(y_, 55);
         { C<T> r(s); OP("replace"); ttl::replace(r.begin(), r.end(), v, *nv.begin()); CK("C19", r.get() == nid<T>(w), "gives %s, not %s", str(r.get()).c_str(), str(w).c_str()); }
         { C<T> r(s); Dst<T, D> d(N); OP("replace_copy"); d.expect(w, ttl::replace_copy(r.begin(), r.end(), d.begin(), v, *nv.begin())); SAME(r, s, "C19"); }
         if (x_ == 0)
         {
            w = s; for (auto &e : w) if (e.first % 2 == 0) e = KI(y_, 55);
            { C<T> r(s); OP("replace_if"); ttl::replace_if(r.begin(), r.end(), Even(), *nv.begin()); CK("C19", r.get() == nid<T>(w), "gives %s, not %s", str(r.get()).c_str(), str(w).c_str()); }
            { C<T> r(s); Dst<T, D> d(N); OP("replace_copy_if"); d.expect(w, ttl::replace_copy_if(r.begin(), r.end(), d.begin(), Even(), *nv.begin())); SAME(r, s, "C19"); }
         }
      }
      y_ = 0;
   }
   x_ = 0;
   // overlapping copies: inside one range, to the left and to the right
   for (int f = 0; f <= N; ++f) for (int l = f; l <= N; ++l) for (int d = 0; d + (l - f) <= N; ++d)
   {
      if (N > 4 && (f + l + d) % 3) continue;
      n_ = f * 100 + l * 10 + d;
      w = s; std::copy(s.begin() + f, s.begin() + l, w.begin() + d);
      if (d <= f) { C<T> r(s); OP("copy to the left"); auto e = ttl::copy(at(r, f), at(r, l), at(r, d)); CK("C19", r.get() == nid<T>(w), "gives %s, not %s", str(r.get()).c_str(), str(w).c_str()); CK("C19", pos(r, e) == d + l - f, "returns the wrong position"); }
      if (d >= f) { C<T> r(s); OP("copy_backward to the right"); auto e = ttl::copy_backward(at(r, f), at(r, l), at(r, d + l - f)); CK("C19", r.get() == nid<T>(w), "gives %s, not %s", str(r.get()).c_str(), str(w).c_str()); CK("C19", pos(r, e) == d, "returns the wrong position"); }
      if (d <= f && f < l) { C<T> r(s); OP("copy_n to the left"); auto e = ttl::copy_n(at(r, f), l - f, at(r, d)); CK("C19", r.get() == nid<T>(w), "wrong"); CK("C19", pos(r, e) == d + l - f, "returns the wrong position"); }
   }
   n_ = 0;
}
// ---- C20
template<typename T, typename Cmp, bool plain> void bsearch(const Seq &s, int lo, int hi, Cmp cmp, const char *nm)
{
   A_ = s; B_.clear(); n_ = 0;
   Arr<T> r(s); int N = s.size();
   static char names[4][80];
   snprintf(names[0], 80, "lower_bound%s", nm); snprintf(names[1], 80, "upper_bound%s", nm); snprintf(names[2], 80, "equal_range%s", nm); snprintf(names[3], 80, "binary_search%s", nm);
   for (x_ = lo; x_ <= hi; ++x_)
   {
      b::begin_case(N > 0);
      T v = mk<T>(x_);
      int l = 0, u = 0;
      while (l < N && cmp(s[l].first, x_)) ++l;
      u = l; while (u < N && !cmp(x_, s[u].first)) ++u;
      int g;
      if constexpr (plain)
      {
         b::what = names[0]; g = ttl::lower_bound(r.begin(), r.end(), v) - r.begin(); CK("C20", g == l, "returns %d, not %d", g, l);
         b::what = names[1]; g = ttl::upper_bound(r.begin(), r.end(), v) - r.begin(); CK("C20", g == u, "returns %d, not %d", g, u);
         b::what = names[2]; { auto p = ttl::equal_range(r.begin(), r.end(), v); CK("C20", p.first - r.begin() == l && p.second - r.begin() == u, "returns (%d,%d), not (%d,%d)", int(p.first - r.begin()), int(p.second - r.begin()), l, u); }
         b::what = names[3]; CK("C20", ttl::binary_search(r.begin(), r.end(), v) == (l != u), "wrong, should be %d", l != u);
      }
      else
      {
         b::what = names[0]; g = ttl::lower_bound(r.begin(), r.end(), v, cmp) - r.begin(); CK("C20", g == l, "returns %d, not %d", g, l);
         b::what = names[1]; g = ttl::upper_bound(r.begin(), r.end(), v, cmp) - r.begin(); CK("C20", g == u, "returns %d, not %d", g, u);
         b::what = names[2]; { auto p = ttl::equal_range(r.begin(), r.end(), v, cmp); CK("C20", p.first - r.begin() == l && p.second - r.begin() == u, "returns (%d,%d), not (%d,%d)", int(p.first - r.begin()), int(p.second - r.begin()), l, u); }
         b::what = names[3]; CK("C20", ttl::binary_search(r.begin(), r.end(), v, cmp) == (l != u), "wrong, should be %d", l != u);
      }
      SAME(r, s, "C20");
   }
}
template<typename T> void bsearch_all(const Seq &s0, int lo, int hi)
{
   struct Less { bool operator()(int a, int c) const { return a < c; } };
   Seq s = s0;
   if (std::is_sorted(s.begin(), s.end(), [](KI a, KI c) { return a.first < c.first; })) { bsearch<T, Less, true>(s, lo, hi, Less(), ""); bsearch<T, Half, false>(s, lo, hi, Half(), " (halves)"); bsearch<T, ttl::less<T>, false>(s, lo, hi, ttl::less<T>(), " (less)"); }
   else if (std::is_sorted(s.begin(), s.end(), [](KI a, KI c) { return a.first / 2 < c.first / 2; })) bsearch<T, Half, false>(s, lo, hi, Half(), " (halves)");
   if (std::is_sorted(s.begin(), s.end(), [](KI a, KI c) { return a.first > c.first; })) { bsearch<T, Gt, false>(s, lo, hi, Gt(), " (greater)"); bsearch<T, ttl::greater<T>, false>(s, lo, hi, ttl::greater<T>(), " (ttl::greater)"); }
}
// int ranges much larger than what can be enumerated: an iterator that computes its elements
struct Virt
{
   typedef long diff; long i; static inline long lim; static inline long thr;
   Virt(long n = 0): i(n) {}
   const int operator*() const { if (i < 0 || i >= lim) b::fail("C20", "reads element %ld of a range of %ld", i, lim); return i < thr ? 1 : 2; }
   Virt &operator++() { ++i; return *this; }
   Virt &operator--() { --i; return *this; }
   Virt &operator+=(long d) { i += d; return *this; }
   Virt operator+(long d) const { return Virt(i + d); }
   Virt operator-(long d) const { return Virt(i - d); }
   Virt operator++(int) { return Virt(i++); }
   Virt operator--(int) { return Virt(i--); }
   Virt &operator-=(long d) { i -= d; return *this; }
   int operator[](long d) const { return *Virt(i + d); }
   bool operator<(const Virt &o) const { return i < o.i; }
   bool operator>(const Virt &o) const { return i > o.i; }
   bool operator<=(const Virt &o) const { return i <= o.i; }
   bool operator>=(const Virt &o) const { return i >= o.i; }
   long operator-(const Virt &o) const { return i - o.i; }
   bool operator==(const Virt &o) const { return i == o.i; }
   bool operator!=(const Virt &o) const { return i != o.i; }
};
static void virt()
{
   b::describe = [] { return "a computed range of " + std::to_string(Virt::lim) + " ints, 1 below position " + std::to_string(Virt::thr) + " and 2 from there"; };
   const long sizes[] = {1, 2, 3, 100, 127, 128, 129, 255, 256, 257, 32767, 32768, 65535, 65536, 65537, 1 << 20, 0x3fffffff, 0x40000000, 0x7ffffffe, 0x7fffffff};
   for (long n : sizes) for (int k = 0; k < 12 * b::depth; ++k)
   {
      Virt::lim = n; Virt::thr = k == 0 ? 0 : k == 1 ? n : k == 2 ? n - 1 : k == 3 ? 1 : (long)(b::rng() % (n + 1));
      b::begin_case();
      Virt f(0), l(n);
      OP("lower_bound"); CK("C20", ttl::lower_bound(f, l, 2).i == Virt::thr, "not the partition point"); CK("C20", ttl::lower_bound(f, l, 1).i == 0, "not the start"); CK("C20", ttl::lower_bound(f, l, 3).i == n, "not the end");
      OP("upper_bound"); CK("C20", ttl::upper_bound(f, l, 1).i == Virt::thr, "not the partition point"); CK("C20", ttl::upper_bound(f, l, 0).i == 0, "not the start"); CK("C20", ttl::upper_bound(f, l, 2).i == n, "not the end");
      OP("lower_bound (comp)"); CK("C20", ttl::lower_bound(f, l, 2, ttl::less<int>()).i == Virt::thr, "not the partition point");
      OP("upper_bound (comp)"); CK("C20", ttl::upper_bound(f, l, 1, ttl::less<int>()).i == Virt::thr, "not the partition point");
      OP("equal_range"); { auto p = ttl::equal_range(f, l, 2); CK("C20", p.first.i == Virt::thr && p.second.i == n, "wrong"); auto q = ttl::equal_range(f, l, 1, ttl::less<int>()); CK("C20", q.first.i == 0 && q.second.i == Virt::thr, "wrong"); }
      OP("binary_search"); CK("C20", ttl::binary_search(f, l, 2) == (Virt::thr < n) && ttl::binary_search(f, l, 1) == (Virt::thr > 0) && !ttl::binary_search(f, l, 0) && !ttl::binary_search(f, l, 3), "wrong");
   }
   b::describe = desc;
}
// ---- C21
template<typename T, template<typename> class C> void merges(const Seq &s, const Seq &t0)
{
   Seq t = t0; for (auto &e : t) e.second += 50;
   A_ = s; B_ = t; x_ = n_ = 0;
   b::begin_case(s.size() && t.size());
   Seq w(s.size() + t.size());
   std::merge(s.begin(), s.end(), t.begin(), t.end(), w.begin(), [](KI a, KI c) { return a.first < c.first; });
   C<T> r(s), q(t); Dst<T, C> d(w.size());
   OP("merge");
   auto e = ttl::merge(r.begin(), r.end(), q.begin(), q.end(), d.begin());
   Seq got = d.c.get(), ex = nid<T>(Dst<T, C>::init(w.size()));
   for (size_t i = 0; i < w.size(); ++i) ex[1 + i] = nid<T>(w)[i];
   CK("C21", got == ex, "gives %s, not %s", str(got).c_str(), str(ex).c_str());
   CK("C21", pos(d.c, e) == 1 + (int)w.size(), "returns the wrong position");
   SAME(r, s, "C21"); SAME(q, t, "C21");
}
template<typename T, template<typename> class C> void order1(const Seq &s)
{
   A_ = s; B_.clear(); x_ = n_ = 0;
   int N = s.size();
   b::begin_case(N > 1);
   C<T> r(s);
   int u = N ? 1 : 0; while (u < N && !(s[u].first < s[u - 1].first)) ++u;
   OP("is_sorted_until"); CK("C21", pos(r, ttl::is_sorted_until(r.begin(), r.end())) == u, "returns %d, not %d", pos(r, ttl::is_sorted_until(r.begin(), r.end())), u);
   OP("is_sorted"); CK("C21", ttl::is_sorted(r.begin(), r.end()) == (u == N), "wrong");
   int mi = 0, ma = 0; for (int i = 1; i < N; ++i) { if (s[i].first < s[mi].first) mi = i; if (s[ma].first < s[i].first) ma = i; }
   OP("min_element"); CK("C21", pos(r, ttl::min_element(r.begin(), r.end())) == mi, "returns %d, not %d", pos(r, ttl::min_element(r.begin(), r.end())), mi);
   OP("max_element"); CK("C21", pos(r, ttl::max_element(r.begin(), r.end())) == ma, "returns %d, not %d", pos(r, ttl::max_element(r.begin(), r.end())), ma);
   OP("minmax_element"); { auto p = ttl::minmax_element(r.begin(), r.end()); CK("C21", pos(r, p.first) == mi && pos(r, p.second) == ma, "wrong"); }
   SAME(r, s, "C21");
}
template<typename T> void minmax2()
{
   for (x_ = 0; x_ < 4; ++x_) for (y_ = 0; y_ < 4; ++y_)
   {
      b::begin_case();
      Arr<T> a(Seq(1, KI(x_, 1))), c(Seq(1, KI(y_, 2)));
      const T &p = *a.begin(), &q = *c.begin();
      bool pq = x_ < y_, qp = y_ < x_, hpq = x_ / 2 < y_ / 2, hqp = y_ / 2 < x_ / 2;
      OP("min"); CK("C21", &ttl::min(p, q) == (qp ? &q : &p), "the wrong argument");
      OP("max"); CK("C21", &ttl::max(p, q) == (pq ? &q : &p), "the wrong argument");
      OP("min (comp)"); CK("C21", &ttl::min(p, q, Half()) == (hqp ? &q : &p), "the wrong argument"); CK("C21", &ttl::min(p, q, Gt()) == (pq ? &q : &p), "the wrong argument");
      OP("max (comp)"); CK("C21", &ttl::max(p, q, Half()) == (hpq ? &q : &p), "the wrong argument"); CK("C21", &ttl::max(p, q, Gt()) == (qp ? &q : &p), "the wrong argument");
      OP("minmax"); { ttl::pair<const T &, const T &> r = ttl::minmax(p, q); CK("C21", &r.first == (qp ? &q : &p) && &r.second == (qp ? &p : &q), "wrong"); }
      OP("minmax (comp)"); { ttl::pair<const T &, const T &> r = ttl::minmax(p, q, Half()); CK("C21", &r.first == (hqp ? &q : &p) && &r.second == (hqp ? &p : &q), "wrong"); }
      OP("minmax (comp)"); { ttl::pair<const T &, const T &> r = ttl::minmax(p, q, Gt()); CK("C21", &r.first == (pq ? &q : &p) && &r.second == (pq ? &p : &q), "wrong"); }
      CK("C21", ki(p).first == x_ && ki(q).first == y_, "an argument was changed");
   }
   x_ = y_ = 0;
}
// ---- C22
static KI K(int k, int id) { return KI(k, id); }
template<unsigned long N> struct Box { int g0; ttl::array<E, N> a; int g1; Box(): g0(4711), g1(4712) {} };
template<unsigned long N> void arrays()
{
   n_ = N;
   for (int c = 0; c < 40; ++c)
   {
      b::begin_case(N > 0);
      Seq s, t; for (unsigned i = 0; i < N; ++i) { s.push_back(K(b::rng() % 3, i + 1)); t.push_back(c % 2 ? K(b::rng() % 3, 100 + i) : K(s[i].first, 100 + i)); }
      A_ = s; B_ = t;
      if (c % 4 == 2 && N) { t[b::rng() % N].first += 1; B_ = t; }
      std::vector<char> mem(sizeof(Box<N>) * 2 + 64, (char)0xCD);
      Box<N> *x = new Box<N>, *y = new Box<N>;
      if (N == 0) { x->a.elements_[0] = E(5, 5); y->a.elements_[0] = E(6, 6); }
      OP("array::operator[]");
      for (unsigned i = 0; i < N; ++i) { x->a[i] = E(s[i].first, s[i].second); y->a.at(i) = E(t[i].first, t[i].second); }
      auto rd = [](ttl::array<E, N> &a) { Seq r; for (auto i = a.begin(); i != a.end(); ++i) r.push_back(ki(*i)); return r; };
      const ttl::array<E, N> &cx = x->a;
      CK("C22", rd(x->a) == s && rd(y->a) == t, "iteration does not give the assigned elements");
      for (unsigned i = 0; i < N; ++i) CK("C22", &x->a[i] == &x->a.elements_[i] && &x->a.at(i) == &x->a.elements_[i] && &cx[i] == &x->a.elements_[i] && &cx.at(i) == &x->a.elements_[i], "[] or at is not element %u", i);
      OP("array access");
      CK("C22", x->a.size() == N && x->a.max_size() == N && x->a.empty() == (N == 0), "size, max_size or empty");
      CK("C22", x->a.data() == &x->a.elements_[0] && cx.data() == x->a.data() && x->a.begin() == x->a.data() && cx.begin() == x->a.data() && cx.cbegin() == x->a.data() && x->a.end() == x->a.data() + N && cx.end() == x->a.data() + N && cx.cend() == x->a.data() + N, "begin, end or data");
      if (N) CK("C22", &x->a.front() == x->a.data() && &cx.front() == x->a.data() && &x->a.back() == x->a.data() + N - 1 && &cx.back() == x->a.data() + N - 1, "front or back");
      bool eq = true; for (unsigned i = 0; i < N; ++i) eq = eq && s[i].first == t[i].first;
      OP("array =="); CK("C22,C23", (x->a == y->a) == eq && (x->a != y->a) == !eq, "== is %d or != is wrong, should be %d", x->a == y->a, eq);
      CK("C22,C23", x->a == x->a && !(x->a != x->a), "not equal to itself");
      OP("array::swap"); x->a.swap(y->a); CK("C22", rd(x->a) == t && rd(y->a) == s, "not exchanged");
      if (N == 0) CK("C22", x->a.elements_[0].k == 5 && y->a.elements_[0].k == 6, "swap of empty arrays writes");
      OP("array::swap with itself"); x->a.swap(x->a); CK("C22", rd(x->a) == t, "changed");
      OP("array copy"); { ttl::array<E, N> z = x->a; CK("C22", rd(z) == t, "not equal"); z = y->a; CK("C22", rd(z) == s, "not equal"); }
      OP("array::fill"); { E v(9, 99); x->a.fill(v); CK("C22", rd(x->a) == Seq(N, K(9, 99)), "not filled"); if (N) { y->a.fill(y->a[0]); CK("C22", rd(y->a) == Seq(N, s[0]), "not filled with its own first element"); } }
      if (N == 0) CK("C22", x->a.elements_[0].k == 5, "fill of an empty array writes");
      CK("C22", x->g0 == 4711 && x->g1 == 4712 && y->g0 == 4711 && y->g1 == 4712, "memory around the array was changed");
      delete x; delete y;
   }
}
static void misc()
{
   A_.clear(); B_.clear();
   for (x_ = 0; x_ < 3; ++x_) for (y_ = 0; y_ < 3; ++y_)
   {
      b::begin_case();
      OP("swap"); { E a(x_, 1), c(y_, 2); ttl::swap(a, c); CK("C22", ki(a) == K(y_, 2) && ki(c) == K(x_, 1), "not exchanged"); ttl::swap(a, a); CK("C22", ki(a) == K(y_, 2), "swap with itself changes the value"); int i = x_, j = y_; ttl::swap(i, j); CK("C22", i == y_ && j == x_, "not exchanged"); }
      typedef ttl::pair<E, int> P; typedef ttl::pair<int, E> Q; typedef ttl::pair<E, E> R;
      OP("pair"); { E a(x_, 1), c(y_, 2); R p(a, c); CK("C22", ki(p.first) == K(x_, 1) && ki(p.second) == K(y_, 2), "constructor"); R q(p); CK("C22", ki(q.first) == K(x_, 1) && ki(q.second) == K(y_, 2), "copy"); R d; CK("C22", ki(d.first) == K(0, 0) && ki(d.second) == K(0, 0), "default"); d = p; CK("C22", ki(d.first) == K(x_, 1) && ki(d.second) == K(y_, 2), "assignment"); d = d; CK("C22", ki(d.first) == K(x_, 1) && ki(d.second) == K(y_, 2), "self assignment");
         CK("C22", ki(p.first) == K(x_, 1) && ki(p.second) == K(y_, 2), "the source of a copy was changed");
         ttl::pair<E, E> z(E(7, 7), E(8, 8)); z.swap(d); CK("C22", ki(z.first) == K(x_, 1) && ki(z.second) == K(y_, 2) && ki(d.first) == K(7, 7) && ki(d.second) == K(8, 8), "swap");
         ttl::pair<int, int> pi(x_, y_); R cv(pi); CK("C22", ki(cv.first) == K(x_, 0) && ki(cv.second) == K(y_, 0), "converting copy"); d = pi; CK("C22", ki(d.first) == K(x_, 0) && ki(d.second) == K(y_, 0), "converting assignment");
         P mp = ttl::make_pair(a, 5); CK("C22", ki(mp.first) == K(x_, 1) && mp.second == 5, "make_pair"); Q mq = ttl::make_pair(5, c); CK("C22", mq.first == 5 && ki(mq.second) == K(y_, 2), "make_pair");
         ttl::pair<int, int> p0; CK("C22", p0.first == 0 && p0.second == 0, "a default pair is not value initialized"); }
      for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { OP("pair =="); ttl::pair<int, int> p(x_, y_), q(i, j); bool e = x_ == i && y_ == j; CK("C22", (p == q) == e && (p != q) == !e, "wrong for (%d,%d)", i, j); ttl::pair<E, E> pe(p), qe(q); CK("C22", (pe == qe) == e && (pe != qe) == !e, "wrong for (%d,%d)", i, j); OP("pair swap"); pe.swap(qe); CK("C22", ki(pe.first) == K(i, 0) && ki(pe.second) == K(j, 0) && ki(qe.first) == K(x_, 0) && ki(qe.second) == K(y_, 0), "wrong for (%d,%d)", i, j); p.swap(q); CK("C22", p.first == i && p.second == j && q.first == x_ && q.second == y_, "wrong for (%d,%d)", i, j); }
      OP("select_first/select_second"); { R p(E(x_, 1), E(y_, 2)); const R &cp = p; CK("C22", &ttl::select_first<R>()(p) == &p.first && &ttl::select_second<R>()(cp) == &p.second && &ttl::select_first<R>()(cp) == &p.first && &ttl::select_second<R>()(p) == &p.second, "the wrong member"); }
      OP("functional"); { E a(x_, 1), c(y_, 2); CK("C22,C21", ttl::less<E>()(a, c) == (x_ < y_) && ttl::greater<E>()(a, c) == (x_ > y_) && ttl::equal_to<E>()(a, c) == (x_ == y_) && ttl::not_equal_to<E>()(a, c) == (x_ != y_), "wrong"); }
   }
   x_ = y_ = 0;
   all_seqs(6, 3, [](const Seq &s) {
      A_ = s; b::begin_case(s.size() > 0); int N = s.size();
      Arr<E> r(s); Arr<int> ri(s);
      OP("iota"); { Seq w; for (int i = 0; i < N; ++i) w.push_back(K(30 + i, 3)); Dst<E, Arr> d(N); E v(30, 3); ttl::iota(d.begin(), d.nth(N), v); Seq ex = Dst<E, Arr>::init(N); std::copy(w.begin(), w.end(), ex.begin() + 1); CK("C22", d.c.get() == ex, "gives %s", str(d.c.get()).c_str()); CK("C22", v.k == 30, "the start value was changed"); ttl::iota(ri.begin(), ri.end(), -2); for (int i = 0; i < N; ++i) CK("C22", ri.p[i] == i - 2, "element %d is %d", i, ri.p[i]); }
      OP("accumulate"); { E acc = ttl::accumulate(r.begin(), r.end(), E(1, 5)); int w = 1; for (auto &e : s) w = w * 7 + e.first; CK("C22", acc.k == w, "%d, not %d", acc.k, w); Arr<int> q(s); int sum = 100; for (auto &e : s) sum += e.first; CK("C22", ttl::accumulate(q.begin(), q.end(), 100) == sum, "wrong sum"); }
      CK("C22", r.get() == s, "a range that is only read was changed");
   });
   OP("countof"); { char b9[9]; CK("C22", countof(b9) == 9, "wrong"); int a1[1], a7[7]; E *p3[3]; CK("C22", ttl_countof(a1) == 1 && ttl_countof(a7) == 7 && ttl_countof(p3) == 3, "wrong"); int a1000[1000]; CK("C22", ttl_countof(a1000) == 1000, "wrong"); (void)a1; (void)a7; (void)p3; (void)a1000; }
   OP("distance/advance"); { int a[5]; CK("C22", ttl::distance(a, a + 5) == 5 && ttl::distance(a + 2, a) == -2, "wrong"); int *p = a; ttl::advance(p, 3); CK("C22", p == a + 3, "wrong"); }
}
static Seq rnd(int n, int alpha) { Seq s; for (int i = 0; i < n; ++i) s.push_back(KI(b::rng() % alpha, i + 1)); return s; }
int main(int argc, char **argv)
{
   b::start(argc, argv);
   b::life_props = "C18,C19,C20,C21,C22,C23";
   b::describe = desc;
   std::string p = b::prop; int D = b::depth;
   if (p == "C18")
   {
      all_seqs(4 + D, 3, [](const Seq &s) { nonmod1<E, Arr>(s); });
      all_seqs(4, 3, [](const Seq &s) { nonmod1<int, Arr>(s); nonmod1<E, Lst>(s); });
      int m = D > 1 ? 5 : 4;
      all_seqs(m, 3, [&](const Seq &s) { all_seqs(m, 3, [&](const Seq &t) { nonmod2<E, Arr>(s, t); }); });
      all_seqs(3, 3, [](const Seq &s) { all_seqs(3, 3, [&](const Seq &t) { nonmod2<int, Arr>(s, t); nonmod2<E, Lst>(s, t); }); });
      all_seqs(8, 2, [](const Seq &s) { all_seqs(3, 2, [&](const Seq &t) { nonmod2<E, Arr>(s, t); }); }, 5);
      for (int i = 0; i < 60 * D; ++i) { int n = 1 + b::rng() % 300; Seq s = rnd(n, 2 + i % 2), t; t = Seq(s.begin() + b::rng() % n, s.end()); if (i % 3 == 0) t = s; if (i % 3 == 1) t.resize(std::min<size_t>(t.size(), b::rng() % 12)); nonmod2<E, Arr>(s, t); if (t.size() && i % 2) { t.back().first ^= 1; nonmod2<E, Arr>(s, t); } nonmod1<int, Arr>(rnd(40, 2)); Seq runs; while (runs.size() < 70) { KI k(b::rng() % 3, 1); int len = 1 + b::rng() % 20; runs.insert(runs.end(), len, k); } nonmod1<E, Arr>(runs); }
   }
   if (p == "C19")
   {
      all_seqs(5 + (D > 1), 3, [](const Seq &s) { mod<E, Arr, Arr>(s); mod<E, Lst, Arr>(s); mod<E, Arr, Lst>(s); });
      all_seqs(4, 3, [](const Seq &s) { mod<int, Arr, Arr>(s); mod<int, Lst, Lst>(s); });
      all_seqs(8 + (D > 1), 2, [](const Seq &s) { mod<E, Arr, Arr>(s); }, 6);
      for (int i = 0; i < 4 * D; ++i) { mod<E, Arr, Arr>(rnd(9 + i * 3, 3)); mod<E, Lst, Lst>(rnd(9 + i * 3, 3)); }
      if (D > 1) for (int i = 0; i < 20; ++i) mod<int, Arr, Arr>(rnd(40, 3));
   }
   if (p == "C20")
   {
      all_seqs(6 + D, 4, [](const Seq &s) { bsearch_all<E>(s, -2, 5); });
      all_seqs(7, 3, [](const Seq &s) { Seq t = s; for (auto &x : t) x.first *= 2; bsearch_all<int>(t, -1, 5); });
      for (int i = 0; i < 40 * D; ++i) { Seq s = rnd(1 + b::rng() % 200, 1 + b::rng() % 60); std::sort(s.begin(), s.end(), [](KI a, KI c) { return a.first < c.first; }); bsearch_all<int>(s, -1, 61); std::reverse(s.begin(), s.end()); bsearch_all<E>(s, -1, 61); }
      virt();
   }
   if (p == "C21")
   {
      auto srt = [](const Seq &s) { return std::is_sorted(s.begin(), s.end(), [](KI a, KI c) { return a.first < c.first; }); };
      all_seqs(4 + D, 4, [&](const Seq &s) { if (srt(s)) all_seqs(4 + D, 4, [&](const Seq &t) { if (srt(t)) merges<E, Arr>(s, t); }); });
      all_seqs(4, 3, [&](const Seq &s) { if (srt(s)) all_seqs(4, 3, [&](const Seq &t) { if (srt(t)) { merges<int, Arr>(s, t); merges<E, Lst>(s, t); } }); });
      for (int i = 0; i < 60 * D; ++i) { Seq s = rnd(b::rng() % 90, 20), t = rnd(b::rng() % 90, 20); auto c = [](KI a, KI c) { return a.first < c.first; }; std::stable_sort(s.begin(), s.end(), c); std::stable_sort(t.begin(), t.end(), c); merges<E, Arr>(s, t); order1<E, Arr>(s); if (s.size() > 3) { std::swap(s[b::rng() % s.size()], s[b::rng() % s.size()]); order1<E, Arr>(s); } }
      all_seqs(6 + D, 3, [](const Seq &s) { order1<E, Arr>(s); });
      all_seqs(5, 4, [](const Seq &s) { order1<int, Arr>(s); order1<E, Lst>(s); });
      minmax2<E>(); minmax2<int>(); misc();
   }
   if (p == "C22" || p == "C23") { misc(); arrays<0>(); arrays<1>(); arrays<2>(); arrays<3>(); arrays<4>(); arrays<5>(); arrays<8>(); arrays<17>(); arrays<100>(); }
   if (b::objects) b::fail("C19,C22", "%ld elements were not destroyed", b::objects);
   return b::finish();
}
