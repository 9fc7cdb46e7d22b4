// Support for the bounded replay harnesses: an element type that checks its own lifetime, a counting allocator,
// failure reporting with the failing case, and a watchdog for operations that do not end.
// Usage of a harness: <binary> <property> <depth> <seed>
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstdarg>
#include <cstring>
#include <cstdint>
#include <new>
#include <string>
#include <vector>
#include <algorithm>
#include <functional>
#include <list>
#include <map>
#include <random>
#include <type_traits>
#include <sys/time.h>
#include <csignal>
#include <unistd.h>
extern "C" void __sanitizer_set_death_callback(void (*)());

namespace b {
   inline const char *prop = "";
   inline int depth = 1;            // 1 quick, 2 thorough
   inline unsigned long seed = 1;
   inline unsigned long cases = 0, nontrivial = 0;
   inline std::mt19937_64 rng;
   inline std::string (*describe)() = nullptr;      // text of the current case
   inline const char *what = "";                     // current operation
   inline std::vector<std::string> samples;
   inline bool dead = false;
   inline bool hits(const char *props) { return strstr(props, prop) != nullptr; }
   inline void report(const char *kind, const char *msg)
   {
      if (dead) return;
      dead = true;
      std::string d = describe ? describe() : std::string();
      printf("BFAIL property=%s kind=%s op=%s: %s | case: %s\n", prop, kind, what, msg, d.c_str());
      fflush(stdout);
   }
   // a check of the properties props failed
   inline void fail(const char *props, const char *fmt, ...)
   {
      if (!hits(props)) return;
      char m[600];
      va_list ap; va_start(ap, fmt); vsnprintf(m, sizeof m, fmt, ap); va_end(ap);
      report("result", m);
      _exit(3);
   }
   // remembered findings are only counted
   inline unsigned long known = 0;
   inline void on_death() { report("crash", "the sanitizer stopped the program (bad memory access or undefined behaviour)"); }
   inline void on_sig(int s) { report("crash", s == SIGSEGV ? "segmentation fault" : s == SIGABRT ? "abort" : "signal"); _exit(4); }
   inline unsigned long last_case = 0; inline int stuck = 0;
   inline void on_prof(int)
   {
      if (cases != last_case) { last_case = cases; stuck = 0; return; }
      if (++stuck >= 6) { report("hang", "the operation does not end (6 s of CPU time)"); _exit(5); }
   }
   inline void start(int argc, char **argv)
   {
      prop = argc > 1 ? argv[1] : "";
      depth = argc > 2 ? atoi(argv[2]) : 1;
      seed = argc > 3 ? strtoul(argv[3], 0, 10) : 1;
      rng.seed(seed);
      __sanitizer_set_death_callback(on_death);
      signal(SIGSEGV, on_sig); signal(SIGBUS, on_sig); signal(SIGFPE, on_sig); signal(SIGABRT, on_sig);
      signal(SIGPROF, on_prof);
      itimerval it = {{1, 0}, {1, 0}};
      setitimer(ITIMER_PROF, &it, 0);
   }
   inline int finish()
   {
      printf("BOK cases=%lu nontrivial=%lu known=%lu\n", cases, nontrivial, known);
      for (auto &s : samples) printf("SAMPLE %s\n", s.c_str());
      return 0;
   }
   inline void begin_case(bool nt = true)
   {
      ++cases;
      if (nt) ++nontrivial;
      if (samples.size() < 4 && nt && describe && (cases == 50 || cases == 3000 || cases == 40000 || cases == 200000)) samples.push_back(describe());
   }
   inline std::string str(const std::vector<int> &v)
   {
      std::string r = "[";
      for (size_t i = 0; i < v.size(); ++i) { if (i) r += ","; if (i > 40) { r += "...(" + std::to_string(v.size()) + ")"; break; } r += std::to_string(v[i]); }
      return r + "]";
   }
   // memory
   inline bool in_sut = false;      // the code under test is running
   inline long blocks = 0;          // blocks it allocated and did not free
   struct PtrSet                    // their addresses
   {
      static const size_t N = 1 << 16;
      void *t[N];
      static size_t h(void *p) { return ((uintptr_t)p >> 4) * 0x9E3779B97F4A7C15ull >> 48; }
      void add(void *p) { size_t i = h(p); while (t[i]) i = (i + 1) % N; t[i] = p; }
      bool del(void *p)
      {
         size_t i = h(p);
         while (t[i] && t[i] != p) i = (i + 1) % N;
         if (!t[i]) return false;
         for (size_t j = i;;)
         {
            t[i] = 0;
            for (;;) { j = (j + 1) % N; if (!t[j]) return true; size_t k = h(t[j]); if (i <= j ? (k <= i || k > j) : (k <= i && k > j)) break; }
            t[i] = t[j]; i = j;
         }
      }
   };
   inline PtrSet ptrs;
   struct Sut { bool o; Sut(): o(in_sut) { in_sut = true; } ~Sut() { in_sut = o; } };
   // elements
   inline long objects = 0;         // elements alive
   inline const char *life_props = "";  // properties which a lifetime violation breaks
   inline long cmps = 0;            // comparisons made
}
void *operator new(std::size_t n)
{
   void *p = malloc(n ? n : 1);
   if (!p) abort();
   memset(p, 0xCD, n);
   if (b::in_sut) { ++b::blocks; b::ptrs.add(p); }
   return p;
}
void *operator new[](std::size_t n) { return operator new(n); }
void *operator new(std::size_t n, const std::nothrow_t &) noexcept { return operator new(n); }
void *operator new[](std::size_t n, const std::nothrow_t &) noexcept { return operator new(n); }
void operator delete(void *p) noexcept { if (p) { if (b::blocks && b::ptrs.del(p)) --b::blocks; free(p); } }
void operator delete[](void *p) noexcept { operator delete(p); }
void operator delete(void *p, std::size_t) noexcept { operator delete(p); }
void operator delete[](void *p, std::size_t) noexcept { operator delete(p); }

// The element: k is its value (compared by == and <), id tells equal elements apart.
struct E
{
   enum : unsigned { LIVE = 0x11feE1e0u, GONE = 0xdeadE1e0u };
   int k, id;
   volatile unsigned magic;
   const E *self;
   void born() { if (magic == LIVE && self == this) b::fail(b::life_props, "an element is constructed over a live one"); magic = LIVE; self = this; ++b::objects; }
   void check(const char *m) const
   {
      if (magic == LIVE && self == this) return;
      b::fail(b::life_props, "%s of %s", m, magic == GONE ? "a destroyed element" : "memory that is not an element");
   }
   struct raw {};
   E(): k(0), id(0) { born(); }
   E(int k_): k(k_), id(0) { born(); }
   E(int k_, int id_): k(k_), id(id_) { born(); }
   E(const E &o): k(o.k), id(o.id) { o.check("copy"); born(); }
   E &operator=(const E &o) { check("assignment to"); o.check("assignment from"); k = o.k; id = o.id; return *this; }
   ~E() { check("destruction"); magic = GONE; self = 0; k = -77; --b::objects; }
   bool operator==(const E &o) const { check("read"); o.check("read"); ++b::cmps; return k == o.k; }
   bool operator!=(const E &o) const { check("read"); o.check("read"); ++b::cmps; return k != o.k; }
   bool operator<(const E &o) const { check("read"); o.check("read"); ++b::cmps; return k < o.k; }
   bool operator>(const E &o) const { check("read"); o.check("read"); ++b::cmps; return k > o.k; }
   E operator+(const E &o) const { check("read"); o.check("read"); return E(k * 7 + o.k, id); }
   E &operator++() { check("read"); ++k; return *this; }
};
static_assert(sizeof(E) == 24, "");
inline std::string estr(const E &e) { return std::to_string(e.k) + "." + std::to_string(e.id); }
typedef std::pair<int, int> KI;       // model of an element: value, identity
inline KI ki(const E &e) { e.check("read"); return KI(e.k, e.id); }
template<typename I> KI ki(const I &e) { return KI(e, 0); }
inline std::string str(const std::vector<KI> &v)
{
   std::string r = "[";
   for (size_t i = 0; i < v.size(); ++i)
   {
      if (i) r += " ";
      if (i > 40) { r += "...(" + std::to_string(v.size()) + ")"; break; }
      r += std::to_string(v[i].first); if (v[i].second) r += "." + std::to_string(v[i].second);
   }
   return r + "]";
}
// exactly n elements on the heap: the sanitizer sees every access outside of them
template<typename T> struct Arr
{
   T *p; size_t n;
   Arr(const std::vector<KI> &v): p((T *)malloc(v.size() * sizeof(T) + (v.empty() ? 1 : 0))), n(v.size()) { memset((void *)p, 0xCD, n * sizeof(T)); for (size_t i = 0; i < n; ++i) mk(p + i, v[i]); }
   ~Arr() { for (size_t i = 0; i < n; ++i) p[i].~T(); free((void *)p); }
   static void mk(E *q, KI v) { new (q) E(v.first, v.second); }
   template<typename I> static void mk(I *q, KI v) { new (q) I(v.first); }
   T *begin() { return p; }
   T *end() { return p + n; }
   std::vector<KI> get() const { std::vector<KI> r; for (size_t i = 0; i < n; ++i) r.push_back(ki(p[i])); return r; }
};
// calls f for every sequence over {0..alpha-1} of length 0..maxlen; identities are 1..n
template<typename F> void all_seqs(int maxlen, int alpha, F f, int minlen = 0)
{
   for (int n = minlen; n <= maxlen; ++n)
   {
      std::vector<KI> v(n);
      for (int i = 0; i < n; ++i) v[i] = KI(0, i + 1);
      for (;;)
      {
         f(v);
         int i = n - 1;
         while (i >= 0 && ++v[i].first == alpha) v[i--].first = 0;
         if (i < 0) break;
      }
   }
}
