// Histories of operations: every choice is made by choose(), so that the same code enumerates all histories up to a
// bound (depth first) and draws long random ones.
#pragma once
#include "b.hpp"
namespace h {
   inline std::vector<int> path, lim; inline size_t at = 0; inline bool random_mode = false;
   inline std::string trace;
   inline int choose(int n)
   {
      if (n <= 1) return 0;
      if (random_mode) return b::rng() % n;
      if (at == path.size()) { path.push_back(0); lim.push_back(n); }
      return path[at++];
   }
   // a small size: all of 0..n-1 in exhaustive mode, skewed in random mode
   inline bool next()
   {
      while (!path.empty() && path.back() + 1 >= lim.back()) { path.pop_back(); lim.pop_back(); }
      if (path.empty()) return false;
      ++path.back();
      return true;
   }
   inline void say(const char *fmt, ...)
   {
      char m[300];
      va_list ap; va_start(ap, fmt); int n = vsnprintf(m, sizeof m, fmt, ap); va_end(ap);
      if (trace.size() > 6000) trace.erase(0, 3000).insert(0, "...");
      trace.append(m, std::min(n, 299));
   }
   inline std::string desc() { return trace; }
   // all histories of f, at most max of them (then every stride-th prefix is sampled); returns whether complete
   template<typename F> bool all(F f, unsigned long max = ~0ul)
   {
      random_mode = false; path.clear(); lim.clear();
      unsigned long n = 0;
      do { at = 0; b::begin_case(); trace.clear(); f(); if (++n >= max) return false; } while (next());
      return true;
   }
   template<typename F> void random(unsigned long n, F f)
   {
      random_mode = true;
      for (unsigned long i = 0; i < n; ++i) { b::begin_case(); trace.clear(); f(); }
   }
}
#define CK(p, c, ...) do { if (!(c)) b::fail(p, __VA_ARGS__); } while (0)
#define SUT b::Sut sut_;
