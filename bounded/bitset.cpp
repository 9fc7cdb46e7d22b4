// Bounded check of bitset: C16 operations, C17 conversions and unused bits, C23 copies and ==. Every operation is run on
// boundary and random bit patterns of many sizes, also with unused bits set, against a model of N separate bits.
#include "b.hpp"
#include <ttl/types.hpp>
#include <ttl/utility.hpp>
#include <ttl/bitset.hpp>
#include "hist.hpp"
using h::say;
typedef std::vector<bool> Bits;
static std::string show(const Bits &v) { std::string s; for (size_t i = v.size(); i--;) s += v[i] ? '1' : '0'; return s; }
static unsigned long long low(const Bits &v) { unsigned long long r = 0; for (size_t i = 0; i < v.size() && i < 64; ++i) if (v[i]) r |= 1ull << i; return r; }
template<size_t N> struct B
{
   typedef ttl::bitset<N> X;
   // the object lies in a block of exactly its size, so that the sanitizer sees accesses outside
   struct Obj { X *p; Obj() { p = (X *)malloc(sizeof(X)); memset((void *)p, 0xA5, sizeof(X)); } ~Obj() { free(p); } X &operator*() { return *p; } X *operator->() { return p; } };
   static size_t slots() { return (N + 63) / 64; }
   static void check(const X &x, const Bits &m, const char *props)
   {
      size_t n = 0; bool all = true;
      for (size_t i = 0; i < N; ++i)
      {
         CK(props, x.test(i) == m[i], "bit %lu is %d; the bits should be %s", (unsigned long)i, x.test(i), show(m).c_str());
         CK("C16", x[i] == m[i], "[%lu]", (unsigned long)i);
         n += m[i]; all = all && m[i];
      }
      for (size_t i = N; i < N + 130; i += 13) CK("C16", !x.test(i), "test(%lu) beyond the end", (unsigned long)i);
      CK("C16,C17", x.count() == n, "count() is %lu, not %lu", (unsigned long)x.count(), (unsigned long)n);
      CK("C16,C17", x.any() == (n > 0), "any() is %d", x.any());
      CK("C16,C17", x.none() == (n == 0), "none() is %d", x.none());
      CK("C16,C17", x.all() == all, "all() is %d", x.all());
      CK("C17", x.to_ulong() == low(m), "to_ulong() is %lx, not %llx", x.to_ulong(), low(m));
      CK("C17", x.to_ullong() == low(m), "to_ullong() is %llx, not %llx", x.to_ullong(), low(m));
      CK("C16", x.size() == N, "size()");
      X y; for (size_t i = 0; i < N; ++i) if (m[i]) y.set(i);
      CK("C16,C17,C23", x == y && y == x && !(x != y), "not equal to a bitset with the same bits");
      if (N) { size_t i = b::rng() % N; y.flip(i); CK("C16,C17,C23", !(x == y) && x != y, "equal to a bitset that differs in bit %lu", (unsigned long)i); }
   }
   // a bitset with the bits m; dirty: unused bits are set
   static void make(Obj &o, const Bits &m, bool dirty)
   {
      new (o.p) X;
      if (dirty) o->set();
      for (size_t i = 0; i < N; ++i) if (o->test(i) != m[i]) o->flip(i);
   }
   static Bits pattern(int k)
   {
      Bits m(N);
      if (k == 0) return m;
      for (size_t i = 0; i < N; ++i) m[i] = k == 1 ? true : k == 2 ? i + 1 == N : k == 3 ? i == 0 : k == 4 ? i % 64 == 63 : k == 5 ? i % 64 == 0 : k == 6 ? i + 1 != N : k == 7 ? i >= 64 : b::rng() % (k % 3 + 2) == 0;
      return m;
   }
   static void ops()
   {
      const int K = b::depth > 1 ? 40 : 12;
      for (int a = 0; a < K; ++a) for (int d = 0; d < 2; ++d)
      {
         Bits m = pattern(a); Obj o;
         #define CASE(...) b::begin_case(); h::trace.clear(); say("bitset<%lu>%s %s: ", (unsigned long)N, d ? " with unused bits set" : "", show(m).substr(0, 200).c_str()); say(__VA_ARGS__); b::what = "bitset"; make(o, m, d)
         Bits r = m;
         CASE("itself"); check(*o, m, "C16,C17");
         CASE("set()"); { X &t = o->set(); CK("C16", &t == o.p, "result of set()"); } check(*o, Bits(N, true), "C16,C17");
         CASE("reset()"); { X &t = o->reset(); CK("C16", &t == o.p, "result of reset()"); } check(*o, Bits(N, false), "C16,C17");
         CASE("flip()"); { X &t = o->flip(); CK("C16", &t == o.p, "result of flip()"); } r.flip(); check(*o, r, "C16,C17");
         CASE("flip() twice"); o->flip().flip(); check(*o, m, "C16,C17");
         CASE("~"); { Obj t; new (t.p) X(~*o); check(*t, r, "C16,C17"); check(*o, m, "C16"); }
         CASE("copy"); { Obj t; new (t.p) X(*o); check(*t, m, "C23,C16,C17"); if (N) { t->flip(N - 1); check(*o, m, "C23"); t->flip(N - 1); o->flip(0); check(*t, m, "C23"); } }
         CASE("=itself"); { X &t = (*o = *o); CK("C23", &t == o.p, "result of ="); } check(*o, m, "C23,C16,C17");
         static const size_t sh[] = {0, 1, 2, 31, 32, 33, 62, 63, 64, 65, 66, 127, 128, 129, N / 2, N - 2, N - 1, N, N + 1, N + 63, N + 64, 1ul << 31, 1ul << 32, 1ul << 33, (1ul << 32) + 1, ~0ul, ~0ul - 1, ~0ul / 2};
         for (size_t s : sh)
         {
            Bits l(N), rr(N); for (size_t i = 0; i < N; ++i) { if (i >= s) l[i] = m[i - s]; if (s < N && i + s < N) rr[i] = m[i + s]; }
            CASE("<< %lu", s); { Obj t; new (t.p) X(*o << s); check(*t, l, "C16"); check(*o, m, "C16"); X &u = (*o <<= s); CK("C16", &u == o.p, "result of <<="); check(*o, l, "C16,C17"); }
            CASE(">> %lu", s); { Obj t; new (t.p) X(*o >> s); check(*t, rr, "C16"); check(*o, m, "C16"); X &u = (*o >>= s); CK("C16", &u == o.p, "result of >>="); check(*o, rr, "C16,C17"); }
         }
         for (int z = 0; z < K; ++z)
         {
            Bits m2 = pattern(z), an(N), ob(N), xo(N); bool e = m == m2; for (size_t i = 0; i < N; ++i) { an[i] = m[i] && m2[i]; ob[i] = m[i] || m2[i]; xo[i] = m[i] != m2[i]; }
            for (int d2 = 0; d2 < 2; ++d2)
            {
               Obj p; make(p, m2, d2);
               CASE("== %s", show(m2).substr(0, 200).c_str()); CK("C16,C17,C23", (*o == *p) == e && (*p == *o) == e && (*o != *p) == !e, "==");
               CASE("&= %s", show(m2).substr(0, 200).c_str()); { Obj t; new (t.p) X(*o & *p); check(*t, an, "C16,C17"); X &u = (*o &= *p); CK("C16", &u == o.p, "result of &="); check(*o, an, "C16,C17"); check(*p, m2, "C16"); }
               CASE("|= %s", show(m2).substr(0, 200).c_str()); { Obj t; new (t.p) X(*o | *p); check(*t, ob, "C16,C17"); X &u = (*o |= *p); CK("C16", &u == o.p, "result of |="); check(*o, ob, "C16,C17"); check(*p, m2, "C16"); }
               CASE("^= %s", show(m2).substr(0, 200).c_str()); { Obj t; new (t.p) X(*o ^ *p); check(*t, xo, "C16,C17"); X &u = (*o ^= *p); CK("C16", &u == o.p, "result of ^="); check(*o, xo, "C16,C17"); check(*p, m2, "C16"); }
               CASE("= %s", show(m2).substr(0, 200).c_str()); { X &u = (*o = *p); CK("C23", &u == o.p, "result of ="); check(*o, m2, "C23,C16,C17"); if (N) { p->flip(0); check(*o, m2, "C23"); } }
            }
         }
         if constexpr (N > 0) for (size_t i = 0; i < N; i += N > 70 && b::depth < 2 ? 1 + b::rng() % 7 : 1)
         {
            r = m;
            CASE("flip(%lu)", i); { X &t = o->flip(i); CK("C16", &t == o.p, "result"); } r[i] = !m[i]; check(*o, r, "C16");
            CASE("set(%lu)", i); o->set(i); r[i] = true; check(*o, r, "C16");
            CASE("set(%lu,true)", i); o->set(i, true); check(*o, r, "C16");
            CASE("[%lu]=true", i); (*o)[i] = true; check(*o, r, "C16");
            CASE("reset(%lu)", i); o->reset(i); r[i] = false; check(*o, r, "C16");
            CASE("set(%lu,false)", i); o->set(i, false); check(*o, r, "C16");
            CASE("[%lu]=false", i); (*o)[i] = false; check(*o, r, "C16");
            CASE("[%lu].flip()", i); (*o)[i].flip(); r[i] = !m[i]; check(*o, r, "C16"); CK("C16", (bool)(*o)[i] == r[i] && ~(*o)[i] == !r[i], "[%lu] or ~[%lu]", i, i);
            size_t j = b::rng() % N; r = m; r[i] = m[j];
            CASE("[%lu]=[%lu]", i, j); (*o)[i] = (*o)[j]; check(*o, r, "C16");
            { Obj p; Bits m2 = pattern(9); make(p, m2, d); CASE("[%lu]=other[%lu]", i, j); r = m; r[i] = m2[j]; (*o)[i] = (*p)[j]; check(*o, r, "C16"); check(*p, m2, "C16"); }
         }
      }
      // random sequences of operations
      for (int t = 0; t < (b::depth > 1 ? 2000 : 100); ++t)
      {
         Bits m(N); Obj o, o2; new (o.p) X; new (o2.p) X; Bits m2(N); b::begin_case(); h::trace.clear(); say("bitset<%lu>: ", (unsigned long)N);
         for (int q = 0; q < 12; ++q)
         {
            size_t i = N ? b::rng() % N : 0, s = b::rng() % (N + 2);
            switch (b::rng() % 12)
            {
               case 0: if (N) { say("set(%lu);", i); o->set(i); m[i] = true; } break;
               case 1: if (N) { say("reset(%lu);", i); o->reset(i); m[i] = false; } break;
               case 2: say("flip();"); o->flip(); m.flip(); break;
               case 3: say("set();"); o->set(); m.assign(N, true); break;
               case 4: say("<<=%lu;", s); *o <<= s; { Bits l(N); for (size_t k = s; k < N; ++k) l[k] = m[k - s]; m = l; } break;
               case 5: say(">>=%lu;", s); *o >>= s; { Bits l(N); for (size_t k = 0; k + s < N; ++k) l[k] = m[k + s]; m = l; } break;
               case 6: say("=~;"); *o = ~*o; m.flip(); break;
               case 7: say("swap;"); std::swap(o.p, o2.p); std::swap(m, m2); break;
               case 8: say("^=;"); *o ^= *o2; for (size_t k = 0; k < N; ++k) m[k] = m[k] != m2[k]; break;
               case 9: say("|=;"); *o |= *o2; for (size_t k = 0; k < N; ++k) m[k] = m[k] || m2[k]; break;
               case 10: say("&=;"); *o &= *o2; for (size_t k = 0; k < N; ++k) m[k] = m[k] && m2[k]; break;
               case 11: if (N) { say("flip(%lu);", i); o->flip(i); m[i] = !m[i]; } break;
            }
            check(*o, m, "C16,C17");
         }
      }
   }
   static void numbers()
   {
      static const unsigned long long vals[] = {0, 1, 2, 3, 0x80000000ull, 0xffffffffull, 0x100000000ull, 0x8000000000000000ull, ~0ull, 0xAAAAAAAAAAAAAAAAull, 0x5555555555555555ull};
      for (int k = 0; k < 30; ++k)
      {
         unsigned long long v = k < 11 ? vals[k] : b::rng(); Bits m(N); for (size_t i = 0; i < N && i < 64; ++i) m[i] = v >> i & 1;
         b::begin_case(); h::trace.clear(); say("bitset<%lu>(0x%llx)", (unsigned long)N, v); b::what = "construction from a number";
         { Obj o; new (o.p) X((unsigned long)v); check(*o, m, "C17"); }
         { Obj o; new (o.p) X(v); check(*o, m, "C17"); }
         { Obj o; new (o.p) X; check(*o, Bits(N), "C17"); }
      }
      // strings
      static const char *chars[] = {"01", "ab", "10", "xy", ".1"};
      static const size_t lens[] = {0, 1, 2, N - 1, N, N + 1, 63, 64, 65, 2 * N + 70};
      for (int k = 0; k < (b::depth > 1 ? 200 : 25); ++k) for (size_t len : lens)
      {
         if (len > 2 * N + 70) continue;
         const char *ch = chars[k % 5]; size_t stop = k % 3 ? len : b::rng() % (len + 1);
         std::string s; for (size_t i = 0; i < len; ++i) s += i == stop ? "2-c" [b::rng() % 3] : ch[k % 4 == 3 ? 1 : b::rng() % 2];
         size_t n = k % 4 < 2 ? (size_t)-1 : b::rng() % (len + 2);
         if (n == (size_t)-1 || n > len) n = k % 2 ? (size_t)-1 : len;
         size_t d = 0; while (d < N && d < n && d < s.size() && (s[d] == ch[0] || s[d] == ch[1])) ++d;
         Bits m(N); for (size_t i = 0; i < d; ++i) m[d - 1 - i] = s[i] != ch[0];
         b::begin_case(); h::trace.clear(); say("bitset<%lu>(\"%s\", %ld, '%c', '%c')", (unsigned long)N, s.substr(0, 200).c_str(), (long)n, ch[0], ch[1]); b::what = "construction from a string";
         // no terminator when a length bounds the string
         char *c = (char *)malloc(s.size() + (n == (size_t)-1 ? 1 : 0) + !s.size()); memcpy(c, s.c_str(), s.size() + (n == (size_t)-1 ? 1 : 0));
         { Obj o; new (o.p) X((const char *)c, n, ch[0], ch[1]); check(*o, m, "C17"); }
         if (ch[0] == '0') { Obj o; new (o.p) X((const char *)c, n); check(*o, m, "C17"); }
         free(c);
      }
   }
   template<size_t M> static void convert()
   {
      typedef B<M> C;
      for (int a = 0; a < (b::depth > 1 ? 40 : 12); ++a) for (int d = 0; d < 2; ++d)
      {
         Bits m = C::pattern(a); typename C::Obj s; C::make(s, m, d); Bits r(N); for (size_t i = 0; i < N && i < M; ++i) r[i] = m[i];
         b::begin_case(); h::trace.clear(); say("bitset<%lu> from bitset<%lu>%s %s", (unsigned long)N, (unsigned long)M, d ? " with unused bits set" : "", show(m).c_str()); b::what = "conversion";
         { Obj o; new (o.p) X(*s); check(*o, r, "C17"); }
         if constexpr (N != M) { Obj o; new (o.p) X(s->operator X()); check(*o, r, "C17"); }
         { Obj o; make(o, pattern(1), true); X &t = (*o = *s); CK("C17", &t == o.p, "result of ="); check(*o, r, "C17,C23"); }
         C::check(*s, m, "C17");
      }
   }
   template<size_t... M> static void conversions() { (convert<M>(), ...); }
};
template<size_t... N> void all_ops() { (B<N>::ops(), ...); }
template<size_t... N> void all_numbers() { (B<N>::numbers(), ...); }
template<size_t... N> void all_conv() { (B<N>::template conversions<0, 1, 5, 63, 64, 65, 100, 127, 128, 129>(), ...); }
int main(int argc, char **argv)
{
   b::start(argc, argv);
   b::describe = h::desc;
   if (b::hits("C16,C17,C23")) all_ops<0, 1, 5, 31, 63, 64, 65, 100, 128, 129, 192>();
   if (b::hits("C17")) { all_numbers<0, 1, 5, 31, 32, 33, 63, 64, 65, 100, 128, 129>(); all_conv<0, 1, 5, 63, 64, 65, 100, 127, 128, 129>(); }
   return b::finish();
}
