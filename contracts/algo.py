"""Contracts of algorithm.hpp, numeric.hpp, utility.hpp (swap, pair, countof) and array.hpp: C18-C22, parts of C23."""
from lib.family import Fn
from lib.xlate import Family

TU = r'''
#include <ttl/types.hpp>
#include <ttl/type_traits.hpp>
#include <ttl/utility.hpp>
#include <ttl/functional.hpp>
#include <ttl/algorithm.hpp>
#include <ttl/numeric.hpp>
struct E { E(); E(const E &); ~E(); E &operator=(const E &); E &operator++(); int v; };
bool operator==(const E &, const E &);
bool operator<(const E &, const E &);
bool operator>(const E &, const E &);
bool operator!=(const E &, const E &);
E operator+(const E &, const E &);
struct P { bool operator()(const E &) const; };
struct BP { bool operator()(const E &, const E &) const; };
struct CP { bool operator()(const E &, const E &) const; };
struct F { void operator()(E &) const; };
struct G { E operator()() const; };
struct UO { E operator()(const E &) const; };
struct BO { E operator()(const E &, const E &) const; };
typedef E *It; typedef const E *Ci;
namespace ttl {
template It find(It, It, const E &);
template It find_if(It, It, P);
template It find_if_not(It, It, P);
template It search(It, It, It, It);
template It search(It, It, It, It, BP);
template It search_n(It, It, int, const E &);
template It search_n(It, It, int, const E &, BP);
template int count(It, It, const E &);
template int count_if(It, It, P);
template bool all_of(It, It, P);
template bool any_of(It, It, P);
template bool none_of(It, It, P);
template It adjacent_find(It, It);
template It adjacent_find(It, It, BP);
template bool equal(It, It, It);
template bool equal(It, It, It, BP);
template bool equal(It, It, It, It);
template bool equal(It, It, It, It, BP);
template pair<It, It> mismatch(It, It, It);
template pair<It, It> mismatch(It, It, It, BP);
template pair<It, It> mismatch(It, It, It, It);
template pair<It, It> mismatch(It, It, It, It, BP);
template F for_each(It, It, F);
template void iter_swap(It, It);
template It swap_ranges(It, It, It);
template void fill(It, It, const E &);
template It fill_n(It, int, const E &);
template It copy(It, It, It);
template It copy_if(It, It, It, P);
template It copy_n(It, int, It);
template It copy_backward(It, It, It);
template void generate(It, It, G);
template It generate_n(It, int, G);
template void replace(It, It, const E &, const E &);
template void replace_if(It, It, P, const E &);
template It replace_copy(It, It, It, const E &, const E &);
template It replace_copy_if(It, It, It, P, const E &);
template It remove_copy(It, It, It, const E &);
template It remove_copy_if(It, It, It, P);
template It remove(It, It, const E &);
template It remove_if(It, It, P);
template It transform(It, It, It, UO);
template It transform(It, It, It, It, BO);
template void reverse(It, It);
template It reverse_copy(It, It, It);
template It lower_bound(It, It, const E &);
template It lower_bound(It, It, const E &, CP);
template It upper_bound(It, It, const E &);
template It upper_bound(It, It, const E &, CP);
template bool binary_search(It, It, const E &);
template bool binary_search(It, It, const E &, CP);
template pair<It, It> equal_range(It, It, const E &);
template pair<It, It> equal_range(It, It, const E &, CP);
template It is_sorted_until(It, It);
template bool is_sorted(It, It);
template It merge(It, It, It, It, It);
template const E &min(const E &, const E &);
template const E &min(const E &, const E &, CP);
template const E &max(const E &, const E &);
template const E &max(const E &, const E &, CP);
template pair<const E &, const E &> minmax(const E &, const E &);
template pair<const E &, const E &> minmax(const E &, const E &, CP);
template It min_element(It, It);
template It max_element(It, It);
template pair<It, It> minmax_element(It, It);
template void swap(E &, E &);
template void iota(It, It, E);
template E accumulate(It, It, E);
template It fill_n(It, size_t, const E &);
template bool equal(Ci, Ci, Ci, Ci);
}
#include <ttl/array.hpp>
namespace ttl {
template struct array<E, 7>;
template struct pair<E, E>;
template pair<E, E>::pair(const pair<const E, E> &);
template pair<E, E> &pair<E, E>::operator=(const pair<const E, E> &);
template bool operator==(const array<E, 7> &, const array<E, 7> &);
template bool operator!=(const array<E, 7> &, const array<E, 7> &);
template bool operator==(const pair<E, E> &, const pair<E, E> &);
template bool operator!=(const pair<E, E> &, const pair<E, E> &);
template struct select_first<pair<E, E> >;
template struct select_second<pair<E, E> >;
template struct select_same<E>;
template unsigned int countof(const E (&)[7]);
template int distance(It, It);
inline E *c_advance(E *i, int d) { advance(i, d); return i; }
inline E &c_first(pair<E, E> &p) { return select_first<pair<E, E> >()(p); }
inline const E &c_first_c(const pair<E, E> &p) { return select_first<pair<E, E> >()(p); }
inline E &c_second(pair<E, E> &p) { return select_second<pair<E, E> >()(p); }
inline const E &c_second_c(const pair<E, E> &p) { return select_second<pair<E, E> >()(p); }
inline const E &c_same(const E &p) { return select_same<E>()(p); }
inline pair<E *, E *> c_make_pair(E *a, E *b) { return make_pair(a, b); }
inline pair<E *, E *> c_pair_conv(const pair<E *, E *> &a) { pair<E *, E *> p = a; pair<E *, E *> q; q = p; return q; }
inline pair<E *, E *> c_pair_swap(pair<E *, E *> a, pair<E *, E *> b) { a.swap(b); return a; }
template struct less<E>; template struct greater<E>; template struct equal_to<E>; template struct not_equal_to<E>;
}
'''

from contracts.emit import _eq, _lt, _gt, _ne, _pred, _into, _fcall, _inc
FAM = Family(name='algo', elems={'E'},
    value_classes=[r'P', r'BP', r'CP', r'F', r'G', r'UO', r'BO', r'ttl::pair<E \*, E \*>', r'ttl::pair<const E &, const E &>', r'ttl::select_.*', r'ttl::less<.*', r'ttl::greater<.*', r'ttl::equal_to<.*', r'ttl::not_equal_to<.*'],
    symbolic={(r'ttl::array<.*', 'N'): ('nn()', 'u64'), (r'', 'N'): ('nn()', 'u64')},
    fields={(r'ttl::array<.*', 'elements_'): ('embed', 0), (r'ttl::pair<(const )?E, E>', 'first'): ('eslot', 0), (r'ttl::pair<(const )?E, E>', 'second'): ('eslot', 1)},
    opaque=[(r'operator==', _eq), (r'operator<', _lt), (r'operator>', _gt), (r'operator!=', _ne), (r'operator\+', _into('plus_into')),
            (r'P::operator\(\)', _pred('p_call')), (r'BP::operator\(\)', _pred('bp_call')), (r'CP::operator\(\)', _pred('cp_call')),
            (r'F::operator\(\)', _fcall), (r'G::operator\(\)', _into('g_into')), (r'UO::operator\(\)', _into('uop_into')),
            (r'BO::operator\(\)', _into('bop_into')), (r'E::operator\+\+', _inc)])

PRELUDE = ['common.rs', 'elem.rs', 'algo.rs', 'eops.rs']

I, V = 'E *', 'const E &'
M, N = 'old(h).e@', 'final(h).e@'
RNG = ['first@ <= last@', 'live(%s, first@, last@)' % M]
VAL = ['el(%s, value@)' % M]
SAME = '*final(h) == *old(h)'
def fa(v, lo, hi, body):      # forall over addresses
    return 'forall|%s: int| %s <= %s < %s ==> %s' % (v, lo, v, hi, body)
def eva(m, p): return '#[trigger] ev(%s, %s)' % (m, p)

VERUS = ['--rlimit', '60']
FNS = []
def fn(name, ps, props, *a, label=None, **k):
    FNS.append(Fn(label or name, 'ttl::' + name, ps, props, *a, **k))

# ---- find
def findlike(label, name, ps, test, extra):
    fn(name, ps, 'C18', RNG + extra,
       ['first@ <= ret@ <= last@', fa('p', 'first@', 'ret@', '!' + test(eva(M, 'p'))),
        'ret@ < last@ ==> ' + test('ev(%s, ret@)' % M), SAME],
       [dict(inv=['first_in@ <= first@ <= last@', fa('p', 'first_in@', 'first@', '!' + test(eva('h.e@', 'p')))], dec='last@ - first@')], label=label)
findlike('find', 'find', [I, I, V], lambda x: 'veq(%s, ev(old(h).e@, value@))' % x if 'old' in x else 'veq(%s, ev(h.e@, value@))' % x, VAL)
findlike('find_if', 'find_if', [I, I, 'P'], lambda x: 'pp(%s)' % x, [])
findlike('find_if_not', 'find_if_not', [I, I, 'P'], lambda x: '!pp(%s)' % x, [])

# ---- search
SUB = ['subfirst@ <= sublast@', 'live(%s, subfirst@, sublast@)' % M]
for lab, ps, sp, ext in (('search', [I] * 4, 'search_at', 'veq'), ('search_p', [I] * 4 + ['BP'], 'search_atp', 'bp')):
    hit = '%s(%%s, %%s, subfirst@, sublast@)' % sp
    fn('search', ps, 'C18', RNG + SUB,
       ['first@ <= ret@ <= last@', 'ret@ < last@ ==> ret@ + (sublast@ - subfirst@) <= last@ && ' + hit % (M, 'ret@'),
        'forall|p: int| first@ <= p < ret@ && p + (sublast@ - subfirst@) <= last@ ==> !#[trigger] ' + hit % (M, 'p'),
        SAME],
       [dict(inv=['first_in@ <= first@ <= last@',
                   'forall|p: int| first_in@ <= p < first@ && p + (sublast@ - subfirst@) <= last@ ==> !#[trigger] ' + hit % ('h.e@', 'p')], dec='last@ - first@'),
        dict(inv=['first@ <= i@ <= last@', 'subfirst@ <= s@ <= sublast@', 's@ - subfirst@ == i@ - first@',
                  fa('k', 'subfirst@', 's@', '%s(ev(h.e@, first@ + (k - subfirst@)), %s)' % (ext, eva('h.e@', 'k')))],

             brk='assert(!' + hit % ('h.e@', 'first@') + ');',
             dec='last@ - i@')], label=lab)

# ---- search_n
for lab, ps, sp, t in (('search_n', [I, I, 'int', V], 'run_at', 'veq'), ('search_n_p', [I, I, 'int', V, 'BP'], 'run_atp', 'bp')):
    v0, v1 = 'ev(%s, value@)' % M, 'ev(h.e@, value@)'
    fn('search_n', ps, 'C18', RNG + VAL,
       ['first@ <= ret@ <= last@', 'ret@ < last@ && count > 0 ==> ret@ + count <= last@ && %s(%s, ret@, count as int, %s)' % (sp, M, v0),
        'count <= 0 ==> ret@ == first@',
        'forall|p: int| first@ <= p < ret@ && p + count <= last@ && count > 0 ==> !#[trigger] %s(%s, p, count as int, %s)' % (sp, M, v0), SAME],
       [dict(inv=['first_in@ <= first@ <= last@', 'count > 0',
                  'forall|p: int| first_in@ <= p < first@ && p + count <= last@ ==> !#[trigger] %s(h.e@, p, count as int, %s)' % (sp, v1)], dec='last@ - first@',
             mid='assert forall|p: int| first_in@ <= p <= first@ && p + count <= last@ implies !#[trigger] %s(h.e@, p, count as int, %s) by { if p + count > first@ && p <= first@ { assert(!%s(ev(h.e@, first@), %s)); } }' % (sp, v1, t, v1)),
        dict(inv=['1 <= c <= count', 'candidate@ + c - 1 == first@', 'first_in@ <= candidate@', 'first@ < last@', 'count > 0',
                  'forall|p: int| first_in@ <= p < candidate@ && p + count <= last@ ==> !#[trigger] %s(h.e@, p, count as int, %s)' % (sp, v1),
                  '%s(h.e@, candidate@, c as int, %s)' % (sp, v1)],
             dec='count - c')], label=lab)

# ---- count
fn('count', [I, I, V], 'C18', RNG + VAL + ['last@ - first@ <= i32::MAX'],
   ['ret == count_eq(%s, first@, last@, ev(%s, value@))' % (M, M), SAME],
   [dict(inv=['first_in@ <= first@ <= last@', '0 <= c <= first@ - first_in@', 'c == count_eq(h.e@, first_in@, first@, ev(h.e@, value@))'], dec='last@ - first@')])
fn('count_if', [I, I, 'P'], 'C18', RNG + ['last@ - first@ <= i32::MAX'],
   ['ret == count_pp(%s, first@, last@)' % M, SAME],
   [dict(inv=['first_in@ <= first@ <= last@', '0 <= c <= first@ - first_in@', 'c == count_pp(h.e@, first_in@, first@)'], dec='last@ - first@')])
fn('all_of', [I, I, 'P'], 'C18', RNG, ['ret == (%s)' % fa('p', 'first@', 'last@', 'pp(%s)' % eva(M, 'p')), SAME])
fn('any_of', [I, I, 'P'], 'C18', RNG, ['ret == !(%s)' % fa('p', 'first@', 'last@', '!pp(%s)' % eva(M, 'p')), SAME])
fn('none_of', [I, I, 'P'], 'C18', RNG, ['ret == (%s)' % fa('p', 'first@', 'last@', '!pp(%s)' % eva(M, 'p')), SAME])

# ---- adjacent_find
for lab, ps, t in (('adjacent_find', [I, I], 'veq'), ('adjacent_find_p', [I, I, 'BP'], 'bp')):
    fn('adjacent_find', ps, 'C18', RNG,
       ['first@ <= ret@ <= last@', 'forall|p: int| first@ <= p < ret@ && p + 1 < last@ ==> !%s(#[trigger] ev(%s, p), ev(%s, p + 1))' % (t, M, M),
        'ret@ < last@ ==> ret@ + 1 < last@ && %s(ev(%s, ret@), ev(%s, ret@ + 1))' % (t, M, M), SAME],
       [dict(inv=['first_in@ <= first@', 'next@ == first@ + 1', 'next@ <= last@',
                  'forall|p: int| first_in@ <= p < first@ ==> !%s(#[trigger] ev(h.e@, p), ev(h.e@, p + 1))' % t], dec='last@ - next@')], label=lab)

# ---- equal, mismatch
R1 = ['first1@ <= last1@', 'live(%s, first1@, last1@)' % M]
R2n = ['live(%s, first2@, first2@ + (last1@ - first1@))' % M]
R2 = ['first2@ <= last2@', 'live(%s, first2@, last2@)' % M]
def pairwise(m, t, hi, f1='first1@', f2='first2@'):
    return 'forall|p: int| %s <= p < %s ==> %s(#[trigger] ev(%s, p), ev(%s, %s + (p - %s)))' % (f1, hi, t, m, m, f2, f1)
for t, sfx, bp, I in (('veq', '', [], 'E *'), ('bp', '_p', ['BP'], 'E *'), ('veq', '_k', [], 'const E *')):
    li = ['first1_in@ <= first1@ <= last1@', 'first2@ - first2_in@ == first1@ - first1_in@',
          'forall|p: int| first1_in@ <= p < first1@ ==> %s(#[trigger] ev(h.e@, p), ev(h.e@, first2_in@ + (p - first1_in@)))' % t]
    li4 = li + ['first2@ <= last2@']
    if sfx != '_k': fn('equal', [I] * 3 + bp, 'C18 C23', R1 + R2n, ['ret == (%s)' % pairwise(M, t, 'last1@'), SAME],
       [dict(inv=li, dec='last1@ - first1@')], label='equal3' + sfx)
    fn('equal', [I] * 4 + bp, 'C18 C23', R1 + R2, ['ret == (last1@ - first1@ == last2@ - first2@ && %s)' % pairwise(M, t, 'last1@'), SAME],
       [dict(inv=li4, dec='last1@ - first1@')], label='equal4' + sfx)
    en = ['first1@ <= ret.0@ <= last1@', 'ret.1@ - first2@ == ret.0@ - first1@', pairwise(M, t, 'ret.0@'), SAME]
    if sfx != '_k': fn('mismatch', [I] * 3 + bp, 'C18', R1 + R2n, en + ['ret.0@ < last1@ ==> !%s(ev(%s, ret.0@), ev(%s, ret.1@))' % (t, M, M)],
       [dict(inv=li, dec='last1@ - first1@')], label='mismatch3' + sfx)
    if sfx != '_k': fn('mismatch', [I] * 4 + bp, 'C18', R1 + R2, en + ['ret.1@ <= last2@', 'ret.0@ < last1@ && ret.1@ < last2@ ==> !%s(ev(%s, ret.0@), ev(%s, ret.1@))' % (t, M, M)],
       [dict(inv=li4, dec='last1@ - first1@')], label='mismatch4' + sfx)

I = 'E *'
fn('for_each', [I, I, 'F'], 'C18', RNG,
   ['same_out(%s, %s, first@, last@)' % (M, N), fa('p', 'first@', 'last@', '#[trigger] %s[p] == Slot::Live(fop(old(h).n@ + (p - first@), ev(%s, p)))' % (N, M)), 'final(h).n@ == old(h).n@ + (last@ - first@)'],
   [dict(inv=['first_in@ <= first@ <= last@', 'same_out(h0.e@, h.e@, first_in@, first@)', 'h.n@ == h0.n@ + (first@ - first_in@)',
              fa('p', 'first_in@', 'first@', '#[trigger] h.e@[p] == Slot::Live(fop(h0.n@ + (p - first_in@), ev(h0.e@, p)))')], dec='last@ - first@')])

# ---- modifying
DST = ['same_out(%s, %s, d_first@, ret@)' % (M, N)]
LIV = lambda a, b: 'live(h.e@, %s, %s)' % (a, b)
MODI = ['first_in@ <= first@ <= last@']
def notin(p, a, b): return '!(%s <= %s < %s)' % (a, p, b)
SW = lambda m, n, a, b: ['el(%s, %s)' % (n, a), 'el(%s, %s)' % (n, b), 'forall|p: int| #[trigger] %s[p] == (if p == %s { %s[%s] } else if p == %s { %s[%s] } else { %s[p] })' % (n, a, m, b, b, m, a, m)]
fn('swap', ['E &', 'E &'], 'C19 C22', ['el(%s, a@)' % M, 'el(%s, b@)' % M], SW(M, N, 'a@', 'b@') + ['final(h).n@ == old(h).n@'], label='swap_')
fn('iter_swap', [I, I], 'C19', ['el(%s, a@)' % M, 'el(%s, b@)' % M], SW(M, N, 'a@', 'b@') + ['final(h).n@ == old(h).n@'])
fn('swap_ranges', [I, I, I], 'C19', R1 + R2n + ['first2@ >= last1@ || first2@ + (last1@ - first1@) <= first1@'],
   ['ret@ == first2@ + (last1@ - first1@)', 
    'forall|p: int| #[trigger] %s[p] == (if first1@ <= p < last1@ { %s[p - first1@ + first2@] } else if first2@ <= p < ret@ { %s[p - first2@ + first1@] } else { %s[p] })' % (N, M, M, M)],
   [dict(inv=['first1_in@ <= first1@ <= last1@', 'first2@ - first2_in@ == first1@ - first1_in@', 
              'forall|p: int| #[trigger] h.e@[p] == (if first1_in@ <= p < first1@ { h0.e@[p - first1_in@ + first2_in@] } else if first2_in@ <= p < first2@ { h0.e@[p - first2_in@ + first1_in@] } else { h0.e@[p] })'],
         dec='last1@ - first1@')])

# exact(lo, hi, f): the destination [lo,hi) holds f(p) and nothing else changed
def exact(lo, hi, f):
    return ['same_out(%s, %s, %s, %s)' % (M, N, lo, hi), 'forall|p: int| %s <= p < %s ==> #[trigger] %s[p] == Slot::Live(%s)' % (lo, hi, N, f)]
def iexact(lo, hi, f):
    return ['same_out(h0.e@, h.e@, %s, %s)' % (lo, hi), 'forall|p: int| %s <= p < %s ==> #[trigger] h.e@[p] == Slot::Live(%s)' % (lo, hi, f)]
FRAME_N = ['final(h).n@ == old(h).n@']
fn('fill', [I, I, V], 'C19', RNG + VAL, exact('first@', 'last@', 'ev(%s, value@)' % M) + FRAME_N,
   [dict(inv=MODI + iexact('first_in@', 'first@', 'ev(h0.e@, value@)') + ['h.n@ == h0.n@', 'h.e@[value@] == h0.e@[value@]'], dec='last@ - first@')])
for _lab, _ct in (('fill_n', 'int'), ('fill_n_u', 'unsigned long')):
  fn('fill_n', [I, _ct, V], 'C19 C22', VAL + ['count > 0 ==> live(%s, first@, first@ + count)' % M],
   ['ret@ == first@ + (if count > 0 { count as int } else { 0 })'] + exact('first@', 'ret@', 'ev(%s, value@)' % M) + FRAME_N,
   [dict(inv=['first@ - first_in@ == count_in - count', 'count_in > 0 ==> 0 <= count <= count_in', 'count_in <= 0 ==> count == count_in'] + iexact('first_in@', 'first@', 'ev(h0.e@, value@)') + ['h.n@ == h0.n@', 'h.e@[value@] == h0.e@[value@]'], dec='count')], label=_lab)
DL = 'd_first@ + (last@ - first@)'
LD = ['live(%s, d_first@, %s)' % (M, DL)]
fn('copy', [I, I, I], 'C19', RNG + LD + ['d_first@ <= first@ || d_first@ >= last@'],
   ['ret@ == ' + DL] + exact('d_first@', 'ret@', 'ev(%s, p - d_first@ + first@)' % M) + FRAME_N,
   [dict(inv=MODI + ['d_first@ - d_first_in@ == first@ - first_in@', 'h.n@ == h0.n@'] + iexact('d_first_in@', 'd_first@', 'ev(h0.e@, p - d_first_in@ + first_in@)'), dec='last@ - first@')])
fn('copy_n', [I, 'int', I], 'C19', ['count > 0 ==> live(%s, first@, first@ + count)' % M, 'count > 0 ==> live(%s, result@, result@ + count)' % M, 'result@ <= first@ || result@ >= first@ + count'],
   ['ret@ == result@ + (if count > 0 { count as int } else { 0 })'] + exact('result@', 'ret@', 'ev(%s, p - result@ + first@)' % M) + FRAME_N,
   [dict(inv=['first@ - first_in@ == count_in - count', 'result@ - result_in@ == count_in - count', 'count_in > 0 ==> 0 <= count <= count_in', 'count_in <= 0 ==> count == count_in', 'h.n@ == h0.n@'] + iexact('result_in@', 'result@', 'ev(h0.e@, p - result_in@ + first_in@)'), dec='count')])
fn('copy_backward', [I, I, I], 'C19', RNG + ['live(%s, d_last@ - (last@ - first@), d_last@)' % M, 'd_last@ >= last@ || d_last@ <= first@'],
   ['ret@ == d_last@ - (last@ - first@)'] + exact('ret@', 'd_last@', 'ev(%s, p - d_last@ + last@)' % M) + FRAME_N,
   [dict(inv=['first@ <= last@ <= last_in@', 'd_last_in@ - d_last@ == last_in@ - last@', 'h.n@ == h0.n@'] + iexact('d_last@', 'd_last_in@', 'ev(h0.e@, p - d_last_in@ + last_in@)'), dec='last@ - first@')])
fn('generate', [I, I, 'G'], 'C19', RNG, exact('first@', 'last@', 'gop(old(h).n@ + (p - first@))') + ['final(h).n@ == old(h).n@ + (last@ - first@)'],
   [dict(inv=MODI + iexact('first_in@', 'first@', 'gop(h0.n@ + (p - first_in@))') + ['h.n@ == h0.n@ + (first@ - first_in@)'], dec='last@ - first@')])
fn('generate_n', [I, 'int', 'G'], 'C19', ['count > 0 ==> live(%s, first@, first@ + count)' % M],
   ['ret@ == first@ + (if count > 0 { count as int } else { 0 })'] + exact('first@', 'ret@', 'gop(old(h).n@ + (p - first@))') + ['final(h).n@ == old(h).n@ + (ret@ - first@)'],
   [dict(inv=['first@ - first_in@ == count_in - count', 'count_in > 0 ==> 0 <= count <= count_in', 'count_in <= 0 ==> count == count_in', 'h.n@ == h0.n@ + (first@ - first_in@)'] + iexact('first_in@', 'first@', 'gop(h0.n@ + (p - first_in@))'), dec='count')])
OUTV = lambda v, a='first@', b='last@': 'el(%s, %s@) && %s' % (M, v, notin(v + '@', a, b))
REPL = 'if veq(ev(%s, p), ev(%s, oldval@)) { ev(%s, newval@) } else { ev(%s, p) }'
REPLP = 'if pp(ev(%s, p)) { ev(%s, newval@) } else { ev(%s, p) }'
KEEP = lambda *vs: ['h.e@[%s@] == h0.e@[%s@]' % (v, v) for v in vs]
fn('replace', [I, I, V, V], 'C19', RNG + [OUTV('oldval'), OUTV('newval')], exact('first@', 'last@', REPL % (M, M, M, M)) + FRAME_N,
   [dict(inv=MODI + ['h.n@ == h0.n@'] + KEEP('oldval', 'newval') + iexact('first_in@', 'first@', REPL % (('h0.e@',) * 4)), dec='last@ - first@')])
fn('replace_if', [I, I, 'P', V], 'C19', RNG + [OUTV('newval')], exact('first@', 'last@', REPLP % (M, M, M)) + FRAME_N,
   [dict(inv=MODI + ['h.n@ == h0.n@'] + KEEP('newval') + iexact('first_in@', 'first@', REPLP % (('h0.e@',) * 3)), dec='last@ - first@')])
q = 'p - d_first@ + first@'
fn('replace_copy', [I, I, I, V, V], 'C19', RNG + LD + ['d_first@ <= first@ || d_first@ >= last@', OUTV('oldval', 'd_first@', DL), OUTV('newval', 'd_first@', DL)],
   ['ret@ == ' + DL] + exact('d_first@', 'ret@', (REPL % (M, M, M, M)).replace('(old(h).e@, p)', '(old(h).e@, %s)' % q)) + FRAME_N,
   [dict(inv=MODI + ['d_first@ - d_first_in@ == first@ - first_in@', 'h.n@ == h0.n@'] + KEEP('oldval', 'newval') + iexact('d_first_in@', 'd_first@', (REPL % (('h0.e@',) * 4)).replace('(h0.e@, p)', '(h0.e@, p - d_first_in@ + first_in@)')), dec='last@ - first@')])
fn('replace_copy_if', [I, I, I, 'P', V], 'C19', RNG + LD + ['d_first@ <= first@ || d_first@ >= last@', OUTV('newval', 'd_first@', DL)],
   ['ret@ == ' + DL] + exact('d_first@', 'ret@', (REPLP % (M, M, M)).replace('(old(h).e@, p)', '(old(h).e@, %s)' % q)) + FRAME_N,
   [dict(inv=MODI + ['d_first@ - d_first_in@ == first@ - first_in@', 'h.n@ == h0.n@'] + KEEP('newval') + iexact('d_first_in@', 'd_first@', (REPLP % (('h0.e@',) * 3)).replace('(h0.e@, p)', '(h0.e@, p - d_first_in@ + first_in@)')), dec='last@ - first@')])
# filters: the destination must have room for the kept elements only
for nm, lab, ps, f, f0, fi, ext in (
     ('copy_if', 'copy_if', [I, I, I, 'P'], 'ypp()', 'ypp()', 'ypp()', []),
     ('remove_copy_if', 'remove_copy_if', [I, I, I, 'P'], 'npp()', 'npp()', 'npp()', []),
     ('remove_copy', 'remove_copy', [I, I, I, V], 'ne_of(ev(%s, value@))' % M, 'ne_of(ev(h0.e@, value@))', None, ['value'])):
    room = 'd_first@ + kept(%s, first@, last@, %s).len()' % (M, f)
    fn(nm, ps, 'C19', RNG + ['live(%s, d_first@, %s)' % (M, room), '%s <= first@ || d_first@ >= last@' % room] + [OUTV(v, 'd_first@', room) for v in ext],
       ['ret@ == ' + room, 'same_out(%s, %s, d_first@, ret@)' % (M, N), 'holds(%s, d_first@, kept(%s, first@, last@, %s))' % (N, M, f)] + FRAME_N,
       [dict(inv=MODI + ['d_first@ == d_first_in@ + kept(h0.e@, first_in@, first@, %s).len()' % f0, 'h.n@ == h0.n@',
                         'kept(h0.e@, first_in@, first@, %s).len() <= kept(h0.e@, first_in@, last@, %s).len()' % (f0, f0)] + KEEP(*ext) +
                        ['same_out(h0.e@, h.e@, d_first_in@, d_first@)', 'holds(h.e@, d_first_in@, kept(h0.e@, first_in@, first@, %s))' % f0],
             top='proof { kept_mono(h0.e@, first_in@, first@ + 1, last@, %s); }' % f0, dec='last@ - first@')], label=lab)
# in place filters
for nm, ps, f, f0, ext in (('remove', [I, I, V], 'ne_of(ev(%s, value@))' % M, 'ne_of(ev(h0.e@, value@))', ['value']),
                           ('remove_if', [I, I, 'P'], 'npp()', 'npp()', [])):
    fn(nm, ps, 'C19', RNG + [OUTV(v) for v in ext],
       ['ret@ == first@ + kept(%s, first@, last@, %s).len()' % (M, f), 'same_out(%s, %s, first@, last@)' % (M, N), 'live(%s, first@, last@)' % N,
        'holds(%s, first@, kept(%s, first@, last@, %s))' % (N, M, f)] + FRAME_N,
       [dict(inv=['first_in@ <= first@ <= i@ < last@', 'first@ == first_in@ + kept(h0.e@, first_in@, i@ + 1, %s).len()' % f0, 'h.n@ == h0.n@'] + KEEP(*ext) +
                 ['same_out(h0.e@, h.e@, first_in@, first@)', 'holds(h.e@, first_in@, kept(h0.e@, first_in@, i@ + 1, %s))' % f0, 'live(h.e@, first_in@, last@)'],
             before='proof { kept_none(h0.e@, first_in@, first@, %s); }' % f0,
             dec='last@ - i@')],
       exit='proof { if first@ == last@ { kept_none(h0.e@, first_in@, first@, %s); } }' % f0)
fn('transform', [I, I, I, 'UO'], 'C19', ['first1@ <= last1@', 'live(%s, first1@, last1@)' % M, 'live(%s, d_first@, d_first@ + (last1@ - first1@))' % M, 'd_first@ <= first1@ || d_first@ >= last1@'],
   ['ret@ == d_first@ + (last1@ - first1@)'] + exact('d_first@', 'ret@', 'uop(ev(%s, p - d_first@ + first1@))' % M) + FRAME_N,
   [dict(inv=['first1_in@ <= first1@ <= last1@', 'd_first@ - d_first_in@ == first1@ - first1_in@', 'h.n@ == h0.n@'] + iexact('d_first_in@', 'd_first@', 'uop(ev(h0.e@, p - d_first_in@ + first1_in@))'), dec='last1@ - first1@')], label='transform1')
fn('transform', [I, I, I, I, 'BO'], 'C19', R1 + R2n + ['live(%s, d_first@, d_first@ + (last1@ - first1@))' % M, 'd_first@ <= first1@ || d_first@ >= last1@', 'd_first@ <= first2@ || d_first@ >= first2@ + (last1@ - first1@)'],
   ['ret@ == d_first@ + (last1@ - first1@)'] + exact('d_first@', 'ret@', 'bop(ev(%s, p - d_first@ + first1@), ev(%s, p - d_first@ + first2@))' % (M, M)) + FRAME_N,
   [dict(inv=['first1_in@ <= first1@ <= last1@', 'd_first@ - d_first_in@ == first1@ - first1_in@', 'first2@ - first2_in@ == first1@ - first1_in@', 'h.n@ == h0.n@'] + iexact('d_first_in@', 'd_first@', 'bop(ev(h0.e@, p - d_first_in@ + first1_in@), ev(h0.e@, p - d_first_in@ + first2_in@))'), dec='last1@ - first1@')], label='transform2')
fn('reverse', [I, I], 'C19', RNG, [ 'forall|p: int| #[trigger] %s[p] == (if first@ <= p < last@ { %s[first@ + last@ - 1 - p] } else { %s[p] })' % (N, M, M)] + FRAME_N,
   [dict(inv=['first_in@ <= first@ <= last@ <= last_in@', 'first@ - first_in@ == last_in@ - last@', 'h.n@ == h0.n@', 
              'forall|p: int| #[trigger] h.e@[p] == (if first_in@ <= p < first@ || last@ <= p < last_in@ { h0.e@[first_in@ + last_in@ - 1 - p] } else { h0.e@[p] })'], dec='last@ - first@')])
fn('reverse_copy', [I, I, I], 'C19', RNG + LD + ['%s <= first@ || d_first@ >= last@' % DL],
   ['ret@ == ' + DL] + exact('d_first@', 'ret@', 'ev(%s, last@ - 1 - (p - d_first@))' % M) + FRAME_N,
   [dict(inv=['first@ <= last@ <= last_in@', 'd_first@ - d_first_in@ == last_in@ - last@', 'h.n@ == h0.n@'] + iexact('d_first_in@', 'd_first@', 'ev(h0.e@, last_in@ - 1 - (p - d_first_in@))'), dec='last@ - first@')])

# ---- binary searches: for any partitioned range; sorted ranges are partitioned (lemma)
SORTED = ['sorted(%s, first@, last@)' % M]; SORTEDC = ['sortedc(%s, first@, last@)' % M]
LEN = ['last@ - first@ <= i32::MAX']
BS_INV = lambda pre, post: ['first_in@ <= first@', '0 <= count', 'first@ + count <= last@', 'forall|p: int| first_in@ <= p < first@ ==> ' + pre, 'forall|p: int| first@ + count <= p < last@ ==> ' + post]
for sfx, cmp_, srt, ps in (('', 'vlt', 'sorted', []), ('_c', 'cp', 'sortedc', ['CP'])):
    lo = lambda m, a='p': '%s(#[trigger] ev(%s, %s), ev(%s, value@))' % (cmp_, m, a, m)
    hi = lambda m, a='p': '%s(ev(%s, value@), #[trigger] ev(%s, %s))' % (cmp_, m, m, a)
    part = lambda t: 'forall|i: int, j: int| first@ <= i <= j < last@ && %s ==> %s'
    plo = 'forall|i: int, j: int| first@ <= i < j < last@ && %s(#[trigger] ev(%s, j), ev(%s, value@)) ==> %s(#[trigger] ev(%s, i), ev(%s, value@))' % (cmp_, M, M, cmp_, M, M)
    phi = 'forall|i: int, j: int| first@ <= i < j < last@ && %s(ev(%s, value@), #[trigger] ev(%s, i)) ==> %s(ev(%s, value@), #[trigger] ev(%s, j))' % (cmp_, M, M, cmp_, M, M)
    srtreq = ['%s(%s, first@, last@)' % (srt, M)]
    ent = 'broadcast use {ax_vlt_irr, ax_vlt_asym, ax_vlt_neg, ax_cp_irr, ax_cp_asym, ax_cp_neg}; assert(%s); assert(%s);' % (plo.replace(M, 'h.e@'), phi.replace(M, 'h.e@'))
    fn('lower_bound', [I, I, V] + ps, 'C20', RNG + VAL + LEN + srtreq,
       ['first@ <= ret@ <= last@', 'forall|p: int| first@ <= p < ret@ ==> ' + lo(M), 'forall|p: int| ret@ <= p < last@ ==> !' + lo(M), SAME],
       [dict(inv=BS_INV(lo('h.e@'), '!' + lo('h.e@')), dec='count')], entry='proof { %s }' % ent, label='lower_bound' + sfx)
    fn('upper_bound', [I, I, V] + ps, 'C20', RNG + VAL + LEN + srtreq,
       ['first@ <= ret@ <= last@', 'forall|p: int| first@ <= p < ret@ ==> !' + hi(M), 'forall|p: int| ret@ <= p < last@ ==> ' + hi(M), SAME],
       [dict(inv=BS_INV('!' + hi('h.e@'), hi('h.e@')), dec='count')], entry='proof { %s }' % ent, label='upper_bound' + sfx)
    eqv = '(!%s(#[trigger] ev(%s, p), ev(%s, value@)) && !%s(ev(%s, value@), ev(%s, p)))' % (cmp_, M, M, cmp_, M, M)
    fn('binary_search', [I, I, V] + ps, 'C20', RNG + VAL + LEN + srtreq,
       ['ret == exists|p: int| first@ <= p < last@ && ' + eqv, SAME], entry='proof { %s }' % ent, label='binary_search' + sfx)
    fn('equal_range', [I, I, V] + ps, 'C20', RNG + VAL + LEN + srtreq,
       ['first@ <= ret.0@ <= ret.1@ <= last@', 'forall|p: int| first@ <= p < ret.0@ ==> ' + lo(M), 'forall|p: int| ret.0@ <= p < last@ ==> !' + lo(M),
        'forall|p: int| first@ <= p < ret.1@ ==> !' + hi(M), 'forall|p: int| ret.1@ <= p < last@ ==> ' + hi(M), SAME], entry='proof { %s }' % ent, label='equal_range' + sfx)
# ---- sortedness, merge, minimum/maximum
ORD = 'broadcast use {ax_vlt_irr, ax_vlt_asym, ax_vlt_neg, ax_cp_irr, ax_cp_asym, ax_cp_neg};'
fn('is_sorted_until', [I, I], 'C21', RNG,
   ['first@ <= ret@ <= last@', 'forall|p: int| first@ < p < ret@ ==> !vlt(#[trigger] ev(%s, p), ev(%s, p - 1))' % (M, M),
    'ret@ < last@ ==> first@ < ret@ && vlt(ev(%s, ret@), ev(%s, ret@ - 1))' % (M, M), SAME],
   [dict(inv=['first_in@ <= first@ < last@', 'next@ == first@', 'forall|p: int| first_in@ < p <= first@ ==> !vlt(#[trigger] ev(h.e@, p), ev(h.e@, p - 1))'], dec='last@ - first@')])
fn('is_sorted', [I, I], 'C21', RNG, ['ret == (forall|p: int| first@ < p < last@ ==> !vlt(#[trigger] ev(%s, p), ev(%s, p - 1)))' % (M, M), SAME])
A = 'ev(%s, a@)' % M; B = 'ev(%s, b@)' % M
AB = ['el(%s, a@)' % M, 'el(%s, b@)' % M]
for sfx, c, ps in (('', 'vlt', []), ('_c', 'cp', ['CP'])):
    fn('min', [V, V] + ps, 'C21', AB, ['ret@ == (if %s(%s, %s) { b@ } else { a@ })' % (c, B, A), SAME], label='min' + sfx)
    fn('max', [V, V] + ps, 'C21', AB, ['ret@ == (if %s(%s, %s) { b@ } else { a@ })' % (c, A, B), SAME], label='max' + sfx)
    fn('minmax', [V, V] + ps, 'C21', AB, ['ret.0@ == (if %s(%s, %s) { b@ } else { a@ })' % (c, B, A), 'ret.1@ == (if %s(%s, %s) { a@ } else { b@ })' % (c, B, A), SAME], label='minmax' + sfx)
def best(r, m, lt, lo='first@', hi='last@'):
    return ['forall|p: int| %s <= p < %s ==> !%s' % (lo, hi, lt('#[trigger] ev(%s, p)' % m, 'ev(%s, %s)' % (m, r))), 'forall|p: int| %s <= p < %s ==> %s' % (lo, r, lt('ev(%s, %s)' % (m, r), '#[trigger] ev(%s, p)' % m))]
LT = lambda x, y: 'vlt(%s, %s)' % (x, y)
GT = lambda x, y: 'vlt(%s, %s)' % (y, x)
for nm, var, lt in (('min_element', 'smallest', LT), ('max_element', 'largest', GT)):
    fn(nm, [I, I], 'C21', RNG, ['first@ < last@ ==> first@ <= ret@ < last@', 'first@ == last@ ==> ret@ == last@'] + ['first@ < last@ ==> (%s)' % x for x in best('ret@', M, lt)] + [SAME],
       [dict(inv=['first_in@ <= %s@ < first@ <= last@' % var] + best(var + '@', 'h.e@', lt, 'first_in@', 'first@'), dec='last@ - first@')], entry='proof { broadcast use {ax_vlt_irr, ax_vlt_asym, ax_vlt_neg}; }')
fn('minmax_element', [I, I], 'C21', RNG, ['first@ < last@ ==> first@ <= ret.0@ < last@ && first@ <= ret.1@ < last@', 'first@ == last@ ==> ret.0@ == last@ && ret.1@ == last@']
   + ['first@ < last@ ==> (%s)' % x for x in best('ret.0@', M, LT) + best('ret.1@', M, GT)] + [SAME])
OUT = 'output@ + (last1@ - first1@) + (last2@ - first2@)'
R0 = 'merged(h0.e@, first1_in@, last1@, first2_in@, last2@)'
fn('merge', [I] * 5, 'C21', R1 + R2 + ['live(%s, output@, %s)' % (M, OUT), '%s <= first1@ || output@ >= last1@' % OUT, '%s <= first2@ || output@ >= last2@' % OUT],
   ['ret@ == ' + OUT, 'same_out(%s, %s, output@, ret@)' % (M, N), 'holds(%s, output@, merged(%s, first1@, last1@, first2@, last2@))' % (N, M)],
   [dict(inv=['first1_in@ <= first1@ <= last1@', 'first2_in@ <= first2@ <= last2@', 'output@ - output_in@ == (first1@ - first1_in@) + (first2@ - first2_in@)',
              'same_out(h0.e@, h.e@, output_in@, output@)', 'mm == ' + R0,
              'forall|i: int| output_in@ <= i < output@ ==> #[trigger] h.e@[i] == Slot::Live(mm[i - output_in@])',
              'mm.skip(output@ - output_in@) =~= merged(h0.e@, first1@, last1@, first2@, last2@)'],
         top='let ghost cur = merged(h0.e@, first1@, last1@, first2@, last2@); proof { let k = output@ - output_in@; merged_len(h0.e@, first1@, last1@, first2@, last2@); assert(mm.skip(k)[0] == mm[k]); assert(mm.skip(k).skip(1) =~= mm.skip(k + 1)); }',
         bot='proof { assert(cur.skip(1) =~= merged(h0.e@, first1@, last1@, first2@, last2@)); }',
         dec='last1@ - first1@ + last2@ - first2@')],
   entry='let ghost mm = merged(h0.e@, first1@, last1@, first2@, last2@); proof { merged_len(h0.e@, first1@, last1@, first2@, last2@); assert(mm.skip(0) =~= mm); }',
   exit='proof { assert forall|i: int| output@ <= i < ret@ implies #[trigger] h.e@[i] == Slot::Live(mm[i - output_in@]) by { assert(mm.skip(output@ - output_in@)[i - output@] == mm[i - output_in@]); } }')

# ---- numeric
fn('iota', [I, I, 'E'], 'C22', RNG + ['el(%s, value@)' % M, notin('value@', 'first@', 'last@')],
   ['forall|p: int| first@ <= p < last@ ==> #[trigger] %s[p] == Slot::Live(inc_n(p - first@, ev(%s, value@)))' % (N, M),
    'forall|p: int| !(first@ <= p < last@) && p != value@ ==> #[trigger] %s[p] == %s[p]' % (N, M), 'el(%s, value@)' % N],
   [dict(inv=MODI + ['h.e@[value@] == Slot::Live(inc_n(first@ - first_in@, ev(h0.e@, value@)))',
                     'forall|p: int| first_in@ <= p < first@ ==> #[trigger] h.e@[p] == Slot::Live(inc_n(p - first_in@, ev(h0.e@, value@)))',
                     'forall|p: int| !(first_in@ <= p < first@) && p != value@ ==> #[trigger] h.e@[p] == h0.e@[p]'], dec='last@ - first@')])
fn('accumulate', [I, I, 'E'], 'C22', RNG + ['el(%s, value@)' % M, notin('value@', 'first@', 'last@'), 'eraw(%s, rslot@)' % M],
   ['%s[rslot@] == Slot::Live(fold_plus(%s, first@, last@, ev(%s, value@)))' % (N, M, M), 'el(%s, value@)' % N,
    'forall|p: int| p != rslot@ && p != value@ ==> #[trigger] %s[p] == %s[p]' % (N, M)],
   [dict(inv=MODI + ['h.e@[value@] == Slot::Live(fold_plus(h0.e@, first_in@, first@, ev(h0.e@, value@)))',
                     'forall|p: int| p != value@ ==> #[trigger] h.e@[p] == h0.e@[p]'], dec='last@ - first@')])
# ---- functional
for nm, body in (('less', 'vlt(%s, %s)' % (A, B)), ('greater', 'vlt(%s, %s)' % (B, A)), ('equal_to', 'veq(%s, %s)' % (A, B)), ('not_equal_to', '!veq(%s, %s)' % (A, B))):
    fn('%s<E>::operator()' % nm, [V, V], 'C20 C21', AB, ['ret == ' + body, SAME], label='fo_' + nm)
# ---- array<E, N>, for every N
AR = 'ttl::array<E, 7>::'
def ar(name, ps, req, ens, loops=(), const=None, label=None, props='C22', **k):
    f = Fn(label or 'array_' + name, AR + name, ps, props, req, ens, loops, **k)
    f.const = const
    FNS.append(f)
ALIVE = 'live(%s, this@, this@ + NN())' % M
for c, sfx in ((False, ''), (True, '_k')):
    ar('begin', [], [], ['ret@ == this@', SAME], const=c, label='array_begin' + sfx)
    ar('end', [], [], ['ret@ == this@ + NN()', SAME], const=c, label='array_end' + sfx)
    ar('data', [], [], ['ret@ == this@', SAME], const=c, label='array_data' + sfx)
    ar('operator[]', ['unsigned long'], ['i < NN()'], ['ret@ == this@ + i', SAME], const=c, label='array_idx' + sfx)
    ar('at', ['unsigned long'], ['i < NN()'], ['ret@ == this@ + i', SAME], const=c, label='array_at' + sfx)
    ar('front', [], ['NN() > 0'], ['ret@ == this@', SAME], const=c, label='array_front' + sfx)
    ar('back', [], ['NN() > 0'], ['ret@ == this@ + NN() - 1', SAME], const=c, label='array_back' + sfx)
ar('cbegin', [], [], ['ret@ == this@', SAME]); ar('cend', [], [], ['ret@ == this@ + NN()', SAME])
ar('size', [], [], ['ret == NN()', SAME]); ar('max_size', [], [], ['ret == NN()', SAME]); ar('empty', [], [], ['ret == (NN() == 0)', SAME])
ar('fill', [V], [ALIVE, 'el(%s, v@)' % M], exact('this@', 'this@ + NN()', 'ev(%s, v@)' % M))
ar('swap', ['re:array<E,7>&'], [ALIVE, 'live(%s, other@, other@ + NN())' % M, 'other@ >= this@ + NN() || other@ + NN() <= this@'],
   ['forall|p: int| #[trigger] %s[p] == (if this@ <= p < this@ + NN() { %s[p - this@ + other@] } else if other@ <= p < other@ + NN() { %s[p - other@ + this@] } else { %s[p] })' % (N, M, M, M)])
AEQ = '(forall|p: int| a@ <= p < a@ + NN() ==> veq(#[trigger] ev(%s, p), ev(%s, b@ + (p - a@))))' % (M, M)
ABL = ['live(%s, a@, a@ + NN())' % M, 'live(%s, b@, b@ + NN())' % M]
fn('operator==', ['const array<E, 7> &'] * 2, 'C22 C23', ABL, ['ret == ' + AEQ, SAME], label='array_eq')
fn('operator!=', ['const array<E, 7> &'] * 2, 'C22 C23', ABL, ['ret == !' + AEQ, SAME], label='array_ne')
# ---- pair<E, E>: first at this, second at this + 1
PR = 'ttl::pair<E, E>::'
def pr(name, ps, req, ens, label=None, props='C22', **k):
    f = Fn(label or 'pair_' + name, PR + name, ps, props, req, ens, **k)
    FNS.append(f)
PRAW = 'eraw({0}, this@) && eraw({0}, this@ + 1)'.format(M)
def pset(a, b):
    return ['%s[this@] == Slot::Live(%s)' % (N, a), '%s[this@ + 1] == Slot::Live(%s)' % (N, b), 'forall|p: int| p != this@ && p != this@ + 1 ==> #[trigger] %s[p] == %s[p]' % (N, M)]
OL = 'el({0}, other@) && el({0}, other@ + 1)'.format(M)
TL = 'el({0}, this@) && el({0}, this@ + 1)'.format(M)
ov = ('ev(%s, other@)' % M, 'ev(%s, other@ + 1)' % M)
pr('ctor', [], [PRAW], pset('vdef()', 'vdef()'), label='pair_ctor')
pr('ctor', ['E', 'E'], [PRAW, 'el({0}, first_v@) && el({0}, second_v@)'.format(M)] if False else [PRAW, 'el({0}, _first@) && el({0}, _second@)'.format(M)], pset('ev(%s, _first@)' % M, 'ev(%s, _second@)' % M), label='pair_ctor2')
pr('ctor', ['re:constpair<E,E>&'], [PRAW, OL], pset(*ov), label='pair_copy')
DISJ = 'other@ == this@ || other@ >= this@ + 2 || other@ + 2 <= this@'
pr('operator=', ['re:constpair<E,E>&'], [TL, OL, DISJ], pset(*ov) + ['ret@ == this@'], label='pair_assign')
pr('ctor', ['re:constpair<constE,E>&'], [PRAW, OL], pset(*ov), label='pair_conv')
pr('operator=', ['re:constpair<constE,E>&'], [TL, OL, DISJ], pset(*ov) + ['ret@ == this@'], label='pair_conv_assign')
pr('swap', ['re:pair<E,E>&'], [TL, OL, 'other@ >= this@ + 2 || other@ + 2 <= this@'],
   ['forall|p: int| #[trigger] %s[p] == (if p == this@ { %s[other@] } else if p == this@ + 1 { %s[other@ + 1] } else if p == other@ { %s[this@] } else if p == other@ + 1 { %s[this@ + 1] } else { %s[p] })' % (N, M, M, M, M, M)])
PEQ = '(veq(ev({0}, x@), ev({0}, y@)) && veq(ev({0}, x@ + 1), ev({0}, y@ + 1)))'.format(M)
PX = ['el({0}, x@) && el({0}, x@ + 1) && el({0}, y@) && el({0}, y@ + 1)'.format(M)]
fn('operator==', ['re:constpair<E,E>&'] * 2, 'C22', PX, ['ret == ' + PEQ, SAME], label='pair_eq')
fn('operator!=', ['re:constpair<E,E>&'] * 2, 'C22', PX, ['ret == !' + PEQ, SAME], label='pair_ne')
# ---- the small helpers of utility.hpp, through one-line clients
fn('countof', ['re:.*E.*7.*'], 'C22', ['NN() <= 0xffffffff'], ['ret == NN()', SAME])
fn('distance', [I, I], 'C22', ['first@ <= last@', 'last@ - first@ <= 0x7fffffff'], ['ret == last@ - first@', SAME])
fn('c_advance', None, 'C22', [], ['ret@ == i@ + d', SAME])
for c in ('', '_c'):
    fn('c_first' + c, None, 'C22', [], ['ret@ == p@', SAME])
    fn('c_second' + c, None, 'C22', [], ['ret@ == p@ + 1', SAME])
fn('c_same', None, 'C22', [], ['ret@ == p@', SAME])
fn('c_make_pair', None, 'C22', [], ['ret.0@ == a@ && ret.1@ == b@', SAME])
fn('c_pair_conv', None, 'C22', [], ['ret.0@ == a_0@ && ret.1@ == a_1@', SAME])
fn('c_pair_swap', None, 'C22', [], ['ret.0@ == b_0@ && ret.1@ == b_1@', SAME])
