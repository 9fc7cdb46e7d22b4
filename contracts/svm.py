"""Contracts of sorted_vector_map.hpp: C14, parts of C23."""
from lib.family import Fn
from lib.xlate import Family
from contracts.emit import _eq, _pred

M = 'sorted_vector_map<E, E, CP>'
TU = r'''
#include <ttl/types.hpp>
#include <ttl/utility.hpp>
#include <ttl/functional.hpp>
#include <ttl/sorted_vector_map.hpp>
struct E { E(); E(const E &); ~E(); E &operator=(const E &); int v; };
bool operator==(const E &, const E &);
struct CP { bool operator()(const E &, const E &) const; };
namespace ttl {
template class @;
typedef pair<E, E> PE;
inline @::iterator s_it_inc(@::iterator i) { return ++i; }
inline @::iterator s_it_dec(@::iterator i) { return --i; }
inline @::iterator s_it_pinc(@::iterator i) { return i++; }
inline @::iterator s_it_pdec(@::iterator i) { return i--; }
inline @::iterator s_it_pinc2(@::iterator i) { i++; return i; }
inline @::iterator s_it_pdec2(@::iterator i) { i--; return i; }
inline pair<E, E> &s_it_get(@::iterator i) { return *i; }
inline pair<E, E> *s_it_arrow(@::iterator i) { return i.operator->(); }
inline bool s_it_eq(@::iterator i, @::iterator j) { return i == j; }
inline bool s_it_ne(@::iterator i, @::iterator j) { return i != j; }
inline bool s_it_eqc(@::iterator i, @::const_iterator j) { return i == j; }
inline bool s_it_nec(@::iterator i, @::const_iterator j) { return i != j; }
inline @::const_iterator s_ci_inc(@::const_iterator i) { return ++i; }
inline @::const_iterator s_ci_dec(@::const_iterator i) { return --i; }
inline @::const_iterator s_ci_pinc(@::const_iterator i) { return i++; }
inline @::const_iterator s_ci_pdec(@::const_iterator i) { return i--; }
inline @::const_iterator s_ci_pinc2(@::const_iterator i) { i++; return i; }
inline @::const_iterator s_ci_pdec2(@::const_iterator i) { i--; return i; }
inline const pair<E, E> &s_ci_get(@::const_iterator i) { return *i; }
inline const pair<E, E> *s_ci_arrow(@::const_iterator i) { return i.operator->(); }
inline bool s_ci_eq(@::const_iterator i, @::const_iterator j) { return i == j; }
inline bool s_ci_ne(@::const_iterator i, @::const_iterator j) { return i != j; }
inline bool s_ci_eqm(@::const_iterator i, @::iterator j) { return i == j; }
inline bool s_ci_nem(@::const_iterator i, @::iterator j) { return i != j; }
inline @::const_iterator s_ci_conv(@::iterator i) { return i; }
inline bool s_kcmp(const @ &m, const E &a, const E &b) { return m.key_comp()(a, b); }
inline bool s_vcmp(const @ &m, const pair<E, E> &a, const pair<E, E> &b) { return m.value_comp()(a, b); }
}
'''.replace('@', M)
S = 'ttl::' + M
FAM = Family(name='svm', elems={'E'}, pp='Ptr',
    value_classes=[S + '::iterator', S + '::const_iterator', S + '::value_compare', 'CP', 'ttl::pair<(unsigned int|ttl::sorted_.*), .*>'],
    fields={(S, 'elements_'): ('heap', 'el', 'Ptr'), (S, 'last_'): ('heap', 'la', 'Ptr'), (S, 'end_of_elements_'): ('heap', 'en', 'Ptr'),
            (r'ttl::pair<E, E>', 'first'): ('eslot', 0), (r'ttl::pair<E, E>', 'second'): ('eslot', 1)},
    node_kinds=[('ttl::pair<E, E>', 'node_new', 'node_del')],
    obj_locals={'ttl::pair<E, E>': ('pair_stack(h)', 'pair_stack_drop(h, %s);')},
    opaque=[(r'operator==', _eq), (r'CP::operator\(\)', _pred('cp_call'))],
    sizeof=[(r'type:E', '1u64')])
PRELUDE = ['common.rs', 'elem.rs', 'svm.rs', 'eops.rs']
VERUS = ['--rlimit', '60']
FNS = []
SAME = '*final(h) == *old(h)'
P = 'C14'
ORD = 'broadcast use order;'
def g(name, ps, req, ens, loops=(), label=None, const=None, props=P, **k):
    x = Fn(label or 's_' + name, S + '::' + name, ps, props, req, ens, loops, **k); x.const = const; FNS.append(x); return x
LV = ['wf(*old(h))', 'old(h).vs@[this@]']
def m(name, ps, req, ens, loops=(), **k): return g(name, ps, LV + req, ens, loops, **k)
E0, L0 = 'old(h).el@[this@]', 'old(h).la@[this@]'
SZ = 'sz(*old(h), this@)'
for c, s in ((False, ''), (True, '_c')):
    m('begin', [], [], ['ret@ == ' + E0, SAME], const=c, label='s_begin' + s)
    m('end', [], [], ['ret@ == ' + L0, SAME], const=c, label='s_end' + s)
m('cbegin', [], [], ['ret@ == ' + E0, SAME])
m('cend', [], [], ['ret@ == ' + L0, SAME])
m('size', [], [], ['ret == ' + SZ, SAME])
m('empty', [], [], ['ret == (%s == 0)' % SZ, SAME])
# ---- search
KEY = ['el(old(h).e@, key@)', SZ + ' <= u32::MAX']
K = 'ev(old(h).e@, key@)'
NS = 'ns(*old(h), this@)'
m('bsearch', None, KEY, ['ret.1 ==> found(*old(h), this@, %s, ret.0 as int)' % K, '!ret.1 ==> !has_key(*old(h), this@, %s) ' % K, 'lower(*old(h), this@, %s, ret.0 as int)' % K, 'upper(*old(h), this@, %s, ret.0 + (if ret.1 { 1int } else { 0int }))' % K, SAME],
  [dict(inv=['*h == h0', '0 <= L <= H <= sz(h0, this@)', 'forall|j: int| 0 <= j < L ==> cp(kv(h0, #[trigger] ns(h0, this@)[j]), ev(h0.e@, key@))',
             'forall|j: int| H <= j < sz(h0, this@) ==> cp(ev(h0.e@, key@), kv(h0, #[trigger] ns(h0, this@)[j]))'], dec='H - L',
        top='proof { let k = L + (H - L) / 2; assert(wfm(h0, this@, h0.el@[this@], h0.la@[this@])); assert(ns(h0, this@)[k] == h0.c@[h0.el@[this@] + k]); assert((h0.own@)(h0.c@[h0.el@[this@] + k]) != 0); assert(h0.e@[h0.c@[h0.el@[this@] + k]] is Live); assert(h0.cb@[h0.el@[this@] + k] == h0.el@[this@]); }')],
  entry='proof { %s assert(wfm(h0, this@, h0.el@[this@], h0.la@[this@])); }' % ORD, exit='proof { if ret.1 { lem_found(h0, this@, ev(h0.e@, key@), ret.0 as int); } }')

FND = 'found(*old(h), this@, %s, %%s - %s)' % (K, E0)
HAS = 'has_key(*old(h), this@, %s)' % K
FINDENS = ['ret@ == %s || %s' % (L0, FND % 'ret@'), '(ret@ == %s) == !%s' % (L0, HAS), SAME]
for c, s in ((False, ''), (True, '_c')):
    m('find', None, KEY, FINDENS, const=c, label='s_find' + s)
    m('at', None, KEY + [HAS], ['(old(h).own@)(ret@ - 1) == this@', 'veq(kv(*old(h), ret@ - 1), %s)' % K, SAME], const=c, label='s_at' + s)
    m('equal_range', None, KEY, ['!%s ==> ret.0@ == ret.1@ == %s' % (HAS, L0), '%s ==> %s && ret.1@ == ret.0@ + 1' % (HAS, FND % 'ret.0@'), SAME], const=c, label='s_equal_range' + s)
    m('lower_bound', None, KEY, ['lower(*old(h), this@, %s, ret@ - %s)' % (K, E0), SAME], const=c, label='s_lower_bound' + s)
m('find_insert_pos', None, KEY, ['lower(*old(h), this@, %s, ret@ - %s)' % (K, E0), '%s || (upper(*old(h), this@, %s, ret@ - %s) && !%s)' % (FND % 'ret@', K, E0, HAS), SAME])
m('count', None, KEY, ['ret == (if %s { 1u64 } else { 0u64 })' % HAS, SAME])

# ---- insertion
INS = lambda i, n: ['wf(*final(h))', 'fr(*old(h), *final(h), this@)', 'kept(*old(h), *final(h), this@)', 'ns(*final(h), this@) =~= ns(*old(h), this@).insert(%s, %s)' % (i, n), '(old(h).own@)(%s) == 0' % n]
OWN = 'h.own = Ghost(ins_own(h0, this@, %s)); h.idx = Ghost(ins_idx(h0, this@, %s, %s)); h.bo = Ghost(h.bo@.insert(h.el@[this@], this@));'
KVALUE = ['el(old(h).e@, value@)', 'el(old(h).e@, value@ + 1)', SZ + ' <= u32::MAX']
PK = 'pos_0@ - ' + E0
EL0, LA0, POS, NE = 'h0.el@[this@]', 'h0.la@[this@]', 'pos_0_in@', 'newelements@'
OUT = 'forall|p: int| #![trigger h.c@[p]] !(%s <= p < %s + newcapacity) ==> h.c@[p] == h0.c@[p]' % (NE, NE)
m('insert_before', None, KVALUE[:2] + ['lower(*old(h), this@, ev(old(h).e@, value@), pos_0@ - old(h).el@[this@])', 'upper(*old(h), this@, ev(old(h).e@, value@), pos_0@ - old(h).el@[this@])'],
  ['ret@ - final(h).el@[this@] == ' + PK, 'final(h).e@[final(h).c@[ret@]] == old(h).e@[value@]', 'final(h).e@[final(h).c@[ret@] + 1] == old(h).e@[value@ + 1]'] + INS(PK, 'final(h).c@[ret@]'),
  [dict(before='let ghost h1 = *h; proof { assert(h0.blk@[newelements@] == -1); }', inv=['h0.blk@[newelements@] == -1', '*h == (H { c: h.c, ..h1 })', '%s <= i@ <= %s' % (EL0, POS), 'o@ - %s == i@ - %s' % (NE, EL0), OUT, 'forall|p: int| %s <= p < o@ ==> #[trigger] h.c@[p] == h0.c@[p - %s + %s]' % (NE, NE, EL0)],
        dec='%s - i@' % POS, top='proof { assert(h0.cb@[i@] == h0.el@[this@]); }'),
   dict(before='let ghost h2 = *h;', inv=['h0.blk@[newelements@] == -1', '*h == (H { c: h.c, ..h2 })', '%s <= i@ <= %s' % (POS, LA0), 'o@ - %s == i@ - %s + 1' % (NE, EL0), OUT,
        'forall|p: int| %s <= p < pos_0@ ==> #[trigger] h.c@[p] == h0.c@[p - %s + %s]' % (NE, NE, EL0), 'h.c@[pos_0@] == h2.c@[pos_0@]',
        'forall|p: int| pos_0@ < p < o@ ==> #[trigger] h.c@[p] == h0.c@[p - %s + %s - 1]' % (NE, EL0)], dec='%s - i@' % LA0, top='proof { assert(h0.cb@[i@] == h0.el@[this@]); }'),
   dict(before='let ghost h3 = *h;\nproof {\nassert(h0.blk@[newelements@] == -1);\nassert(h0.el@[this@] != 0 ==> h0.blk@[h0.el@[this@]] >= 0);\nassert(h2.cb@ == h1.cb@);\nassert forall|p: int| newelements@ <= p < newelements@ + newcapacity implies #[trigger] h.cb@[p] == newelements@ by {\nassert(h1.cb@[p] == newelements@); } }', inv=['*h == (H { c: h.c, ..h3 })', 'h3.la@[this@] <= o@ <= h3.en@[this@]', 'forall|p: int| #![trigger h.c@[p]] !(h3.la@[this@] <= p < h3.en@[this@]) ==> h.c@[p] == h3.c@[p]'], dec='h3.en@[this@] - o@'),
   dict(before='let ghost h1 = *h;', inv=['*h == (H { c: h.c, ..h1 })', 'o_v1@ == i_v1@ + 1', '%s <= i_v1@ <= %s' % (POS, LA0), 'forall|p: int| #![trigger h.c@[p]] !(i_v1@ < p <= %s) ==> h.c@[p] == h0.c@[p]' % LA0,
        'forall|p: int| i_v1@ < p <= %s ==> #[trigger] h.c@[p] == h0.c@[p - 1]' % LA0], dec='i_v1@ - %s' % POS)],
  entry='proof { assert(wfm(h0, this@, h0.el@[this@], h0.la@[this@])); }',
  exit=OWN % ('h.c@[ret@]', 'pos_0_in@ - h0.el@[this@]', 'h.c@[ret@]') + ' proof { lem_put(h0, *h, this@, pos_0_in@ - h0.el@[this@], h.c@[ret@]); }', attrs='#[verifier::spinoff_prover] #[verifier::rlimit(400)]')
KV = 'ev(old(h).e@, value@)'
HASV = 'has_key(*old(h), this@, %s)' % KV
def new_at(i, k, v):
    """clauses: the entry at i is new, with key k and value v"""
    n = 'ns(*final(h), this@)[%s]' % i
    return ['lower(*old(h), this@, %s, %s)' % (k, i), '(old(h).own@)(%s) == 0' % n, 'kv(*final(h), %s) == %s' % (n, k), '%s == %s' % ('ev(final(h).e@, %s + 1)' % n, v),
            'ns(*final(h), this@) =~= ns(*old(h), this@).insert(%s, %s)' % (i, n)]
FRAMES = ['wf(*final(h))', 'fr(*old(h), *final(h), this@)', 'kept(*old(h), *final(h), this@)']
m('insert', ['const E &'] if 0 else None, KVALUE,
  ['ret.1 == !' + HASV, '!ret.1 ==> *final(h) == *old(h) && found(*old(h), this@, %s, ret.0@ - %s)' % (KV, E0)] + FRAMES +
  ['ret.1 ==> ' + c for c in new_at('(ret.0@ - final(h).el@[this@])', KV, 'ev(old(h).e@, value@ + 1)')], entry='proof { assert(wfm(h0, this@, h0.el@[this@], h0.la@[this@])); }', exit='proof { if !ret.1 { assert(found(h0, this@, ev(h0.e@, value@), ret.0@ - h0.el@[this@])); } }')
m('operator[]', None, KEY, ['%s ==> *final(h) == *old(h)' % HAS, '(final(h).own@)(ret@ - 1) == this@', 'veq(kv(*final(h), ret@ - 1), %s)' % K] + FRAMES +
  ['!%s ==> %s' % (HAS, c) for c in new_at('(final(h).idx@)(ret@ - 1)', K, 'vdef()')] + ['!%s ==> ret@ - 1 == ns(*final(h), this@)[(final(h).idx@)(ret@ - 1)]' % HAS], label='s_index',
  hide=['wfx', 'wfm', 'fr', 'kept', 'lower', 'upper'], entry='proof { lem_el(h0, this@); } let ghost mut h1 = *h; let ghost mut h2 = *h; let ghost mut mk = false; let ghost mut t1 = 0int; let ghost mut t2 = 0int; let ghost mut t3 = 0int;',
  at={('call:s_find_insert_pos', 0, 'after'): 'proof { lem_low(h0, this@, ev(h0.e@, key@), t_2@ - h0.el@[this@]); if t_2@ < h0.la@[this@] { lem_cell(h0, this@, t_2@); } }',
      ('call:s_insert_before', 0, 'before'): 'proof { h1 = *h; mk = true; t1 = first@; t2 = second@; t3 = res@; assert(tmps(h0, h1)); lem_tmp(h0, h1); lem_part(h0, h1, this@, ev(h0.e@, key@), i_0@ - h0.el@[this@]); }',
      ('call:s_insert_before', 0, 'after'): 'proof { h2 = *h; lem_tmpk(h0, h1, h2, this@, t1); lem_tmpk(h0, h1, h2, this@, t2); lem_tmpk(h0, h1, h2, this@, t3); lem_tmpk(h0, h1, h2, this@, t3 + 1); lem_frvs(h1, h2, this@); lem_el(h2, this@); assert(ns(h2, this@).len() == ns(h1, this@).len() + 1); lem_cell(h2, this@, t_14@); }'},
  attrs='#[verifier::spinoff_prover] #[verifier::rlimit(100)]', exit='proof { if !mk { assert(found(h0, this@, ev(h0.e@, key@), i_0@ - h0.el@[this@])); lem_refl(h0, this@); } if mk {\nassert(live4(h0, h1, t1, t2, t3));\nlem_tmp4(h0, h1, h2, *h, this@, t1, t2, t3); assert((h.own@)(ret@ - 1) == this@); assert(this@ != 0); assert(h.e@[ret@ - 1] == h2.e@[ret@ - 1]); assert(!cp(ev(h0.e@, key@), ev(h0.e@, key@))) by { broadcast use ax_cp_irr; } assert(veq(ev(h0.e@, key@), ev(h0.e@, key@))) by { broadcast use ax_cp_eq; } } }')
for c, s in ((False, ''), (True, '_c')):
    m('upper_bound', None, KEY, ['upper(*old(h), this@, %s, ret@ - %s)' % (K, E0), SAME],
      [dict(inv=['*h == h0', '%s <= i_0@ <= %s' % (EL0, LA0), 'forall|j: int| 0 <= j < i_0@ - %s ==> !cp(ev(h0.e@, key@), kv(h0, #[trigger] ns(h0, this@)[j]))' % EL0, 
         'forall|j: int| i_0@ - %s <= j < sz(h0, this@) ==> !cp(kv(h0, #[trigger] ns(h0, this@)[j]), ev(h0.e@, key@))' % EL0], dec='%s - i_0@' % LA0)], const=c, label='s_upper_bound' + s,
      entry='proof { %s assert(wfm(h0, this@, h0.el@[this@], h0.la@[this@])); }' % ORD, exit='proof { lem_upper(h0, this@, ev(h0.e@, key@), ret@ - h0.el@[this@]); }')

# ---- removal, construction, destruction
m('clear', [], [], FRAMES + ['ns(*final(h), this@) =~= Seq::empty()'],
  [dict(before='proof { lem_el(h0, this@); lem_rem0(h0, this@, sz(h0, this@)); } let ghost mut hb = *h;',
        inv=['rem(h0, *h, this@, h.la@[this@] - h0.el@[this@], sz(h0, this@))', 'h0.el@[this@] <= h.la@[this@] <= h0.la@[this@]', 'h.own == h0.own', 'forall|q: int| q != this@ ==> #[trigger] h.la@[q] == h0.la@[q]'], dec='h.la@[this@] - h0.el@[this@]',
        top='proof { hb = *h; lem_node(h0, *h, this@, hb.la@[this@] - h0.el@[this@], sz(h0, this@), hb.la@[this@] - 1); }',
        bot='proof { lem_rem1(h0, hb, *h, this@, hb.la@[this@] - h0.el@[this@], sz(h0, this@), h.la@[this@] - h0.el@[this@]); }')],
  exit='h.own = Ghost(rem_own(h0, this@, 0, sz(h0, this@))); proof { lem_cut(h0, *h, this@, 0); }', hide=['wfx', 'fr', 'kept'])
g('dtor', None, LV, ['gone(*old(h), *final(h), this@)', 'wf(*final(h))'],
  [dict(before='proof { lem_el(h0, this@); lem_rem0(h0, this@, 0); } let ghost mut hb = *h;',
        inv=['rem(h0, *h, this@, 0, i@ - h0.el@[this@])', 'h0.el@[this@] <= i@ <= h0.la@[this@]', 'h.own == h0.own', 'h.la == h0.la'], dec='h0.la@[this@] - i@',
        top='proof { hb = *h; lem_node(h0, *h, this@, 0, i@ - h0.el@[this@], i@); }',
        bot='proof { lem_rem1(h0, hb, *h, this@, 0, i@ - 1 - h0.el@[this@], i@ - 1 - h0.el@[this@]); }', after='let ghost hr = *h; proof { lem_el(h0, this@); lem_arr(h0, this@); }')],
  exit='h.own = Ghost(rem_own(h0, this@, 0, sz(h0, this@))); h.vs = Ghost(h.vs@.insert(this@, false)); proof { lem_gone(h0, hr, *h, this@); }', hide=['wfx', 'fr', 'kept', 'gone', 'cells'])
NEW = ['wf(*old(h))', 'this@ != 0', '!old(h).vs@[this@]']
START = 'h.vs = Ghost(h.vs@.insert(this@, true)); '
g('ctor', [], NEW, FRAMES + ['sz(*final(h), this@) == 0'], label='s_ctor', exit=START)
g('ctor', ['unsigned long'], NEW, FRAMES + ['sz(*final(h), this@) == 0', 'final(h).en@[this@] - final(h).el@[this@] == prealloc'], label='s_ctor_n', exit=START + 'h.bo = Ghost(h.bo@.insert(h.el@[this@], this@)); proof { lem_new(h0, *h, this@); }', hide=['wfx', 'fr', 'kept'])
OE, OL = 'h0.el@[other@]', 'h0.la@[other@]'
g('ctor', ['const ttl::%s &' % M], NEW + ['old(h).vs@[other@]'],
  FRAMES + ['sz(*final(h), this@) == sz(*old(h), other@)',
   'forall|j: int| 0 <= j < sz(*old(h), other@) ==> (old(h).own@)(#[trigger] ns(*final(h), this@)[j]) == 0',
   'forall|j: int| 0 <= j < sz(*old(h), other@) ==> kv(*final(h), #[trigger] ns(*final(h), this@)[j]) == kv(*old(h), ns(*old(h), other@)[j])',
   'forall|j: int| 0 <= j < sz(*old(h), other@) ==> ev(final(h).e@, #[trigger] ns(*final(h), this@)[j] + 1) == ev(old(h).e@, ns(*old(h), other@)[j] + 1)'],
  [dict(before='proof { lem_el(h0, other@); } h.vs = Ghost(h.vs@.insert(this@, true)); h.bo = Ghost(h.bo@.insert(h.el@[this@], this@)); proof { lem_new(h0, *h, this@); assert forall|q: int| #[trigger] (h0.own@)(q) != this@ by { lem_notown(h0, this@, q); } lem_copy0(h0, *h, this@, other@); } let ghost e1 = h.el@[this@]; let ghost mut hb = *h;',
        inv=['copied(h0, *h, this@, other@, i@ - %s)' % OE, 'h.vs@[this@]', '%s <= i@ <= %s' % (OE, OL), 'h.el@[this@] == e1', 'h.en@[this@] - e1 == h0.en@[other@] - %s' % OE, 'h0.la@[other@] <= h0.en@[other@]', 'forall|q: int| #[trigger] (h0.own@)(q) != this@'], dec='%s - i@' % OL,
        pre='proof { hb = *h; lem_other(h0, hb, this@, other@); lem_el(hb, this@); lem_own_cells(hb, this@); }',
        top='proof { lem_cell(h0, other@, i@); }',
        bot='proof { let k = i@ - 1 - h0.el@[other@]; let n = h.c@[e1 + k]; h.own = Ghost(ins_own(hb, this@, n)); h.idx = Ghost(ins_idx(hb, this@, k, n)); \nassert(cells(hb, *h, this@));\nassert(putf(hb, *h, this@));\nassert(putn(hb, *h, this@, k, n)); lem_copy1(h0, hb, *h, this@, other@, k, n); }')],
  label='s_ctor_copy', props='C14 C23', hide=['wfx', 'fr', 'kept'], entry='proof { lem_el(h0, other@); }', exit='proof { lem_kept0(h0, *h, this@); }')
# ---- iterators and comparison objects
ITR = ['old(h).cb@[%s] != 0']
for p, cl in (('s_it_', 'iterator'), ('s_ci_', 'const_iterator')):
    def q(name, req, ens, props='C14', **k): FNS.append(Fn(p + name, 'ttl::' + p + name, None, props, req, ens + [SAME], **k))
    for n in ('inc', 'pinc2'): q(n, [], ['ret@ == i_0@ + 1'])
    for n in ('dec', 'pdec2'): q(n, [], ['ret@ == i_0@ - 1'])
    for n in ('pinc', 'pdec'): q(n, [], ['ret@ == i_0@'])
    for n in ('get', 'arrow'): q(n, ['old(h).cb@[i_0@] != 0'], ['ret@ == old(h).c@[i_0@]'])
    for n in ('eq', 'eqc' if 'it' in p else 'eqm'): q(n, [], ['ret == (i_0@ == j_0@)'])
    for n in ('ne', 'nec' if 'it' in p else 'nem'): q(n, [], ['ret == (i_0@ != j_0@)'])
FNS.append(Fn('s_ci_conv', 'ttl::s_ci_conv', None, P, [], ['ret@ == i_0@', SAME]))
FNS.append(Fn('s_kcmp', 'ttl::s_kcmp', None, P, ['el(old(h).e@, a@)', 'el(old(h).e@, b@)'], ['ret == cp(ev(old(h).e@, a@), ev(old(h).e@, b@))', SAME]))
FNS.append(Fn('s_vcmp', 'ttl::s_vcmp', None, P, ['el(old(h).e@, a@)', 'el(old(h).e@, b@)'], ['ret == cp(ev(old(h).e@, a@), ev(old(h).e@, b@))', SAME]))
