"""Contracts of fixed_vector.hpp, for every N > 0: C03, C04, parts of C23."""
from lib.family import Fn
from lib.xlate import Family
from contracts.emit import _eq, _lt, _ne

TU = r'''
#include <ttl/types.hpp>
#include <ttl/type_traits.hpp>
#include <ttl/utility.hpp>
#include <ttl/functional.hpp>
#include <ttl/algorithm.hpp>
#include <ttl/fixed_vector.hpp>
struct E { E(); E(const E &); ~E(); E &operator=(const E &); int v; };
bool operator==(const E &, const E &);
bool operator<(const E &, const E &);
bool operator!=(const E &, const E &);
namespace ttl {
template class fixed_vector<E, 7>;
template fixed_vector<E, 7>::fixed_vector(const E *, const E *);
template void fixed_vector<E, 7>::assign(const E *, const E *);
template fixed_vector<E, 7>::iterator fixed_vector<E, 7>::insert(fixed_vector<E, 7>::const_iterator, const E *, const E *);
template bool operator==(const fixed_vector<E, 7> &, const fixed_vector<E, 7> &);
template bool operator!=(const fixed_vector<E, 7> &, const fixed_vector<E, 7> &);
}
'''
V = 'ttl::fixed_vector<E, 7>'
FAM = Family(name='fixed_vector', elems={'E'},
    fields={(V, 'last_'): ('heap', 'la', 'Ptr'), (V, 'bytes_'): ('embed', 0)},
    symbolic={(r'ttl::fixed_vector<.*', 'N'): ('nn()', 'u64'), (r'', 'N'): ('nn()', 'u64')},
    opaque=[(r'operator==', _eq), (r'operator<', _lt), (r'operator!=', _ne)],
    sizeof=[(r'type:E', '1u64')])
PRELUDE = ['common.rs', 'elem.rs', 'fixed_vector.rs', 'eops.rs']
VERUS = ['--rlimit', '60']
FNS = []
SAME = '*final(h) == *old(h)'
LIVE = ['wf(*old(h))', 'old(h).vs@[this@]']
P = 'C03 C04'
WFQ = 'broadcast use ax_nn; assert(wfv(h0, this@));'
E0, L0, C0 = 'this@', 'old(h).la@[this@]', '(this@ + NN())'
SZ0 = '(%s - this@)' % L0
S0, S1 = 'sv(*old(h), this@)', 'sv(*final(h), this@)'
FR = [('wf(*final(h))', None), ('fr(*old(h), *final(h), this@)', None)]
def C(x): return (x, 'C03 C23')
def o(name, ps, req, ens, label=None, const=None, **k):
    f = Fn(label or 'f_' + name, V + '::' + name, ps, P, (LIVE + req) if ps or req else [], ens, entry='proof { %s }' % (WFQ if ps or req else 'broadcast use ax_nn;'), **k)
    f.const = const
    FNS.append(f)
def mut(name, ps, req, ens, loops=(), exit='', entry='', label=None, **k):
    f = Fn(label or 'f_' + name, V + '::' + name, ps, P, LIVE + req, FR + [C(e) for e in ens], loops,
           entry='proof { %s }' % WFQ + entry, exit='proof { %s wf_fr(h0, *h, this@); }' % exit, **k)
    FNS.append(f)
def pw(*cases):
    t = ''
    for lo, hi, x in cases[:-1]:
        t += 'if %s <= p < %s { %s } else ' % (lo, hi, x)
    return 'forall|p: int| #[trigger] h.e@[p] == (%s{ %s })' % (t, cases[-1])
for c, sfx in ((False, ''), (True, '_c')):
    o('begin', [], [], ['ret@ == this@', SAME], label='f_begin' + sfx, const=c)
    o('end', [], [], ['ret@ == ' + L0, SAME], label='f_end' + sfx, const=c)
    o('data', [], [], ['ret@ == this@', SAME], label='f_data' + sfx, const=c)
    o('operator[]', ['unsigned long'], ['n < ' + SZ0], ['ret@ == this@ + n', SAME], label='f_idx' + sfx, const=c)
    o('at', ['unsigned long'], ['n < ' + SZ0], ['ret@ == this@ + n', SAME], label='f_at' + sfx, const=c)
    o('front', [], [SZ0 + ' > 0'], ['ret@ == this@', SAME], label='f_front' + sfx, const=c)
    o('back', [], [SZ0 + ' > 0'], ['ret@ == %s - 1' % L0, SAME], label='f_back' + sfx, const=c)
o('cbegin', [], [], ['ret@ == this@', SAME])
o('cend', [], [], ['ret@ == ' + L0, SAME])
RAWLA = '0 <= old(h).la@[this@] - this@ <= NN()'
def q(name, ens): FNS.append(Fn('f_' + name, V + '::' + name, [], P, [RAWLA], ens + [SAME], entry='proof { broadcast use ax_nn; }'))
q('size', ['ret == ' + SZ0])
q('empty', ['ret == (%s == 0)' % SZ0])
q('full', ['ret == (%s == NN())' % SZ0])
q('max_size', ['ret == NN()'])
q('capacity', ['ret == NN()'])
FIX = '*h == (H { e: h.e, la: h.la, ..h0 })'
LAO = 'forall|w: int| w != this@ ==> #[trigger] h.la@[w] == h0.la@[w]'
CLR = lambda pos: [dict(inv=['eqe(h0, *h, this@)', '%s <= h.la@[this@] <= h0.la@[this@]' % pos, pw(('h.la@[this@]', 'h0.la@[this@]', 'Slot::Raw'), 'h0.e@[p]')], dec='h.la@[this@] - (%s)' % pos)]
mut('clear', [], [], [S1 + ' =~= Seq::<Val>::empty()', 'final(h).la@[this@] == this@', 'forall|p: int| this@ <= p < this@ + NN() ==> #[trigger] final(h).e@[p] is Raw'], CLR('this@'))
mut('push_back', ['const E &'], ['el(old(h).e@, x@)'], [S1 + ' =~= cut(%s.push(ev(old(h).e@, x@)))' % S0])
mut('pop_back', [], [SZ0 + ' > 0'], [S1 + ' =~= %s.drop_last()' % S0])
# ---- insertion
L = 'h0.la@[this@]'
D0 = '(pos@ - this@)'
POS = ['this@ <= pos@ <= ' + L0]
def ins(label, ps, req, cnt, val, new, **k):
    """cnt: elements constructed so far; val: the k-th of them over {}"""
    K = 'n0'            # elements to insert, at most N for the value version
    live = lambda base: 'Slot::Live(%s)' % val.format('(p - (%s))' % base)
    vin = label == 'f_insert_n'
    M1 = 'imin(pos_in@ + n0, %s)' % C0
    pre = 'let ghost h1 = *h; let ghost n0 = n as int; proof { %s }' % ('assert(!(this@ <= copy@ < %s)); assert(h1.e@[copy@] is Live);' % C0 if vin else '')
    fix = '*h == (H { e: h.e, ..%s })'
    loops = [
        dict(before=pre, inv=[fix % 'h1', 'o@ - i@ == n0', 'pos_in@ <= i@ <= ' + L, 'o@ >= %s || i@ == %s' % (C0, L), pw(('i@', L, 'Slot::Raw'), 'h1.e@[p]')],
             dec='i@ - pos_in@'),
        dict(before='let ghost h2 = *h;',
             inv=[fix % 'h2', 'pos_in@ <= i@ <= ' + L, '(i@ + n0 == o@ && o@ <= %s) || (i@ == pos_in@ && o@ == %s && pos_in@ + n0 >= o@)' % (C0, C0), 'i@ <= o@ <= h2.la@[this@]',
                  pw(('i@', 'o@', 'Slot::Raw'), ('o@', 'h2.la@[this@]', 'h1.e@[p - n0]'), 'h1.e@[p]')],
             dec='i@ - pos_in@'),
        dict(inv=[fix % 'h2', 'o@ == pos_in@ + (%s)' % (cnt.replace('n_in', 'n0') if vin else cnt), 'o@ <= ' + M1, '0 <= n <= n0' if vin else 'first_in@ <= first@ <= last_in@',
                  pw(('pos_in@', 'o@', live('pos_in@')), ('o@', M1, 'Slot::Raw'), (M1, 'h2.la@[this@]', 'h1.e@[p - n0]'), 'h1.e@[p]')],
             dec='n' if vin else 'last_in@ - first@'),
        dict(inv=['eqe(h0, *h, this@)', 'h.la@[this@] == %s + (%s)' % (L, cnt), 'h.la@[this@] <= ' + C0, '0 <= n <= n_in' if vin else 'first_in@ <= first@ <= last_in@',
                  pw((L, 'h.la@[this@]', live(L)), 'h0.e@[p]')],
             dec='n' if vin else 'last_in@ - first@')]
    mut('insert', ps, POS + req, ['ret@ == pos@', '%s =~= cut(%s.subrange(0, %s) + %s + %s.subrange(%s, %s))' % (S1, S0, D0, new, S0, D0, SZ0)],
        loops, label=label, attrs='#[verifier::spinoff_prover] #[verifier::rlimit(400)]', **k)
ins('f_insert_n', ['const E *', 'unsigned long', 'const E &'], ['el(old(h).e@, x@)'], 'n_in - n', 'ev(h0.e@, x@)', 'Seq::new(n as nat, |i: int| ev(old(h).e@, x@))')
mut('insert', ['const E *', 'const E &'], POS + ['el(old(h).e@, x@)'], ['ret@ == pos@', '%s =~= cut(%s.insert(%s, ev(old(h).e@, x@)))' % (S1, S0, D0)], label='f_insert_1')
RNG = ['first@ <= last@', 'last@ - first@ <= 0x7fff_ffff_ffff_ffff', 'forall|p: int| first@ <= p < last@ ==> #[trigger] old(h).e@[p] is Live', 'outside(this@, first@, last@)']
ins('f_insert_r', ['const E *'] * 3, RNG, 'first@ - first_in@', 'ev(h0.e@, first_in@ + {})', 'sq(old(h).e@, first@, last@)')
mut('erase', ['const E *', 'const E *'], ['this@ <= first@ <= last@ <= ' + L0],
    ['ret@ == first@', S1 + ' =~= %s.subrange(0, first@ - this@) + %s.subrange(last@ - this@, %s)' % (S0, S0, SZ0)],
    [dict(inv=['first_in@ <= l@ <= last_in@', '*h == (H { e: h.e, ..h0 })', pw(('l@', 'last_in@', 'Slot::Raw'), 'h0.e@[p]')], dec='l@ - f@'),
     dict(inv=['last_in@ <= i@ <= h0.la@[this@]', 'o@ == i@ - (last_in@ - first_in@)', '*h == (H { e: h.e, ..h0 })',
               pw(('first_in@', 'o@', 'h0.e@[p + (last_in@ - first_in@)]'), ('o@', 'i@', 'Slot::Raw'), 'h0.e@[p]')], dec='h0.la@[this@] - i@')], label='f_erase_r')
mut('erase', ['const E *'], ['this@ <= pos@ < ' + L0], ['ret@ == pos@', S1 + ' =~= %s.remove(pos@ - this@)' % S0])
RSZ = lambda x: [S1 + ' =~= cut(Seq::new(new_size as nat, |i: int| if i < %s.len() { %s[i] } else { %s }))' % (S0, S0, x)]
TMP = 'let ghost mut ha = h0; let ghost mut hb = h0; let ghost mut tt = 0int;'
TMPAT = {('call:f_insert_n', 0, 'before'): 'proof { ha = *h; tt = etmp@; }', ('call:f_insert_n', 0, 'after'): 'proof { hb = *h; }'}
mut('resize', ['unsigned long'], [], RSZ('vdef()'), CLR('this@ + new_size'), entry=TMP, at=TMPAT, exit='if tt != 0 { assert(h0.e@[tt] is No); assert(!(this@ <= tt < %s)); assert(wfv(hb, this@)); assert(sv(ha, this@) =~= sv(h0, this@)); assert(sv(*h, this@) =~= sv(hb, this@)); assert(new_size_in >= sv(h0, this@).len()); }' % C0)
mut('resize', ['unsigned long', 'const E &'], ['el(old(h).e@, x@)'], RSZ('ev(old(h).e@, x@)'), label='f_resize_v')
# ---- construction, destruction, assignment
def ctor(ps, req, ens, loops=(), label=None, entry='', exit0='', **k):
    FNS.append(Fn(label, V + '::ctor', ps, 'C03 C04 C23', ['wf(*old(h))', 'room(*old(h), this@)'] + req,
        ['wf(*final(h))', 'final(h).vs@ == old(h).vs@.insert(this@, true)', 'frx(*old(h), *final(h), this@)'] + ens, loops,
        entry='proof { broadcast use ax_nn; %s }' % entry, exit='h.vs = Ghost(h.vs@.insert(this@, true)); proof { %s wf_new(h0, *h, this@); }' % exit0, **k))
ctor([], [], [S1 + ' =~= Seq::<Val>::empty()'], label='f_ctor')
def fill(cnt, val, lo, dec):
    return [dict(before='let ghost h1 = *h;', inv=['eqe(h1, *h, this@)', 'h.la@[this@] == this@ + (%s)' % cnt, 'h.la@[this@] <= ' + C0, lo, pw(('this@', 'h.la@[this@]', val), 'h1.e@[p]')], dec=dec)]
NL, NR = '0 <= n <= n_in', 'first_in@ <= first@ <= last_in@'
ctor(['unsigned long'], [], [S1 + ' =~= cut(Seq::new(n as nat, |i: int| vdef()))'], fill('n_in - n', 'Slot::Live(vdef())', NL, 'n'), label='f_ctor_n')
VAL = 'Slot::Live(ev(h0.e@, value@))'
ctor(['unsigned long', 'const E &'], ['el(old(h).e@, value@)'], [S1 + ' =~= cut(Seq::new(n as nat, |i: int| ev(old(h).e@, value@)))'], fill('n_in - n', VAL, NL, 'n'), label='f_ctor_nv', )
OTH = [S1 + ' =~= sv(*old(h), other@)', 'sv(*final(h), other@) =~= sv(*old(h), other@)']
ctor(['re:const(fixed_)?vector<E,7>&|constfixed_vector<E,7>&'], ['old(h).vs@[other@]'], OTH,
     fill('i@ - other@', 'h0.e@[p - this@ + other@]', 'other@ <= i@ <= h0.la@[other@]', 'h0.la@[other@] - i@'), entry='assert(wfv(h0, other@)); disj_room(h0, this@, other@);', label='f_ctor_copy')
ctor(['const E *', 'const E *'], RNG[:3], [S1 + ' =~= cut(sq(old(h).e@, first@, last@))'],
     [dict(before='h.vs = Ghost(h.vs@.insert(this@, true)); let ghost h1 = *h; proof { wf_new(h0, h1, this@); }',
           inv=['wf(*h)', 'fr(h1, *h, this@)', NR, 'sv(*h, this@) =~= cut(sq(h0.e@, first_in@, first@))', 'h.la@[this@] == this@ + (first@ - first_in@)'], dec='last_in@ - first@',
           top='proof { assert(h.vs@[this@]); assert(wfv(*h, this@)); out_live(h0, this@, first@); assert(h.e@[first@] == h1.e@[first@]); }', after='proof { assert(h.vs@[this@]); assert(wfv(*h, this@)); }')], label='f_ctor_r', exit0='assert(h.vs@ =~= h0.vs@.insert(this@, true));')
FNS.append(Fn('f_dtor', V + '::dtor', [], 'C04', LIVE, ['wf(*final(h))', 'final(h).vs@ == old(h).vs@.insert(this@, false)', 'frx(*old(h), *final(h), this@)', 'room(*final(h), this@)'],
    entry='proof { %s }' % WFQ, exit='h.vs = Ghost(h.vs@.insert(this@, false)); proof { wf_gone(h0, *h, this@); }', at={('call:f_clear', 0, 'after'): 'proof { assert(wfv(*h, this@)); }'}))
mut('operator=', ['re:constfixed_vector<E,7>&'], ['old(h).vs@[other@]'], ['ret@ == this@'] + OTH,
    fill('i@ - other@', 'h1.e@[p - this@ + other@]', 'other@ <= i@ <= h0.la@[other@]', 'h0.la@[other@] - i@'),
    entry='proof { assert(wfv(h0, other@)); if this@ != other@ { disj(h0, this@, other@); } }', label='f_assign_op')
mut('assign', ['unsigned long', 'const E &'], ['el(old(h).e@, value@)', 'outside(this@, value@, value@ + 1)'],
    [S1 + ' =~= cut(Seq::new(n as nat, |i: int| ev(old(h).e@, value@)))'], fill('n_in - n', VAL, NL, 'n'), label='f_assign_n')
mut('assign', ['const E *', 'const E *'], RNG, [S1 + ' =~= cut(sq(old(h).e@, first@, last@))'],
    fill('first@ - first_in@', 'h0.e@[p - this@ + first_in@]', NR, 'last_in@ - first@'), label='f_assign_r')
FNS.append(Fn('equal4', 'ttl::equal', ['const E *'] * 4, 'C03 C23', ['first1@ <= last1@', 'first2@ <= last2@', 'live(old(h).e@, first1@, last1@)', 'live(old(h).e@, first2@, last2@)'],
    ['ret == eqs(sq(old(h).e@, first1@, last1@), sq(old(h).e@, first2@, last2@))', SAME],
    [dict(inv=['*h == h0', 'first1_in@ <= first1@ <= last1_in@', 'first2_in@ <= first2@ <= last2_in@', 'first1@ - first1_in@ == first2@ - first2_in@',
               'forall|i: int| 0 <= i < first1@ - first1_in@ ==> veq(#[trigger] sq(h0.e@, first1_in@, last1_in@)[i], sq(h0.e@, first2_in@, last2_in@)[i])'], dec='last1_in@ - first1@',
          top='proof { if first1@ < last1@ && first2@ < last2@ { assert(sq(h0.e@, first1_in@, last1_in@)[first1@ - first1_in@] == ev(h0.e@, first1@)); assert(sq(h0.e@, first2_in@, last2_in@)[first1@ - first1_in@] == ev(h0.e@, first2@)); } }')]))
for nm, lab, neg in (('operator==', 'f_eq', ''), ('operator!=', 'f_ne', '!')):
    FNS.append(Fn(lab, 'ttl::' + nm, ['re:constfixed_vector<E,7>&'] * 2, 'C03 C23', ['wf(*old(h))', 'old(h).vs@[a@]', 'old(h).vs@[b@]'],
        ['ret == %seqs(sv(*old(h), a@), sv(*old(h), b@))' % neg, SAME], entry='proof { broadcast use ax_nn; assert(wfv(h0, a@)); assert(wfv(h0, b@)); }'))
# ---- swap
MO, NO = 'old(h).e@', 'final(h).e@'
FNS.append(Fn('swap_', 'ttl::swap', ['re:E&'] * 2, 'C03 C04', ['el(%s, a@)' % MO, 'el(%s, b@)' % MO],
    ['*final(h) == (H { e: final(h).e, ..*old(h) })', 'forall|p: int| #[trigger] %s[p] == (if p == a@ { %s[b@] } else if p == b@ { %s[a@] } else { %s[p] })' % (NO, MO, MO, MO)]))
SWR = 'forall|p: int| #[trigger] %s[p] == (if %s <= p < %s { %s[p - %s + %s] } else if %s <= p < %s { %s[p - %s + %s] } else { %s[p] })'
FNS.append(Fn('swap_ranges', 'ttl::swap_ranges', ['E *'] * 3, 'C03 C04', ['first1@ <= last1@', 'live(old(h).e@, first1@, last1@)', 'live(old(h).e@, first2@, first2@ + (last1@ - first1@))',
       'first2@ == first1@ || first2@ >= last1@ || first2@ + (last1@ - first1@) <= first1@'],
    ['ret@ == first2@ + (last1@ - first1@)', '*final(h) == (H { e: final(h).e, ..*old(h) })', SWR % (NO, 'first1@', 'last1@', MO, 'first1@', 'first2@', 'first2@', 'ret@', MO, 'first2@', 'first1@', MO)],
    [dict(inv=['first1_in@ <= first1@ <= last1@', 'first2@ - first2_in@ == first1@ - first1_in@', '*h == (H { e: h.e, ..h0 })',
               SWR % ('h.e@', 'first1_in@', 'first1@', 'h0.e@', 'first1_in@', 'first2_in@', 'first2_in@', 'first2@', 'h0.e@', 'first2_in@', 'first1_in@', 'h0.e@')],
          dec='last1@ - first1@')]))
# a is the shorter one, b the longer one
MS, AL, BL = 'minsiz', 'h0.la@[a@]', 'h0.la@[b@]'
FNS.append(Fn('f_swap', V + '::swap', None, 'C03 C04', LIVE + ['old(h).vs@[x@]'],
    ['wf(*final(h))', 'fr2(*old(h), *final(h), this@, x@)', 'sv(*final(h), this@) =~= sv(*old(h), x@)', 'sv(*final(h), x@) =~= sv(*old(h), this@)'],
    [dict(before='let ghost h1 = *h; proof { assert(AL == a@ + minsiz); }'.replace('AL', AL),
          inv=['*h == (H { e: h.e, la: h.la, ..h0 })', 'forall|w: int| w != a@ ==> #[trigger] h.la@[w] == h0.la@[w]', 'b@ + minsiz <= e@ <= ' + BL, 'h.la@[a@] - a@ == e@ - b@ || (a@ == b@ && h.la@[a@] == e@)',
               pw(('a@ + minsiz', 'h.la@[a@]', 'h0.e@[p - a@ + b@]'), 'h1.e@[p]')], dec=BL + ' - e@'),
     dict(before='let ghost h2 = *h;', inv=['*h == (H { e: h.e, ..h2 })', 'b@ + minsiz <= e@ <= ' + BL, pw(('e@', BL, 'Slot::Raw'), 'h2.e@[p]')], dec='e@ - b@')],
    entry='proof { broadcast use ax_nn; assert(wfv(h0, this@)); assert(wfv(h0, x@)); if this@ != x@ { disj(h0, this@, x@); } }', exit='proof { wf_fr2(h0, *h, this@, x@); }'))
