"""Contracts of vector.hpp: C01, C02, parts of C23."""
from lib.family import Fn
from lib.xlate import Family
from contracts.emit import _eq, _lt, _ne

TU = r'''
#include <ttl/types.hpp>
#include <ttl/type_traits.hpp>
#include <ttl/utility.hpp>
#include <ttl/functional.hpp>
#include <ttl/algorithm.hpp>
#include <ttl/vector.hpp>
struct E { E(); E(const E &); ~E(); E &operator=(const E &); int v; };
bool operator==(const E &, const E &);
bool operator<(const E &, const E &);
bool operator!=(const E &, const E &);
namespace ttl {
template class vector<E>;
template vector<E>::vector(const E *, const E *);
template void vector<E>::assign(const E *, const E *);
template vector<E>::iterator vector<E>::insert(vector<E>::const_iterator, const E *, const E *);
template bool operator==(const vector<E> &, const vector<E> &);
template bool operator!=(const vector<E> &, const vector<E> &);
}
'''
V = 'ttl::vector<E>'
FAM = Family(name='vector', elems={'E'},
    value_classes=[V + r'::vc_.*'],
    fields={(V, 'elements_'): ('heap', 'el', 'Ptr'), (V, 'last_'): ('heap', 'la', 'Ptr'), (V, 'end_of_elements_'): ('heap', 'en', 'Ptr')},
    opaque=[(r'operator==', _eq), (r'operator<', _lt), (r'operator!=', _ne)],
    sizeof=[(r'type:E', '1u64')])
PRELUDE = ['common.rs', 'elem.rs', 'vector.rs', 'eops.rs']

FNS = []
A, B = '*old(h)', '*final(h)'
SAME = '*final(h) == *old(h)'
LIVE = ['wf(*old(h))', 'old(h).vs@[this@]']
P = 'C01 C02'
def v(name, ps, req, ens, loops=(), label=None, const=None, props=P, **k):
    f = Fn(label or 'v_' + name, V + '::' + name, ps, props, LIVE + list(req), ens, loops, **k)
    f.const = const
    FNS.append(f)
    return f

WFQ = 'assert(wfv(h0, this@));'
E0, L0, C0 = 'old(h).el@[this@]', 'old(h).la@[this@]', 'old(h).en@[this@]'
SZ0 = '(%s - %s)' % (L0, E0)
S0, S1 = 'sv(*old(h), this@)', 'sv(*final(h), this@)'
# what every mutator guarantees: the invariant, and that nothing but this vector changed
FR = [('wf(*final(h))', None), ('fr(*old(h), *final(h), this@)', None)]
CAP = 'final(h).en@[this@] - final(h).el@[this@]'
def C(x): return (x, 'C01 C23')
def mut(name, ps, req, ens, loops=(), exit='', entry='', **k):
    return v(name, ps, req, FR + [C(e) for e in ens], loops,
             entry='proof { %s }' % WFQ + entry, exit='proof { %s wf_fr(h0, *h, this@); }' % exit, **k)

def o(name, ps, req, ens, label=None, const=None, **k):
    f = Fn(label or 'v_' + name, V + '::' + name, ps, P, ['old(h).vs@[this@]'] + req, ens, **k)
    f.const = const
    FNS.append(f)
# ---- observers
for c, sfx, T in ((False, '', 'E &'), (True, '_c', 'const E &')):
    o('begin', [], [], ['ret@ == ' + E0, SAME], label='v_begin' + sfx, const=c)
    o('end', [], [], ['ret@ == ' + L0, SAME], label='v_end' + sfx, const=c)
    o('data', [], [], ['ret@ == ' + E0, SAME], label='v_data' + sfx, const=c)
    v('operator[]', ['unsigned long'], ['n < ' + SZ0], ['ret@ == %s + n' % E0, SAME], label='v_idx' + sfx, const=c)
    v('at', ['unsigned long'], ['n < ' + SZ0], ['ret@ == %s + n' % E0, SAME], label='v_at' + sfx, const=c)
    v('front', [], [SZ0 + ' > 0'], ['ret@ == ' + E0, SAME], label='v_front' + sfx, const=c)
    v('back', [], [SZ0 + ' > 0'], ['ret@ == %s - 1' % L0, SAME], label='v_back' + sfx, const=c)
o('cbegin', [], [], ['ret@ == ' + E0, SAME])
o('cend', [], [], ['ret@ == ' + L0, SAME])
o('size', [], ['0 <= %s <= MAXN()' % (SZ0)], ['ret == ' + SZ0, SAME])
o('empty', [], ['0 <= %s <= MAXN()' % (SZ0)], ['ret == (%s == 0)' % SZ0, SAME])
o('capacity', [], ['0 <= %s <= MAXN()' % ('(%s - %s)' % (C0, E0))], ['ret == %s - %s' % (C0, E0), SAME])

# ---- clear and destruction
SHRINK = lambda pos: [dict(
    inv=['eqe(h0, *h, this@)', '%s <= h.la@[this@] <= h0.la@[this@]' % pos,
         'forall|p: int| #[trigger] h.e@[p] == (if h.la@[this@] <= p < h0.la@[this@] { Slot::Raw } else { h0.e@[p] })'],
    dec='h.la@[this@] - %s' % pos)]
mut('clear', [], [], [S1 + ' =~= Seq::<Val>::empty()', 'final(h).el@[this@] == ' + E0], SHRINK('h0.el@[this@]'))

# ---- storage and construction
EQE = 'eqe(h1, *h, this@)'
mut('pop_back', [], [SZ0 + ' > 0'], [S1 + ' =~= %s.drop_last()' % S0, 'final(h).el@[this@] == ' + E0])
mut('reserve', ['unsigned long'], ['n <= MAXN()'], [S1 + ' =~= ' + S0, CAP + ' >= n', CAP + ' >= ' + '%s - %s' % (C0, E0)],
    [dict(before='let ghost h1 = *h; proof { apart(h0.e@, newelements@, newelements@ + n, h0.el@[this@], h0.en@[this@]); }',
          inv=['%s' % EQE, 'i@ - h0.el@[this@] == o@ - newelements@', 'h0.el@[this@] <= i@ <= h0.la@[this@]', 'h.la@[this@] == h0.la@[this@]',
               'forall|p: int| #[trigger] h.e@[p] == (if newelements@ <= p < o@ { h0.e@[p - newelements@ + h0.el@[this@]] } else { h1.e@[p] })'],
          dec='h0.la@[this@] - i@'),
     dict(before='let ghost h2 = *h;',
          inv=['h0.el@[this@] <= i@ <= h0.la@[this@]', '*h == (H { e: h.e, ..h2 })',
               'forall|p: int| #[trigger] h.e@[p] == (if i@ <= p < h0.la@[this@] { Slot::Raw } else { h2.e@[p] })'],
          dec='i@ - h0.el@[this@]',
          after='h.vo = Ghost(h.vo@.insert(newelements@, this@));')])

# ---- insertion: insert_values is inlined, once per value constructor
def pw(*cases):
    """pointwise description of h.e: (lo, hi, value) ..., default"""
    t = ''
    for lo, hi, x in cases[:-1]:
        t += 'if %s <= p < %s { %s } else ' % (lo, hi, x)
    return 'forall|p: int| #[trigger] h.e@[p] == (%s{ %s })' % (t, cases[-1])
def ins(label, ps, req, K, val, new, nn='n_v1', slot=None, it=None, **k):
    """K: number of elements; val: the k-th of them, over k = {}; nn: the counter; slot: copy of the value; it: running iterator"""
    e0, l0, c0 = 'h0.el@[this@]', 'h0.la@[this@]', 'h0.en@[this@]'
    D = '(pos_in@ - %s)' % e0
    N = 'newelements@'
    M1, M2 = '%s + %s' % (N, D), '%s + %s + %s' % (N, D, K)
    lnk = ['%s@ == first_in@ + (%s - %s)' % (it, K, nn)] if it else []
    cnt = ['0 <= %s <= %s' % (nn, K)] + lnk
    fix = '*h == (H { e: h.e, ..%s })'
    live = lambda base: 'Slot::Live(%s)' % val.format('(p - (%s))' % base)
    sl = 'assert(h0.e@[%s@] is No); assert(!(%s <= %s@ < %s));' % (slot, e0, slot, c0) if slot else ''
    sl2 = 'assert(ha.e@[%s@] is Live); assert(!(newelements@ <= %s@ < newelements@ + newcapacity));' % (slot, slot) if slot else ''
    rng = 'apart(h0.e@, newelements@, newelements@ + newcapacity, first_in@, first_in@ + %s);' % K if it else ''
    pre = 'let ghost h1 = *h; proof { %s }' % sl
    preA = 'let ghost h1 = *h; proof { assert forall|p: int| newelements@ <= p < newelements@ + newcapacity implies #[trigger] h0.e@[p] is No by { assert(ha.e@[p] is No); } apart(h0.e@, newelements@, newelements@ + newcapacity, %s, %s); %s %s %s }' % (e0, c0, sl, sl2, rng)
    loops = [
        dict(before=preA, inv=[fix % 'h1', '%s <= i@ <= pos_in@' % e0, 'i@ - %s == o@ - %s' % (e0, N), pw((N, 'o@', 'h0.e@[p - %s + %s]' % (N, e0)), 'h1.e@[p]')],
             dec='pos_in@ - i@'),
        dict(inv=[fix % 'h1', 'o@ == %s + (%s - %s)' % (M1, K, nn), 'i@ == pos_in@', pw((N, M1, 'h0.e@[p - %s + %s]' % (N, e0)), (M1, 'o@', live(M1)), 'h1.e@[p]')] + cnt,
             dec=nn),
        dict(inv=[fix % 'h1', 'pos_in@ <= i@ <= ' + l0, 'i@ - pos_in@ == o@ - (%s)' % M2,
                  pw((N, M1, 'h0.e@[p - %s + %s]' % (N, e0)), (M1, M2, live(M1)), (M2, 'o@', 'h0.e@[p - %s - %s + %s]' % (N, K, e0)), 'h1.e@[p]')],
             dec='%s - i@' % l0),
        dict(before='let ghost h2 = *h;',
             inv=[fix % 'h2', '%s <= i@ <= %s' % (e0, l0), pw(('i@', l0, 'Slot::Raw'), 'h2.e@[p]')],
             dec='i@ - ' + e0, after='h.vo = Ghost(h.vo@.insert(newelements@, this@));'),
        dict(before=pre, inv=[fix % 'h1', 'pos_in@ <= i@ <= ' + l0, 'o@ == i@ + %s' % K,
                              pw(('o@', '%s + %s' % (l0, K), 'h0.e@[p - %s]' % K), ('i@', 'o@', 'Slot::Raw'), 'h1.e@[p]')],
             dec='i@ - pos_in@'),
        dict(inv=[fix % 'h1', 'o@ == pos_in@ + (%s - %s)' % (K, nn),
                  pw(('pos_in@', 'o@', live('pos_in@')), ('o@', 'pos_in@ + %s' % K, 'Slot::Raw'), ('pos_in@ + %s' % K, '%s + %s' % (l0, K), 'h0.e@[p - %s]' % K), 'h1.e@[p]')] + cnt,
             dec=nn),
        dict(before=pre, inv=['eqe(h1, *h, this@)', 'h.la@[this@] == %s + (%s - %s)' % (l0, K, nn),
                              pw((l0, 'h.la@[this@]', live(l0)), 'h1.e@[p]')] + cnt,
             dec=nn)]
    d0 = 'pos@ - ' + E0
    return mut('insert', ps, POS + req, ['ret@ == final(h).el@[this@] + (%s)' % d0,
               '%s =~= %s.subrange(0, %s) + %s + %s.subrange(%s, %s)' % (S1, S0, d0, new, S0, d0, SZ0)], loops, label=label, at={('alloc', 0, 'before'): 'let ghost ha = *h;'}, attrs='#[verifier::spinoff_prover] #[verifier::rlimit(400)]', **k)
POS = ['%s <= pos@ <= %s' % (E0, L0)]
ins('v_insert_n', ['const E *', 'unsigned long', 'const E &'], ['el(old(h).e@, x@)', SZ0 + ' + n <= MAXN()'],
    '(n_in as int)', 'ev(h0.e@, x@)', 'Seq::new(n as nat, |i: int| ev(old(h).e@, x@))', slot='m_x')
ins('v_insert_1', ['const E *', 'const E &'], ['el(old(h).e@, x@)', SZ0 + ' + 1 <= MAXN()'],
    '1', 'ev(h0.e@, x@)', 'seq![ev(old(h).e@, x@)]', slot='m_x', nn='n')
RNG = ['first@ <= last@', 'last@ - first@ <= MAXN()', 'forall|p: int| first@ <= p < last@ ==> #[trigger] old(h).e@[p] is Live', 'last@ <= %s || %s <= first@' % (E0, C0)]
ins('v_insert_r', ['const E *'] * 3, RNG + [SZ0 + ' + (last@ - first@) <= MAXN()'],
    '(last_in@ - first_in@)', 'ev(h0.e@, first_in@ + {})', 'sq(old(h).e@, first@, last@)', it='args_1', nn='n')
mut('push_back', ['const E &'], ['el(old(h).e@, x@)', SZ0 + ' + 1 <= MAXN()'], [S1 + ' =~= %s.push(ev(old(h).e@, x@))' % S0])
mut('erase', ['const E *', 'const E *'], ['%s <= first@ <= last@ <= %s' % (E0, L0)],
    ['ret@ == final(h).el@[this@] + (first@ - %s)' % E0, S1 + ' =~= %s.subrange(0, first@ - %s) + %s.subrange(last@ - %s, %s)' % (S0, E0, S0, E0, SZ0)],
    [dict(inv=['first_in@ <= l@ <= last_in@', '*h == (H { e: h.e, ..h0 })', pw(('l@', 'last_in@', 'Slot::Raw'), 'h0.e@[p]')], dec='l@ - f@'),
     dict(inv=['last_in@ <= i@ <= h0.la@[this@]', 'o@ == i@ - (last_in@ - first_in@)', '*h == (H { e: h.e, ..h0 })',
               pw(('first_in@', 'o@', 'h0.e@[p + (last_in@ - first_in@)]'), ('o@', 'i@', 'Slot::Raw'), 'h0.e@[p]')], dec='h0.la@[this@] - i@')], label='v_erase_r')
mut('erase', ['const E *'], ['%s <= pos@ < %s' % (E0, L0)], ['ret@ == final(h).el@[this@] + (pos@ - %s)' % E0, S1 + ' =~= %s.remove(pos@ - %s)' % (S0, E0)])
TMP = 'let ghost mut ha = h0; let ghost mut hb = h0; let ghost mut tt = 0int;'
TMPAT = {('call:v_insert_n', 0, 'before'): 'proof { ha = *h; tt = etmp@; }', ('call:v_insert_n', 0, 'after'): 'proof { hb = *h; }'}
mut('resize', ['unsigned long'], ['new_size <= MAXN()'],
    [S1 + ' =~= Seq::new(new_size as nat, |i: int| if i < %s.len() { %s[i] } else { vdef() })' % (S0, S0)],
    SHRINK('(h0.el@[this@] + new_size)'), entry=TMP, at=TMPAT, exit='if tt != 0 { stack_tmp(h0, ha, hb, *h, tt, this@); }')
mut('resize', ['unsigned long', 'const E &'], ['new_size <= MAXN()', 'el(old(h).e@, x@)'],
    [S1 + ' =~= Seq::new(new_size as nat, |i: int| if i < %s.len() { %s[i] } else { ev(old(h).e@, x@) })' % (S0, S0)], label='v_resize_v')
# ---- construction, destruction, assignment
DEAD = ['wf(*old(h))', '!old(h).vs@[this@]']
CFR = ['wf(*final(h))', 'frn(*old(h), *final(h), this@)']
def ctor(ps, req, ens, loops=(), label=None, exit='wf_new(h0, *h, this@);', entry='', **k):
    f = Fn(label, V + '::ctor', ps, 'C01 C02 C23', DEAD + req, CFR + ens, loops, entry=entry,
           exit='h.vs = Ghost(h.vs@.insert(this@, true));proof { %s }' % exit, **k)
    FNS.append(f)
VO = 'h.vo = Ghost(h.vo@.insert(h.el@[this@], this@));'
NEWFIX = ['*h == (H { e: h.e, la: h.la, ..h1 })', 'forall|w: int| w != this@ ==> #[trigger] h.la@[w] == h0.la@[w]']
NEW = 'h1.el@[this@]'
NPRE = 'let ghost h1 = *h;'
ctor([], [], [S1 + ' =~= Seq::<Val>::empty()'], label='v_ctor')
CNT = ['h.la@[this@] == %s + (n_in - n)' % NEW, '0 <= n <= n_in']
ctor(['unsigned long'], ['n <= MAXN()'], [S1 + ' =~= Seq::new(n as nat, |i: int| vdef())'],
     [dict(before=NPRE, inv=NEWFIX + CNT + [pw((NEW, 'h.la@[this@]', 'Slot::Live(vdef())'), 'h1.e@[p]')], dec='n', after=VO)], label='v_ctor_n')
ctor(['unsigned long', 'const E &'], ['n <= MAXN()', 'el(old(h).e@, value@)'], [S1 + ' =~= Seq::new(n as nat, |i: int| ev(old(h).e@, value@))'],
     [dict(before=NPRE, inv=NEWFIX + CNT + [pw((NEW, 'h.la@[this@]', 'Slot::Live(ev(h0.e@, value@))'), 'h1.e@[p]')], dec='n', after=VO)], label='v_ctor_nv')
OL0, OL1 = 'h0.el@[other@]', 'h0.la@[other@]'
ctor(['const vector<E> &'], ['old(h).vs@[other@]'], [S1 + ' =~= sv(*old(h), other@)', 'sv(*final(h), other@) =~= sv(*old(h), other@)'],
     [dict(before=NPRE + 'proof { apart(h0.e@, %s, h1.en@[this@], %s, h0.en@[other@]); }' % (NEW, OL0),
           inv=NEWFIX + ['%s <= i@ <= %s' % (OL0, OL1), 'i@ - %s == h.la@[this@] - %s' % (OL0, NEW), pw((NEW, 'h.la@[this@]', 'h0.e@[p - %s + %s]' % (NEW, OL0)), 'h1.e@[p]')],
           dec='%s - i@' % OL1, after=VO)], entry='proof { assert(wfv(h0, other@)); }', label='v_ctor_copy')
FILL = lambda h, st='Seq::<Val>::empty()': [dict(
     before='let ghost h1 = *h;',
     inv=['wf(*h)', 'h.vs@[this@]', 'fr(h1, *h, this@)', 'first_in@ <= first@ <= last_in@', '%s =~= sq(h0.e@, first_in@, first@)' % 'sv(*h, this@)',
          'forall|p: int| first_in@ <= p < last_in@ ==> #[trigger] h.e@[p] == h0.e@[p]', 'outside(*h, this@, first_in@, last_in@)'],
     dec='last_in@ - first@', top='let ghost h2 = *h; proof { assert(wfv(h2, this@)); assert(h2.e@[first@] == h0.e@[first@]); }',
     bot='proof { fr_trans(h1, h2, *h, this@); kept_range(h2, *h, this@, first_in@, last_in@); }')]
ctor(['const E *', 'const E *'], RNG[:3], [S1 + ' =~= sq(old(h).e@, first@, last@)'],
     FILL('h1'), at={('call:v_reserve', 0, 'before'): 'h.vs = Ghost(h.vs@.insert(this@, true)); let ghost hA = *h; proof { wf_new(h0, hA, this@); }',
    ('call:v_reserve', 0, 'after'): 'proof { kept_range(hA, *h, this@, first@, last@); }'}, label='v_ctor_r',
    exit='assert(h.vs@ =~= h0.vs@.insert(this@, true)); frx_trans(hA, h1, *h, this@, 0, 0); wf_new(h0, *h, this@);')
f = Fn('v_dtor', V + '::dtor', [], 'C02', LIVE, ['wf(*final(h))', 'gone(*old(h), *final(h), this@)'],
       entry='proof { %s }' % WFQ, at={('call:v_clear', 0, 'after'): 'proof { assert(wfv(*h, this@)); }'}, exit='h.vs = Ghost(h.vs@.insert(this@, false)); proof { wf_gone(h0, *h, this@); }')
FNS.append(f)
mut('operator=', ['const vector<E> &'], ['old(h).vs@[other@]'], ['ret@ == this@', S1 + ' =~= sv(*old(h), other@)', 'sv(*final(h), other@) =~= sv(*old(h), other@)'],
    [dict(before='let ghost h2 = *h; proof { fr_trans(h0, h1, h2, this@); assert(wfv(h2, this@)); assert(wfv(h2, other@)); }',
          inv=['eqe(h2, *h, this@)', 'h2.el@[other@] <= i@ <= h2.la@[other@]', 'i@ - h2.el@[other@] == h.la@[this@] - h2.el@[this@]',
               pw(('h2.el@[this@]', 'h.la@[this@]', 'h2.e@[p - h2.el@[this@] + h2.el@[other@]]'), 'h2.e@[p]')], dec='h2.la@[other@] - i@')],
    entry='proof { assert(wfv(h0, other@)); }', at={('call:v_clear', 0, 'after'): 'let ghost h1 = *h; proof { wf_fr(h0, h1, this@); other_kept(h0, h1, this@, other@); assert(wfv(h1, other@)); }'}, label='v_assign_op')
mut('assign', ['unsigned long', 'const E &'], ['n <= MAXN()', 'el(old(h).e@, value@)', '!(%s <= value@ < %s)' % (E0, C0)],
    [S1 + ' =~= Seq::new(n as nat, |i: int| ev(old(h).e@, value@))'],
    [dict(before='let ghost h2 = *h; proof { fr_trans(h0, h1, h2, this@); assert(wfv(h2, this@)); kept_range(h0, h1, this@, value@, value@ + 1); kept_range(h1, h2, this@, value@, value@ + 1); }',
          inv=['eqe(h2, *h, this@)', 'h.la@[this@] == h2.el@[this@] + (n_in - n)', '0 <= n <= n_in',
               pw(('h2.el@[this@]', 'h.la@[this@]', 'Slot::Live(ev(h0.e@, value@))'), 'h2.e@[p]')], dec='n')],
    at={('call:v_clear', 0, 'after'): 'let ghost h1 = *h;'}, label='v_assign_n')
mut('assign', ['const E *', 'const E *'], RNG, [S1 + ' =~= sq(old(h).e@, first@, last@)'], FILL('h1'),
    at={('call:v_clear', 0, 'after'): 'proof { kept_range(h0, *h, this@, first@, last@); }'}, exit='fr_trans(h0, h1, *h, this@);', label='v_assign_r')
f = Fn('v_swap', V + '::swap', None, 'C01 C02', LIVE + ['old(h).vs@[x@]'],
       ['wf(*final(h))', 'swapped(*old(h), *final(h), this@, x@)', 'sv(*final(h), this@) =~= sv(*old(h), x@)', 'sv(*final(h), x@) =~= sv(*old(h), this@)'],
       entry='proof { assert(wfv(h0, this@)); assert(wfv(h0, x@)); }', exit='h.vo = Ghost(if this@ == x@ { h.vo@ } else { h.vo@.insert(h.el@[this@], this@).insert(h.el@[x@], x@) }); proof { wf_swap(h0, *h, this@, x@); }')
FNS.append(f)
# ---- equality
PW = 'forall|i: int| 0 <= i < last1@ - first1@ ==> veq(ev(h.e@, first1@ + i), ev(h.e@, first2@ + i))'
FNS.append(Fn('equal4', 'ttl::equal', ['const E *'] * 4, 'C01 C23', ['first1@ <= last1@', 'first2@ <= last2@', 'live(old(h).e@, first1@, last1@)', 'live(old(h).e@, first2@, last2@)'],
    ['ret == eqs(sq(old(h).e@, first1@, last1@), sq(old(h).e@, first2@, last2@))', SAME],
    [dict(inv=['*h == h0', 'first1_in@ <= first1@ <= last1_in@', 'first2_in@ <= first2@ <= last2_in@', 'first1@ - first1_in@ == first2@ - first2_in@',
               'forall|i: int| 0 <= i < first1@ - first1_in@ ==> veq(#[trigger] sq(h0.e@, first1_in@, last1_in@)[i], sq(h0.e@, first2_in@, last2_in@)[i])'], dec='last1_in@ - first1@',
          top='proof { if first1@ < last1@ && first2@ < last2@ { assert(sq(h0.e@, first1_in@, last1_in@)[first1@ - first1_in@] == ev(h0.e@, first1@)); assert(sq(h0.e@, first2_in@, last2_in@)[first1@ - first1_in@] == ev(h0.e@, first2@)); } }')]))
for nm, lab, neg in (('operator==', 'v_eq', ''), ('operator!=', 'v_ne', '!')):
    FNS.append(Fn(lab, 'ttl::' + nm, ['const vector<E> &'] * 2, 'C01 C23', ['wf(*old(h))', 'old(h).vs@[a@]', 'old(h).vs@[b@]'],
        ['ret == %seqs(sv(*old(h), a@), sv(*old(h), b@))' % neg, SAME], entry='proof { assert(wfv(h0, a@)); assert(wfv(h0, b@)); }'))
VERUS = ['--rlimit', '60']
