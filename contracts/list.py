"""Contracts of list.hpp: C05, C06, parts of C23."""
from lib.family import Fn
from lib.xlate import Family
from contracts.emit import _eq, _lt, _ne, _pred

TU = r'''
#include <ttl/types.hpp>
#include <ttl/utility.hpp>
#include <ttl/functional.hpp>
#include <ttl/algorithm.hpp>
#include <ttl/list.hpp>
struct E { E(); E(const E &); ~E(); E &operator=(const E &); int v; };
bool operator==(const E &, const E &);
bool operator<(const E &, const E &);
bool operator!=(const E &, const E &);
struct P1 { bool operator()(const E &) const; };
struct BP { bool operator()(const E &, const E &) const; };
struct CP { bool operator()(const E &, const E &) const; };
namespace ttl {

// client code: the member functions of the iterators run
template class list<E>;
template void list<E>::insert(list<E>::const_iterator, list<E>::const_iterator, list<E>::const_iterator);
template void list<E>::insert(list<E>::const_iterator, const E *, const E *);
template list<E>::list(list<E>::const_iterator, list<E>::const_iterator);
template list<E>::list(const E *, const E *);
template void list<E>::assign(list<E>::const_iterator, list<E>::const_iterator);
template void list<E>::assign(const E *, const E *);
inline list<E>::iterator it_inc(list<E>::iterator i) { return ++i; }
inline list<E>::iterator it_dec(list<E>::iterator i) { return --i; }
inline list<E>::iterator it_pinc(list<E>::iterator i) { return i++; }
inline list<E>::iterator it_pdec(list<E>::iterator i) { return i--; }
inline list<E>::iterator it_pinc2(list<E>::iterator i) { i++; return i; }
inline list<E>::iterator it_pdec2(list<E>::iterator i) { i--; return i; }
inline E &it_get(list<E>::iterator i) { return *i; }
inline E *it_arrow(list<E>::iterator i) { return i.operator->(); }
inline bool it_eq(list<E>::iterator i, list<E>::iterator j) { return i == j; }
inline bool it_ne(list<E>::iterator i, list<E>::iterator j) { return i != j; }
inline bool it_eqc(list<E>::iterator i, list<E>::const_iterator j) { return i == j; }
inline bool it_nec(list<E>::iterator i, list<E>::const_iterator j) { return i != j; }
inline list<E>::const_iterator ci_inc(list<E>::const_iterator i) { return ++i; }
inline list<E>::const_iterator ci_dec(list<E>::const_iterator i) { return --i; }
inline list<E>::const_iterator ci_pinc(list<E>::const_iterator i) { return i++; }
inline list<E>::const_iterator ci_pdec(list<E>::const_iterator i) { return i--; }
inline list<E>::const_iterator ci_pinc2(list<E>::const_iterator i) { i++; return i; }
inline list<E>::const_iterator ci_pdec2(list<E>::const_iterator i) { i--; return i; }
inline const E &ci_get(list<E>::const_iterator i) { return *i; }
inline const E *ci_arrow(list<E>::const_iterator i) { return i.operator->(); }
inline bool ci_eq(list<E>::const_iterator i, list<E>::const_iterator j) { return i == j; }
inline bool ci_ne(list<E>::const_iterator i, list<E>::const_iterator j) { return i != j; }
inline list<E>::const_iterator ci_conv(list<E>::iterator i) { return i; }
template void list<E>::remove_if(P1);
template void list<E>::unique(BP);
template void list<E>::merge(list<E> &, CP);
template bool operator==(const list<E> &, const list<E> &);
template bool operator!=(const list<E> &, const list<E> &);
}
'''
L = 'ttl::list<E>'
N = 'ttl::list_node'
FAM = Family(name='list', elems={'E'},
    value_classes=[L + r'::iterator', L + '::const_iterator'],
    fields={(N, 'next'): ('heap', 'next', 'Ptr'), (N, 'prev'): ('heap', 'prev', 'Ptr'), (L, 'head_'): ('off', 0), (L + '::node', 'value'): ('eslot', 0)},
    node_kinds=[(L + '::node', 'node_new', 'node_del')],
    opaque=[(r'operator==', _eq), (r'operator<', _lt), (r'operator!=', _ne), (r'P1::operator\(\)', _pred('p_call')), (r'BP::operator\(\)', _pred('bp_call')), (r'CP::operator\(\)', _pred('cp_call'))],
    sizeof=[(r'type:E', '1u64')])
PRELUDE = ['common.rs', 'elem.rs', 'list.rs', 'eops.rs']
VERUS = ['--rlimit', '60']
FNS = []
SAME = '*final(h) == *old(h)'
P = 'C05 C06'
def f(name, ps, req, ens, loops=(), label=None, const=None, props=P, cls=L, **k):
    g = Fn(label or 'l_' + name, cls + '::' + name, ps, props, req, ens, loops, **k)
    g.const = const
    FNS.append(g)
# ---- links

OWN, IDX = '(old(h).own@)(%s)', '(old(h).idx@)(%s)'
f('insert_before', None, ['wfx(*old(h), 0, n@)', 'n@ != 0', 'n@ != this@', 'el(old(h).e@, n@)', 'ispos(*old(h), this@)'],
  ['ret@ == n@', 'wf(*final(h))', 'insd(*old(h), *final(h), lof(*old(h), this@), pix(*old(h), this@), n@)'], cls=N, label='n_insert_before',
  entry='let ghost l = lof(*h, this@); let ghost k = pix(*h, this@); proof { seq_ins(h.seq@[l], k, n@); assert(h0.nd@[n@]); }',
  exit='h.seq = Ghost(ins_seq(h0, l, k, n_in@)); h.own = Ghost(ins_own(h0, l, n_in@)); h.idx = Ghost(ins_idx(h0, l, k, n_in@));')
f('unlink', None, ['wf(*old(h))', OWN % 'this@' + ' != 0'], ['wfx(*final(h), 0, this@)', 'deld(*old(h), *final(h), this@)', 'final(h).next@[this@] == old(h).next@[this@]', 'final(h).prev@[this@] == old(h).prev@[this@]'], cls=N, label='n_unlink',
  entry='let ghost l = (h.own@)(this@); let ghost k = (h.idx@)(this@); proof { seq_del(h.seq@[l], k); assert(h0.nd@[this@]); }',
  exit='h.seq = Ghost(del_seq(h0, l, k)); h.own = Ghost(del_own(h0, this@)); h.idx = Ghost(del_idx(h0, l, k));')

f('reverse', None, ['wf(*old(h))', 'old(h).hd@[this@]'], ['wf(*final(h))', 'revd(*old(h), *final(h), this@)'],
  [dict(inv=['*h == (H { next: h.next, prev: h.prev, ..h0 })', 'p@ == this@ || (h0.own@)(p@) == this@',
             'forall|q: int| #[trigger] h.next@[q] == (if done(h0, this@, p@, q) { h0.prev@[q] } else { h0.next@[q] })',
             'forall|q: int| #[trigger] h.prev@[q] == (if done(h0, this@, p@, q) { h0.next@[q] } else { h0.prev@[q] })'],
        dec='if p@ == this@ { h0.seq@[this@].len() as int + 1 } else { h0.seq@[this@].len() - (h0.idx@)(p@) }')], cls=N, label='n_reverse',
  exit='h.seq = Ghost(h0.seq@.insert(this@, h0.seq@[this@].reverse())); h.idx = Ghost(rev_idx(h0, this@));')
f('swap', None, ['wf(*old(h))', 'old(h).hd@[a@]', 'old(h).hd@[b@]'], ['wf(*final(h))', 'swpd(*old(h), *final(h), a@, b@)'], cls=N, label='n_swap',
  exit='h.seq = Ghost(h0.seq@.insert(a_in@, h0.seq@[b_in@]).insert(b_in@, h0.seq@[a_in@])); h.own = Ghost(swp_own(h0, a_in@, b_in@));')
RNG = ['ispos(*old(h), first@)', 'ispos(*old(h), last@)', 'lof(*old(h), first@) == lof(*old(h), last@)', 'pix(*old(h), first@) <= pix(*old(h), last@)']
MV = 'mvd(*old(h), *final(h), lof(*old(h), this@), pix(*old(h), this@), lof(*old(h), first@), pix(*old(h), first@), pix(*old(h), last@))'
f('splice', None, ['wf(*old(h))', 'ispos(*old(h), this@)', 'lof(*old(h), this@) == lof(*old(h), first@) ==> pix(*old(h), this@) <= pix(*old(h), first@) || pix(*old(h), last@) <= pix(*old(h), this@)', 'first@ == last@ || this@ != first@'] + RNG,
  ['wf(*final(h))', MV], cls=N, label='n_splice', attrs='#[verifier::spinoff_prover] #[verifier::rlimit(400)]',
  entry='let ghost l = lof(*h, this@); let ghost k = pix(*h, this@); let ghost m = lof(*h, first@); let ghost i = pix(*h, first@); let ghost j = pix(*h, last@);',
  exit='h.seq = Ghost(mv_seq(h0, l, k, m, i, j)); h.own = Ghost(mv_own(h0, l, m, i, j)); h.idx = Ghost(mv_idx(h0, l, k, m, i, j)); proof { if i < j && this@ != last_in@ { lem_spl(h0, *h, l, k, m, i, j); } }')

# ---- the class
LV = ['wf(*old(h))', 'old(h).hd@[this@]']
Q0, Q1 = 'old(h).seq@[this@]', 'final(h).seq@[this@]'
V0, V1 = 'vals(*old(h), this@)', 'vals(*final(h), this@)'
CH = ['wf(*final(h))', 'fr(*old(h), *final(h), this@)']
def POS(p): return ['ispos(*old(h), %s@)' % p, 'lof(*old(h), %s@) == this@' % p]
def m(name, ps, req, ens, loops=(), **k): f(name, ps, LV + req, ens, loops, **k)
for c, sfx in ((False, ''), (True, '_c')):
    m('begin', [], [], ['ret@ == at(*old(h), this@, 0)', SAME], const=c, label='l_begin' + sfx)
    m('end', [], [], ['ret@ == this@', SAME], const=c, label='l_end' + sfx)
    m('front', [], [Q0 + '.len() > 0'], ['ret@ == %s[0]' % Q0, SAME], const=c, label='l_front' + sfx)
    m('back', [], [Q0 + '.len() > 0'], ['ret@ == %s.last()' % Q0, SAME], const=c, label='l_back' + sfx)
m('cbegin', [], [], ['ret@ == at(*old(h), this@, 0)', SAME])
m('cend', [], [], ['ret@ == this@', SAME])
m('empty', [], [], ['ret == (%s.len() == 0)' % Q0, SAME])
m('size', [], [Q0 + '.len() <= MAXN()'], ['ret == %s.len()' % Q0, SAME], [dict(inv=['*h == h0', 'ispos(*h, n@)', 'lof(*h, n@) == this@', 'siz == pix(*h, n@)'], dec='h.seq@[this@].len() - siz')])
INS = lambda k, r, v: ['%s == %s.insert(%s, %s)' % (Q1, Q0, k, r), '%s =~= %s.insert(%s, %s)' % (V1, V0, k, v)]
EV = ['el(old(h).e@, value@)']
VV = 'ev(old(h).e@, value@)'
m('push_front', None, EV, CH + [V1 + ' =~= seq![%s] + %s' % (VV, V0), Q1 + '.drop_first() =~= ' + Q0])
m('push_back', None, EV, CH + [V1 + ' =~= %s.push(%s)' % (V0, VV), Q1 + '.drop_last() =~= ' + Q0])
m('insert', ['re:.*const_iterator', 'const E &'], EV + POS('pos_0'), CH + INS('pix(*old(h), pos_0@)', 'ret@', VV), label='l_insert_1')

DEL = lambda k: ['%s == %s.remove(%s)' % (Q1, Q0, k), '%s =~= %s.remove(%s)' % (V1, V0, k)]
m('pop_front', None, [Q0 + '.len() > 0'], CH + DEL('0'))
m('pop_back', None, [Q0 + '.len() > 0'], CH + DEL('%s.len() - 1' % Q0))
m('erase', ['re:.*const_iterator'], ['(old(h).own@)(pos_0@) == this@'], CH + DEL('(old(h).idx@)(pos_0@)') + ['ret@ == at(*old(h), this@, (old(h).idx@)(pos_0@) + 1)'], label='l_erase_1')
# erase of a range (see known_findings.txt for what it removes): the nodes from pos up to some position not behind last go, each freed once
EA, EB = 'pix(h0, pos_0@)', 'pix(h0, last_0@)'
ES = 'h0.seq@[this@]'
m('erase', ['re:.*const_iterator', 're:.*const_iterator'], POS('pos_0') + POS('last_0') + ['pix(*old(h), pos_0@) < pix(*old(h), last_0@)'],
  CH + ['kept(*old(h), *final(h), this@)', 'cut(%s, %s, pix(*old(h), pos_0@), pix(*old(h), last_0@))' % (Q0, Q1), 'ret@ == last_0@'],
  [dict(before='let ghost mut j = %s;' % EA, inv=['wf(*h)', 'h.hd@[this@]', 'fr(h0, *h, this@)', 'kept(h0, *h, this@)', '%s <= j < %s' % (EA, EB), 'p@ == %s[j]' % ES, '(h.own@)(p@) == this@', '(h.idx@)(p@) == ' + EA,
        'h.seq@[this@] =~= %s.subrange(0, %s) + %s.subrange(j, %s.len() as int)' % (ES, EA, ES, ES)], dec='%s - j' % EB,
        top='let ghost hb = *h; proof { let s = h.seq@[this@]; let k = %s; assert(s[k] == p@); assert((h.idx@)(p@) == k); if j + 1 < %s.len() { assert(s[k + 1] == %s[j + 1]); } }' % (EA, ES, ES),
        bot='proof { fr_trans(h0, hb, *h, this@); j = j + 1; }')],
  label='l_erase_r', props='C06', exit='proof { let s = h.seq@[this@]; let k = %s; assert(s[k] == p@); assert((h.idx@)(p@) == k); }' % EA)
# ---- moving nodes between lists
def SPL(first, last): return ['wf(*final(h))', 'mvs(*old(h), *final(h), this@, pix(*old(h), pos_0@), %s)' % ', '.join([first[0], first[1], last])]
m('splice', ['re:.*const_iterator', 're:list<E>&'], ['old(h).hd@[other@]', 'other@ != this@'] + POS('pos_0'), SPL(('other@', '0'), 'old(h).seq@[other@].len() as int'), label='l_splice_l')
m('splice', ['re:.*const_iterator', 're:list<E>&', 're:.*const_iterator'], ['(old(h).own@)(it_0@) != 0'] + POS('pos_0'), SPL(('(old(h).own@)(it_0@)', '(old(h).idx@)(it_0@)'), '(old(h).idx@)(it_0@) + 1'), label='l_splice_1')
m('splice', ['re:.*const_iterator', 're:list<E>&', 're:.*const_iterator', 're:.*const_iterator'],
  ['lof(*old(h), first_0@) == this@ ==> pix(*old(h), pos_0@) <= pix(*old(h), first_0@) || pix(*old(h), last_0@) <= pix(*old(h), pos_0@)', 'pos_0@ != first_0@ || first_0@ == last_0@'] + POS('pos_0') + [x.replace('first@', 'first_0@').replace('last@', 'last_0@') for x in RNG],
  SPL(('lof(*old(h), first_0@)', 'pix(*old(h), first_0@)'), 'pix(*old(h), last_0@)'), label='l_splice_r')
m('swap', None, ['old(h).hd@[other@]'], ['wf(*final(h))', 'relinked(*old(h), *final(h))', Q1 + ' == old(h).seq@[other@]', 'final(h).seq@[other@] == ' + Q0, 'forall|q: int| q != this@ && q != other@ ==> #[trigger] final(h).seq@[q] == old(h).seq@[q]'])
m('reverse', None, [], ['wf(*final(h))', 'relinked(*old(h), *final(h))', Q1 + ' == %s.reverse()' % Q0, V1 + ' =~= %s.reverse()' % V0, 'forall|q: int| q != this@ ==> #[trigger] final(h).seq@[q] == old(h).seq@[q]'])

# ---- insertion in loops: seq describes the values that have been inserted so far
def GROW(seq, p, k, extra, dec, val, l='this@', base='h0'):
    inv = ['wf(*h)', 'h.hd@[%s]' % l, 'fr(%s, *h, %s)' % (base, l), 'grown(%s, *h, %s, %s, %s)' % (base, l, k, seq), 'ispos(*h, %s)' % p, 'lof(*h, %s) == %s' % (p, l), 'pix(*h, %s) == %s + (%s).len()' % (p, k, seq)] + extra
    return dict(inv=inv, dec=dec, pre='let ghost hb = *h; let ghost vb = %s;' % seq,
                bot='proof { let nn = h.seq@[%s][%s + vb.len()]; grow_step(%s, hb, *h, %s, %s, vb, nn); fr_trans(%s, hb, *h, %s); assert(vb.push(%s) =~= %s); }' % (l, k, base, l, k, base, l, val, seq))
def ADDED(k, seq): return ['grown(*old(h), *final(h), this@, %s, %s)' % (k, seq)]
m('insert', ['re:.*const_iterator', 'unsigned long', 'const E &'], EV + POS('pos_0'), CH + ADDED('pix(*old(h), pos_0@)', 'rep(n as int, %s)' % VV),
  [GROW('rep(n_in - n, ev(h0.e@, value@))', 'p@', 'pix(h0, pos_0@)', ['0 <= n <= n_in', 'h.e@[value@] == h0.e@[value@]'], 'n', 'ev(h0.e@, value@)')], label='l_insert_n')

CI = 're:.*const_iterator'
FL = ['isrange(*old(h), first_0@, last_0@)', 'lof(*old(h), first_0@) != this@']
FA = ['first@ <= last@', 'forall|p: int| first@ <= p < last@ ==> #[trigger] old(h).e@[p] is Live && (old(h).own@)(p) == 0']
m('insert', [CI] * 3, FL + POS('pos_0'), CH + ADDED('pix(*old(h), pos_0@)', 'vrange(*old(h), first_0@, last_0@)'),
  [GROW('vrange(h0, first_0_in@, first_0@)', 'p@', 'pix(h0, pos_0@)', ['isrange(h0, first_0_in@, first_0@)', 'isrange(h0, first_0@, last_0@)'], 'pix(h0, last_0@) - pix(h0, first_0@)', 'ev(h0.e@, fb)').copy()], label='l_insert_r')
FNS[-1].loops[0]['pre'] += ' let ghost fb = first_0@;'
m('insert', [CI, 'const E *', 'const E *'], FA + POS('pos_0'), CH + ADDED('pix(*old(h), pos_0@)', 'sq(old(h).e@, first@, last@)'),
  [GROW('sq(h0.e@, first_in@, first@)', 'p@', 'pix(h0, pos_0@)', ['first_in@ <= first@ <= last@', 'forall|p: int| first_in@ <= p < last@ ==> #[trigger] h.e@[p] == h0.e@[p]'], 'last@ - first@', 'ev(h0.e@, fb)')], label='l_insert_a')
FNS[-1].loops[0]['pre'] += ' let ghost fb = first@;'
m('clear', [], [], CH + ['%s =~= Seq::<int>::empty()' % Q1],
  [dict(inv=['wfx(*h, this@, 0)', 'h.hd@[this@]', 'fr(h0, *h, this@)'], dec='h.seq@[this@].len()',
        pre='let ghost hb = *h;', bot='h.seq = Ghost(del_seq(hb, this@, 0)); h.own = Ghost(del_own(hb, hb.next@[this@])); h.idx = Ghost(del_idx(hb, this@, 0)); proof { seq_del(hb.seq@[this@], 0); fr_trans(h0, hb, *h, this@); }')])

# ---- iterators
def it(name, ps, req, ens): FNS.append(Fn(name, 'ttl::' + name, None, P, ['wf(*old(h))'] + req, ens + [SAME]))
NX = '(if old(h).hd@[i_0@] { at(*old(h), i_0@, 0) } else { at(*old(h), (old(h).own@)(i_0@), (old(h).idx@)(i_0@) + 1) })'
PV = 'at(*old(h), lof(*old(h), i_0@), pix(*old(h), i_0@) - 1)'
for c in ('it_', 'ci_'):
    it(c + 'inc', None, ['ispos(*old(h), i_0@)'], ['ret@ == ' + NX])
    it(c + 'dec', None, ['ispos(*old(h), i_0@)'], ['ret@ == ' + PV])
    it(c + 'pinc', None, ['ispos(*old(h), i_0@)'], ['ret@ == i_0@'])
    it(c + 'pdec', None, ['ispos(*old(h), i_0@)'], ['ret@ == i_0@'])
    it(c + 'pinc2', None, ['ispos(*old(h), i_0@)'], ['ret@ == ' + NX])
    it(c + 'pdec2', None, ['ispos(*old(h), i_0@)'], ['ret@ == ' + PV])
    it(c + 'get', None, ['(old(h).own@)(i_0@) != 0'], ['ret@ == i_0@', 'el(old(h).e@, ret@)'])
    it(c + 'arrow', None, ['(old(h).own@)(i_0@) != 0'], ['ret@ == i_0@', 'el(old(h).e@, ret@)'])
    it(c + 'eq', None, [], ['ret == (i_0@ == j_0@)'])
    it(c + 'ne', None, [], ['ret == (i_0@ != j_0@)'])
it('it_eqc', None, [], ['ret == (i_0@ == j_0@)'])
it('it_nec', None, [], ['ret == (i_0@ != j_0@)'])
it('ci_conv', None, [], ['ret@ == i_0@'])
# ---- construction, destruction, assignment
DEAD = ['wf(*old(h))', 'this@ != 0', '!old(h).hd@[this@]', '!old(h).nd@[this@]']
BORN = 'h.hd = Ghost(h.hd@.insert(this@, true)); h.seq = Ghost(h.seq@.insert(this@, Seq::<int>::empty()));'
def ctor(label, ps, req, ens, call=None):
    k = {}
    if call:
        k = dict(at={('call:' + call, 0, 'before'): 'let ghost h1 = *h;'}, exit='proof { fr_trans(h0, h1, *h, this@); }')
    f('ctor', ps, DEAD + req, CH + ens, label=label, entry=BORN, props='C05 C06 C23', **k)
ctor('l_ctor', [], [], [V1 + ' =~= Seq::<Val>::empty()'])
ctor('l_ctor_copy', ['re:constlist<E>&'], ['old(h).hd@[other@]'], [V1 + ' =~= vals(*old(h), other@)', 'vals(*final(h), other@) =~= vals(*old(h), other@)'], 'l_insert_r')
ctor('l_ctor_n', ['unsigned long', 'const E &'], EV, [V1 + ' =~= rep(n as int, %s)' % VV], 'l_insert_n')
FL0 = ['isrange(*old(h), first_0@, last_0@)']
ctor('l_ctor_r', [CI, CI], FL0, [V1 + ' =~= vrange(*old(h), first_0@, last_0@)'], 'l_insert_r')
ctor('l_ctor_a', ['const E *', 'const E *'], FA, [V1 + ' =~= sq(old(h).e@, first@, last@)'], 'l_insert_a')
f('dtor', [], LV, ['wf(*final(h))', 'gone(*old(h), *final(h), this@)'], label='l_dtor', exit='h.hd = Ghost(h.hd@.insert(this@, false));')
CLR = dict(entry='let ghost mut hm = h0;', at={('call:l_clear', 0, 'after'): 'proof { hm = *h; }'}, exit='proof { fr_trans(h0, hm, *h, this@); }')
m('operator=', None, ['old(h).hd@[other@]'], CH + ['ret@ == this@', V1 + ' =~= vals(*old(h), other@)', 'vals(*final(h), other@) =~= vals(*old(h), other@)'], label='l_assign_op', props='C05 C06 C23', **CLR)
m('assign', ['unsigned long', 'const E &'], EV + ['(old(h).own@)(value@) != this@'], CH + [V1 + ' =~= rep(n as int, %s)' % VV], label='l_assign_n', **CLR)
m('assign', [CI, CI], FL, CH + [V1 + ' =~= vrange(*old(h), first_0@, last_0@)'], label='l_assign_r', **CLR)
m('assign', ['const E *', 'const E *'], FA, CH + [V1 + ' =~= sq(old(h).e@, first@, last@)'], label='l_assign_a', **CLR)
# ---- resize
S0h = 'h0.seq@[this@]'
def RS(val, hv=''):
    return [dict(inv=['*h == h0', 'ispos(*h, p@)', 'lof(*h, p@) == this@', 'siz == pix(*h, p@)', 'siz < newsize'], dec='%s.len() - siz' % S0h),
            dict(inv=['wf(*h)', 'h.hd@[this@]', 'fr(h0, *h, this@)', 'kept(h0, *h, this@)', '0 < newsize <= h.seq@[this@].len() <= %s.len()' % S0h,
                      'h.seq@[this@] =~= %s.subrange(0, h.seq@[this@].len() as int)' % S0h, '(h.own@)(p@) == this@', '(h.idx@)(p@) == newsize - 1'], dec='h.seq@[this@].len()',
                 pre='let ghost hb = *h;', bot='proof { fr_trans(h0, hb, *h, this@); }'),
            GROW('rep(siz - %s.len(), %s)' % (S0h, val), 'this@', '%s.len() as int' % S0h, ['%s.len() <= siz <= newsize' % S0h] + ([hv] if hv else []), 'newsize - siz', val)]
SZ = 'Seq::new(newsize as nat, |i: int| if i < %s.len() { %s[i] } else { %s })'
m('resize', ['unsigned long'], [], CH + [V1 + ' =~= ' + SZ % (V0, V0, 'vdef()'), Q1 + '.subrange(0, min(newsize as int, %s.len() as int)) =~= %s.subrange(0, min(newsize as int, %s.len() as int))' % (Q0, Q0, Q0)], RS('vdef()'))
m('resize', ['unsigned long', 'const E &'], EV, CH + [V1 + ' =~= ' + SZ % (V0, V0, VV), Q1 + '.subrange(0, min(newsize as int, %s.len() as int)) =~= %s.subrange(0, min(newsize as int, %s.len() as int))' % (Q0, Q0, Q0)],
  RS('ev(h0.e@, value@)', 'h.e@[value@] == h0.e@[value@]'), label='l_resize_v')
# ---- filters
REST = "%s.subrange(j, %s.len() as int)" % (S0h, S0h)
def FILT(res, step, extra=(), own=''):
    return [dict(before='let ghost mut j = %s;' % ('min(1, %s.len() as int)' % S0h if 'uqn' in res else '0int'),
        inv=['wf(*h)', 'h.hd@[this@]', 'fr(h0, *h, this@)', 'kept(h0, *h, this@)', '0 <= j <= %s.len()' % S0h,
             'h.seq@[this@] =~= %s + %s' % (res, REST), 'p@ == (if j < %s.len() { %s[j] } else { this@ })' % (S0h, S0h), 'n@ == (if j == %s.len() { h.next@[this@] } else if j + 1 < %s.len() { %s[j + 1] } else { this@ })' % (S0h, S0h, S0h)] + list(extra),
        dec='%s.len() - j' % S0h,
        top='let ghost hb = *h; proof { let b = %s; assert(%s == h.seq@[this@][b.len() as int]); assert((h.idx@)(p@) == b.len()); if j + 1 < %s.len() { assert(%s[j + 1] == h.seq@[this@][b.len() as int + 1]); } %s }' % (res, S0h + '[j]', S0h, S0h, step),
        bot='proof { fr_trans(h0, hb, *h, this@); j = j + 1; }')]
def KEEP(d): return CH + [Q1 + ' == ' + d, 'kept(*old(h), *final(h), this@)']
m('remove_if', None, [], KEEP('fln(%s, d_pp(old(h).e@))' % Q0), FILT('fln(%s.subrange(0, j), d_pp(h0.e@))' % S0h, 'fln_step(%s, j, d_pp(h0.e@));' % S0h),
  exit='proof { assert(%s.subrange(0, %s.len() as int) =~= %s); }' % (S0h, S0h, S0h))
for nm, d in (('l_unique', 'd2_eq'), ('l_unique_p', 'd2_bp')):
    R = 'uqn(%s.subrange(0, j), %s(h0.e@))' % (S0h, d)
    m('unique', [] if d == 'd2_eq' else ['re:.*'], [], KEEP('uqn(%s, %s(old(h).e@))' % (Q0, d)),
      FILT(R, 'uqn_step(%s, j, %s(h0.e@)); assert(prev@ == h.seq@[this@][b.len() - 1]);' % (S0h, d), ['%s.len() == 0 || %s.len() > 0 && prev@ == %s.last()' % (S0h, R, R)]), label=nm,
      entry='proof { if %s.len() > 0 { uqn_step(%s, 0, %s(h0.e@)); assert(%s.subrange(0, 0) =~= Seq::<int>::empty()); assert(%s.subrange(0, 1) =~= seq![%s[0]]); assert(h0.next@[%s[0]] == at(h0, this@, 1)); } else { assert(%s =~= Seq::<int>::empty()); } }' % ((S0h, S0h, d) + (S0h,) * 5),
      exit='proof { assert(%s.subrange(0, %s.len() as int) =~= %s); }' % (S0h, S0h, S0h))
OWNN = 'fln(%s.subrange(0, j), d_val(h0.e@, ev(h0.e@, value@), own@))' % S0h
m('remove', None, EV, KEEP('fln(%s, d_val(old(h).e@, %s, 0))' % (Q0, VV)),
  FILT(OWNN, 'fln_step(%s, j, d_val(h0.e@, ev(h0.e@, value@), own@)); ' % S0h,
       ['h.e@[value@] == h0.e@[value@]', 'own@ != 0 ==> own@ == value@ && (h.own@)(value@) == this@ && (h0.own@)(own@) == this@ && (h0.idx@)(own@) < j && veq(ev(h0.e@, own@), ev(h0.e@, value@))']))
g = FNS[-1].loops[0]
g['top'] = g['top'].replace('proof {', 'let ghost oo = own@; proof {', 1)
g['bot'] = ('proof { if own@ != oo { let s = %s.subrange(0, j); let d0 = d_val(h0.e@, ev(h0.e@, value@), 0); let d1 = d_val(h0.e@, ev(h0.e@, value@), own@);'
  ' assert forall|i: int| 0 <= i < s.len() implies d0(#[trigger] s[i]) == d1(s[i]) by { assert(s[i] == %s[i]); assert((h0.idx@)(%s[i]) == i); assert((h0.idx@)(%s[j]) == j); assert((h0.own@)(%s[i]) == this@); }'
  ' fln_same(s, d0, d1); fln_step(%s, j, d1); } }' % ((S0h,) * 6)) + g['bot']
g['after'] = ('proof { let s = %s; assert(s.subrange(0, s.len() as int) =~= s); if own@ != 0 { let k = (h.idx@)(own@);'
  ' assert forall|i: int, k: int| 0 <= i < k < s.len() implies s[i] != s[k] by { assert((h0.idx@)(s[i]) == i); assert((h0.idx@)(s[k]) == k); }'
  ' assert forall|i: int| 0 <= i < s.len() implies s[i] != 0 by { assert((h0.own@)(s[i]) == this@); }'
  ' assert((h.own@)(own@) == this@); fln_own(s, h0.e@, ev(h0.e@, value@), own@, k); } }'
  ' let ghost hc = *h;') % S0h
FNS[-1].exit = 'proof { fr_trans(h0, hc, *h, this@); }'
# ---- merge of sorted lists
for nm, c, ps in (('l_merge', 'c_lt', ['re:list<E>&']), ('l_merge_c', 'c_cp', ['re:list<E>&', 're:.*CP'])):
    A, B, C = 'h0.seq@[this@]', 'h0.seq@[other@]', c + '(h0.e@)'
    m('merge', ps, ['old(h).hd@[other@]', 'other@ != this@', 'srt(old(h).seq@[other@], %s(old(h).e@))' % c],
      ['wf(*final(h))', 'relinked(*old(h), *final(h))', '%s == mrg(%s, old(h).seq@[other@], %s(old(h).e@))' % (Q1, Q0, c), 'final(h).seq@[other@].len() == 0',
       'forall|q: int| q != this@ && q != other@ ==> #[trigger] final(h).seq@[q] == old(h).seq@[q]'],
      [dict(before='let ghost mut j = 0int; let ghost mut k = 0int; let ghost mut dn = Seq::<int>::empty(); let ghost mut st = false; let ghost A = %s; let ghost B = %s; proof { assert(A.subrange(0, A.len() as int) =~= A); assert(B.subrange(0, B.len() as int) =~= B); }' % (A, B),
            inv=['wf(*h)', 'relinked(h0, *h)', '0 <= j <= A.len()', '0 <= k <= B.len()', 'h.seq@[this@] =~= dn + A.subrange(j, A.len() as int)', 'h.seq@[other@] =~= B.subrange(k, B.len() as int)',
                 'dn + mrg(A.subrange(j, A.len() as int), B.subrange(k, B.len() as int), %s) =~= mrg(A, B, %s)' % (C, C), 'o@ == (if k < B.len() { B[k] } else { other@ })',
                 'if st { k > 0 && dn.len() > 0 && i@ == dn.last() && i@ == B[k - 1] } else { i@ == (if j < A.len() { A[j] } else { this@ }) }', 'forall|q: int| q != this@ && q != other@ ==> #[trigger] h.seq@[q] == h0.seq@[q]'],
            dec='2 * (A.len() - j) + 2 * (B.len() - k) + (if st { 1int } else { 0int })',
            top='''let ghost ob = o@; proof { let a = A.subrange(j, A.len() as int); let b = B.subrange(k, B.len() as int); assert(b[0] == B[k]); assert(h.seq@[other@][0] == o@); assert(b.drop_first() =~= B.subrange(k + 1, B.len() as int));
                 if st { assert(h.seq@[this@][dn.len() - 1] == i@); assert((h.idx@)(i@) == dn.len() - 1); if j < A.len() { assert(h.seq@[this@][dn.len() as int] == A[j]); } }
                 else { assert(a[0] == A[j]); assert(h.seq@[this@][dn.len() as int] == i@); assert((h.idx@)(i@) == dn.len()); assert(a.drop_first() =~= A.subrange(j + 1, A.len() as int)); if j + 1 < A.len() { assert(h.seq@[this@][dn.len() as int + 1] == A[j + 1]); } } }''',
            bot='proof { if o@ != ob { dn = dn.push(ob); k = k + 1; st = true; } else if st { st = false; } else { dn = dn.push(A[j]); j = j + 1; } }')], label=nm)
# ---- equality
CR = lambda f, l: ['isrange(*old(h), %s@, %s@)' % (f, l)]
def VRi(f): return 'vrange(h0, %s_0_in@, %s_0@)'
FNS.append(Fn('equal4', 'ttl::equal', [CI] * 4, 'C05 C23', ['wf(*old(h))', 'isrange(*old(h), first1_0@, last1_0@)', 'isrange(*old(h), first2_0@, last2_0@)'],
    ['ret == eqs(vrange(*old(h), first1_0@, last1_0@), vrange(*old(h), first2_0@, last2_0@))', SAME],
    [dict(inv=['*h == h0', 'isrange(h0, first1_0_in@, first1_0@)', 'isrange(h0, first1_0@, last1_0@)', 'isrange(h0, first2_0_in@, first2_0@)', 'isrange(h0, first2_0@, last2_0@)',
               'pix(h0, first1_0@) - pix(h0, first1_0_in@) == pix(h0, first2_0@) - pix(h0, first2_0_in@)',
               'forall|i: int| 0 <= i < pix(h0, first1_0@) - pix(h0, first1_0_in@) ==> veq(#[trigger] vrange(h0, first1_0_in@, last1_0@)[i], vrange(h0, first2_0_in@, last2_0@)[i])'],
          dec='pix(h0, last1_0@) - pix(h0, first1_0@)',
          top='proof { if first1_0@ != last1_0@ && first2_0@ != last2_0@ { let i = pix(h0, first1_0@) - pix(h0, first1_0_in@); assert(vrange(h0, first1_0_in@, last1_0@)[i] == ev(h0.e@, first1_0@)); assert(vrange(h0, first2_0_in@, last2_0@)[i] == ev(h0.e@, first2_0@)); } }')]))
for nm, lab, neg in (('operator==', 'l_eq', ''), ('operator!=', 'l_ne', '!')):
    FNS.append(Fn(lab, 'ttl::' + nm, ['re:constlist<E>&'] * 2, 'C05 C23', ['wf(*old(h))', 'old(h).hd@[a@]', 'old(h).hd@[b@]'],
        ['ret == %seqs(vals(*old(h), a@), vals(*old(h), b@))' % neg, SAME]))
    FNS[-1].exit = 'proof { assert(vals(h0, a@).subrange(0, vals(h0, a@).len() as int) =~= vals(h0, a@)); assert(vals(h0, b@).subrange(0, vals(h0, b@).len() as int) =~= vals(h0, b@)); }'
