"""Contracts of slist_node.hpp, forward_list.hpp, backward_list.hpp, lazy_queue.hpp: C07, C08, C09, parts of C23."""
from lib.family import Fn
from lib.xlate import Family
from contracts.emit import _eq, _lt, _ne

TU = r'''
#include <ttl/types.hpp>
#include <ttl/utility.hpp>
#include <ttl/functional.hpp>
#include <ttl/algorithm.hpp>
#include <ttl/forward_list.hpp>
#include <ttl/backward_list.hpp>
#include <ttl/lazy_queue.hpp>
struct E { E(); E(const E &); ~E(); E &operator=(const E &); int v; };
bool operator==(const E &, const E &);
bool operator<(const E &, const E &);
bool operator!=(const E &, const E &);
namespace ttl {
'''
CLS = [('f', 'forward_list', 1), ('b', 'backward_list', 2), ('z', 'lazy_queue', 3)]
for a, c, k in CLS:
    t = r'''
template class @<E>;
template void @<E>::insert_after(@<E>::const_iterator, @<E>::const_iterator, @<E>::const_iterator);
template void @<E>::insert_after(@<E>::const_iterator, const E *, const E *);
inline @<E>::iterator $_it_inc(@<E>::iterator i) { return ++i; }
inline @<E>::iterator $_it_pinc(@<E>::iterator i) { return i++; }
inline @<E>::iterator $_it_pinc2(@<E>::iterator i) { i++; return i; }
inline E &$_it_get(@<E>::iterator i) { return *i; }
inline E *$_it_arrow(@<E>::iterator i) { return i.operator->(); }
inline bool $_it_eq(@<E>::iterator i, @<E>::iterator j) { return i == j; }
inline bool $_it_ne(@<E>::iterator i, @<E>::iterator j) { return i != j; }
inline bool $_it_eqc(@<E>::iterator i, @<E>::const_iterator j) { return i == j; }
inline bool $_it_nec(@<E>::iterator i, @<E>::const_iterator j) { return i != j; }
inline @<E>::const_iterator $_ci_inc(@<E>::const_iterator i) { return ++i; }
inline @<E>::const_iterator $_ci_pinc(@<E>::const_iterator i) { return i++; }
inline @<E>::const_iterator $_ci_pinc2(@<E>::const_iterator i) { i++; return i; }
inline const E &$_ci_get(@<E>::const_iterator i) { return *i; }
inline const E *$_ci_arrow(@<E>::const_iterator i) { return i.operator->(); }
inline bool $_ci_eq(@<E>::const_iterator i, @<E>::const_iterator j) { return i == j; }
inline bool $_ci_ne(@<E>::const_iterator i, @<E>::const_iterator j) { return i != j; }
inline @<E>::const_iterator $_ci_conv(@<E>::iterator i) { return i; }
'''
    if k != 3:
        t += r'''
template @<E>::@(@<E>::const_iterator, @<E>::const_iterator);
template @<E>::@(const E *, const E *);
template void @<E>::assign(@<E>::const_iterator, @<E>::const_iterator);
template void @<E>::assign(const E *, const E *);
template bool operator==(const @<E> &, const @<E> &);
template bool operator!=(const @<E> &, const @<E> &);
'''
    TU += t.replace('@', c).replace('$', a)
TU += '}\n'
N = 'ttl::slist_node'
NM = {a: 'ttl::%s<E>' % c for a, c, k in CLS}
FIELDS = {(N, 'next'): ('heap', 'next', 'Ptr')}
for a in NM:
    FIELDS[(NM[a], 'head_')] = ('off', 0)
    FIELDS[(NM[a] + '::node', 'value')] = ('eslot', 0)
    if a != 'f': FIELDS[(NM[a], 'tail_')] = ('heap', 'tail', 'Ptr')
FIELDS[(NM['z'], 'dead_')] = ('off', 1)
FAM = Family(name='slist', elems={'E'},
    value_classes=[c + x for c in NM.values() for x in ('::iterator', '::const_iterator')],
    fields=FIELDS, zone={'op_delete': 'node_del'},
    node_kinds=[(c + '::node', 'node_new', 'node_del') for c in NM.values()],
    opaque=[(r'operator==', _eq), (r'operator<', _lt), (r'operator!=', _ne)],
    sizeof=[(r'type:E', '1u64')])
PRELUDE = ['common.rs', 'elem.rs', 'slist.rs', 'eops.rs']
VERUS = ['--rlimit', '60']
FNS = []
SAME = '*final(h) == *old(h)'
CI = 're:.*const_iterator'
# ---- links
PN = 'C07 C08 C09'
OWN, IDX = '(old(h).own@)(%s)', '(old(h).idx@)(%s)'
def n(name, ps, req, ens, loops=(), label=None, props=PN, **k): FNS.append(Fn(label or 'n_' + name, N + '::' + name, ps, props, req, ens, loops, **k))
n('insert_after', None, ['wfx(*old(h), n@)', 'n@ != 0', 'ispos(*old(h), this@)', 'fits(*old(h), lof(*old(h), this@), n@)'],
  ['ret@ == n@', 'wf(*final(h))', 'insd(*old(h), *final(h), lof(*old(h), this@), pix(*old(h), this@) + 1, n@)'],
  entry='let ghost l = lof(*h, this@); let ghost k = pix(*h, this@) + 1; proof { seq_ins(h.seq@[l], k, n@); assert(h0.nd@[n@]); }',
  exit='h.seq = Ghost(ins_seq(h0, l, k, n_in@)); h.own = Ghost(ins_own(h0, l, n_in@)); h.idx = Ghost(ins_idx(h0, l, k, n_in@));')
n('unlink_next', None, ['wf(*old(h))', 'ispos(*old(h), this@)', 'pix(*old(h), this@) + 1 < old(h).seq@[lof(*old(h), this@)].len()'],
  ['ret@ == at(*old(h), lof(*old(h), this@), pix(*old(h), this@) + 1)', 'wfx(*final(h), ret@)', 'deld(*old(h), *final(h), ret@)', 'ret@ != 0'],
  entry='let ghost l = lof(*h, this@); let ghost k = pix(*h, this@) + 1; proof { seq_del(h.seq@[l], k); assert(h0.nd@[h0.seq@[l][k]]); }',
  exit='h.seq = Ghost(del_seq(h0, l, k)); h.own = Ghost(del_own(h0, ret@)); h.idx = Ghost(del_idx(h0, l, k));')
n('reverse', None, ['wf(*old(h))', 'old(h).hd@[this@]'], ['wf(*final(h))', 'revd(*old(h), *final(h), this@)'],
  [dict(before='let ghost mut j = 0int;',
        inv=['*h == (H { next: h.next, ..h0 })', '0 <= j <= h0.seq@[this@].len()', 'orig@ == at(h0, this@, j)', 'reversed@ == (if j == 0 { 0 } else { at(h0, this@, j - 1) })',
             'forall|q: int| #[trigger] h.next@[q] == (if turned(h0, this@, j, q) { if (h0.idx@)(q) == 0 { 0 } else { at(h0, this@, (h0.idx@)(q) - 1) } } else { h0.next@[q] })'],
        dec='h0.seq@[this@].len() - j', bot='proof { j = j + 1; }')],
  exit='h.seq = Ghost(h0.seq@.insert(this@, h0.seq@[this@].reverse())); h.idx = Ghost(rev_idx(h0, this@));')
HEAVY = '#[verifier::spinoff_prover] #[verifier::rlimit(400)]'
MV = 'mvd(*old(h), *final(h), lof(*old(h), this@), pix(*old(h), this@) + 1, lof(*old(h), %s@), pix(*old(h), %s@) + 1, %s)'
MVG = 'h.seq = Ghost(mv_seq(h0, l, k, m, i, j)); h.own = Ghost(mv_own(h0, l, m, i, j)); h.idx = Ghost(mv_idx(h0, l, k, m, i, j));'
SAMEKIND = '(old(h).kd@[lof(*old(h), this@)] == 4) == (old(h).kd@[lof(*old(h), %s@)] == 4)'
n('splice_after', ['re:.*slist_node\\*'], ['wf(*old(h))', 'ispos(*old(h), this@)', 'ispos(*old(h), o@)', 'pix(*old(h), o@) + 1 < old(h).seq@[lof(*old(h), o@)].len()', SAMEKIND % 'o'],
  ['wf(*final(h))', MV % ('o', 'o', 'pix(*old(h), o@) + 2')], label='n_splice_1', attrs=HEAVY, props='C07',
  entry='let ghost l = lof(*h, this@); let ghost k = pix(*h, this@) + 1; let ghost m = lof(*h, o@); let ghost i = pix(*h, o@) + 1; let ghost j = i + 1;', exit=MVG + ' proof { if l != m || k < i || k > j { lem_spl(h0, *h, l, k, m, i, j); } }')
n('splice_after', ['re:.*slist_node\\*'] * 2, ['wf(*old(h))', 'ispos(*old(h), this@)', 'ispos(*old(h), f@)', 'l@ == 0 || %s == lof(*old(h), f@) && pix(*old(h), f@) < %s' % (OWN % 'l@', IDX % 'l@'), SAMEKIND % 'f',
    'lof(*old(h), this@) == lof(*old(h), f@) ==> pix(*old(h), this@) <= pix(*old(h), f@) || eix(*old(h), lof(*old(h), f@), l@) <= pix(*old(h), this@)'],
  ['wf(*final(h))', MV % ('f', 'f', 'eix(*old(h), lof(*old(h), f@), l@)')], [
   dict(inv=['ispos(h0, o@)', 'lof(h0, o@) == m', 'pix(h0, o@) < jx', 'i - 1 <= pix(h0, o@)', '*h == (H { next: h.next, ..h0 })', 'h.next@ == h0.next@.insert(this@, h0.next@[f@])', 'n@ == h0.next@[this@]'], dec='jx - pix(h0, o@)')],
  label='n_splice_r', attrs=HEAVY, props='C07',
  entry='let ghost ll = lof(*h, this@); let ghost k = pix(*h, this@) + 1; let ghost m = lof(*h, f@); let ghost i = pix(*h, f@) + 1; let ghost jx = eix(*h, m, l@);', exit=(MVG + ' proof { if i < jx && (ll != m || k != i) { lem_spl(h0, *h, ll, k, m, i, jx); } }').replace(' l,', ' ll,').replace(', j)', ', jx)'))
# ---- the classes
Q0, Q1 = 'old(h).seq@[this@]', 'final(h).seq@[this@]'
V0, V1 = 'vals(*old(h), this@)', 'vals(*final(h), this@)'
EV = ['el(old(h).e@, value@)']
VV = 'ev(old(h).e@, value@)'
ADDED = lambda k, seq: 'grown(*old(h), *final(h), this@, %s, %s)' % (k, seq)
FL = ['isrange(*old(h), first_0@, last_0@)', 'first_0@ != 0 ==> (old(h).own@)(first_0@) != this@', 'first_0@ != 0 ==> old(h).kd@[(old(h).own@)(first_0@)] != 4']
FA = ['first@ <= last@', 'forall|p: int| first@ <= p < last@ ==> #[trigger] old(h).e@[p] is Live && (old(h).own@)(p) == 0']
def cls(A, C, K):
    PR = {'f': 'C07', 'b': 'C08', 'z': 'C09'}[A]
    cn = NM[A]
    D = 'this@ + 1' if K == 3 else 'this@'
    FRm = lambda a, b: 'fr(%s, %s, this@, %s)' % (a, b, D)
    LV = ['wft(*old(h))', 'old(h).hd@[this@]', 'old(h).kd@[this@] == %d' % K]
    KEEPK = 'final(h).kd@[this@] == %d' % K
    CH = ['wft(*final(h))', FRm('*old(h)', '*final(h)'), 'final(h).kd@ == old(h).kd@']
    def g(name, ps, req, ens, loops=(), label=None, const=None, props=PR, **k):
        x = Fn(label or A + '_' + name, cn + '::' + name, ps, props, req, ens, loops, **k); x.const = const; FNS.append(x); return x
    def m(name, ps, req, ens, loops=(), **k): return g(name, ps, LV + req, ens, loops, **k)
    POS = lambda p='pos_0@': ['ispos(*old(h), %s)' % p, 'lof(*old(h), %s) == this@' % p]
    # observers
    for c, s in ((False, ''), (True, '_c')):
        m('before_begin', [], [], ['ret@ == this@', SAME], const=c, label=A + '_before_begin' + s)
        m('begin', [], [], ['ret@ == at(*old(h), this@, 0)', SAME], const=c, label=A + '_begin' + s)
        m('end', [], [], ['ret@ == 0', SAME], const=c, label=A + '_end' + s)
        m('front', [], [Q0 + '.len() > 0'], ['ret@ == %s[0]' % Q0, 'el(old(h).e@, ret@)', SAME], const=c, label=A + '_front' + s)
        if K != 1:
            m('before_end', [], [], ['ret@ == at(*old(h), this@, %s.len() - 1)' % Q0, SAME], const=c, label=A + '_before_end' + s)
            m('back', [], [Q0 + '.len() > 0'], ['ret@ == %s.last()' % Q0, 'el(old(h).e@, ret@)', SAME], const=c, label=A + '_back' + s)
    m('cbefore_begin', [], [], ['ret@ == this@', SAME])
    m('cbegin', [], [], ['ret@ == at(*old(h), this@, 0)', SAME])
    g('cend', [], [], ['ret@ == 0', SAME])
    if K != 1: m('cbefore_end', [], [], ['ret@ == at(*old(h), this@, %s.len() - 1)' % Q0, SAME])
    # pop_front asks empty() while the tail pointer is stale: it needs the links only
    (g if K == 3 else m)('empty', [], ['wf(*old(h))', 'old(h).hd@[this@]'] if K == 3 else [], ['ret == (%s.len() == 0)' % Q0, SAME])
    # unused nodes
    if K == 3:
        LN = ['wf(*old(h))', 'old(h).hd@[this@]', 'old(h).kd@[this@] == 3']
        g('get_node', None, LN + ['el(old(h).e@, v@)'], ['got(*old(h), *final(h), this@ + 1, ret@, ev(old(h).e@, v@))'],
          exit='h.own = Ghost(del_own(h0, ret@)); proof { assert(h.e@ =~= h0.e@.insert(ret@, Slot::Live(ev(h0.e@, v@)))); }')
        g('put_node', None, ['wfx(*old(h), n@)', 'n@ != 0', 'el(old(h).e@, n@)'] + LN[1:],
          ['wf(*final(h))', 'insd(H { e: Ghost(old(h).e@.insert(n@, Slot::Raw)), ..*old(h) }, *final(h), this@ + 1, 0, n@)'])
    # insertion
    INS = lambda k, v: ['%s == %s.insert(%s, ret@)' % (Q1, Q0, k), '%s =~= %s.insert(%s, %s)' % (V1, V0, k, v), '(final(h).own@)(ret@) == this@']
    m('push_front', None, EV, CH + [V1 + ' =~= seq![%s] + %s' % (VV, V0), Q1 + '.drop_first() =~= ' + Q0])
    if K != 1: m('push_back', None, EV, CH + [V1 + ' =~= %s.push(%s)' % (V0, VV), Q1 + '.drop_last() =~= ' + Q0])
    m('insert_after', [CI, 'const E &'], EV + POS(), CH + INS('pix(*old(h), pos_0@) + 1', VV), label=A + '_insert_1')
    def GROW(seq, extra, dec, val, pre=''):
        k = 'pix(h0, pos_0@) + 1'
        inv = ['wf(*h)', 'h.hd@[this@]', 'h.kd@ == h0.kd@', FRm('h0', '*h'), 'h.tail@ == h0.tail@', 'grown(h0, *h, this@, %s, %s)' % (k, seq), 'ispos(*h, p@)', 'lof(*h, p@) == this@', 'pix(*h, p@) == pix(h0, pos_0@) + (%s).len()' % seq] + extra
        return [dict(inv=inv, dec=dec, pre='let ghost hb = *h; let ghost vb = %s; ' % seq + pre,
                bot='proof { let nn = p@; grow_step(h0, hb, *h, this@, %s, vb, nn); fr_trans(h0, hb, *h, this@, %s); assert(vb.push(%s) =~= %s); }' % (k, D, val, seq))]
    k1 = 'pix(*old(h), pos_0@) + 1'
    m('insert_after', [CI, 'unsigned long', 'const E &'], EV + POS(), CH + [ADDED(k1, 'rep(n as int, %s)' % VV)],
      GROW('rep(n_in - n, ev(h0.e@, value@))', ['0 <= n <= n_in', 'h.e@[value@] == h0.e@[value@]'], 'n', 'ev(h0.e@, value@)'), label=A + '_insert_n')
    m('insert_after', [CI] * 3, FL + POS(), CH + [ADDED(k1, 'vrange(*old(h), first_0@, last_0@)')],
      GROW('vseg(h0, first_0_in@, first_0@, last_0@)', ['isrange(h0, first_0@, last_0@)', 'first_0@ != 0 ==> (h0.own@)(first_0@) == (h0.own@)(first_0_in@)', 'first_0@ != 0 ==> (h0.idx@)(first_0_in@) <= (h0.idx@)(first_0@)', 'first_0_in@ == 0 ==> first_0@ == 0'],
           'rlen(h0, first_0@, last_0@)', 'ev(h0.e@, fb)', 'let ghost fb = first_0@;'), label=A + '_insert_r')
    m('insert_after', [CI, 'const E *', 'const E *'], FA + POS(), CH + [ADDED(k1, 'sq(old(h).e@, first@, last@)')],
      GROW('sq(h0.e@, first_in@, first@)', ['first_in@ <= first@ <= last@', 'forall|p: int| first_in@ <= p < last@ ==> #[trigger] h.e@[p] == h0.e@[p]'], 'last@ - first@', 'ev(h0.e@, fb)', 'let ghost fb = first@;'), label=A + '_insert_a')
    # removal
    DEL = lambda k: ['%s == %s.remove(%s)' % (Q1, Q0, k), '%s =~= %s.remove(%s)' % (V1, V0, k)]
    m('pop_front', None, [Q0 + '.len() > 0'], CH + DEL('0'))
    m('erase_after', [CI], [k1 + ' < %s.len()' % Q0] + POS(), CH + DEL(k1) + ['ret@ == at(*old(h), this@, %s + 1)' % k1], label=A + '_erase_1')
    LX = 'eix(*old(h), this@, last_0@)'; LXh = 'eix(h0, this@, last_0@)'
    m('erase_after', [CI, CI], POS() + ['last_0@ == 0 || (old(h).own@)(last_0@) == this@ && pix(*old(h), pos_0@) < (old(h).idx@)(last_0@)'],
      CH + ['%s =~= %s.subrange(0, %s) + %s.subrange(%s, %s.len() as int)' % (Q1, Q0, k1, Q0, LX, Q0), 'kept(*old(h), *final(h), this@)', 'ret@ == last_0@'],
      [dict(before='let ghost mut j = pix(h0, pos_0@) + 1;', inv=['wf(*h)', 'h.hd@[this@]', 'h.kd@ == h0.kd@', FRm('h0', '*h'), 'h.tail@ == h0.tail@', 'kept(h0, *h, this@)', 'pix(h0, pos_0@) + 1 <= j <= ' + LXh,
                 'h.seq@[this@] =~= h0.seq@[this@].subrange(0, pix(h0, pos_0@) + 1) + h0.seq@[this@].subrange(j, h0.seq@[this@].len() as int)', 'ispos(*h, pos_0@)', 'lof(*h, pos_0@) == this@', 'pix(*h, pos_0@) == pix(h0, pos_0@)', 'p@ == pos_0@'],
            dec=LXh + ' - j', top='let ghost hb = *h; proof { assert(h.seq@[this@][pix(h0, pos_0@) + 1] == h0.seq@[this@][j]); }', bot='proof { fr_trans(h0, hb, *h, this@, %s); j = j + 1; }' % D)], label=A + '_erase_r')
    TX = '' if K == 1 else (', tokx(*h, this@)' if K == 2 else '')
    CL = dict(inv=['wf(*h)', 'h.hd@[this@]', 'h.kd@ == h0.kd@', FRm('h0', '*h')] + (['h.tail@[this@] == this@'] if K == 2 else []), dec='h.seq@[this@].len()', top='let ghost hb = *h;', bot='proof { fr_trans(h0, hb, *h, this@, %s); }' % D)
    m('clear', [], [], CH + ['%s =~= Seq::<int>::empty()' % Q1], [CL])
    if K == 3:
        CU = dict(inv=['wf(*h)', 'h.tail@ == h0.tail@', 'h.hd@[this@]', 'h.kd@ == h0.kd@', FRm('h0', '*h'), 'h.seq@[this@] == h0.seq@[this@]', 'kept(h0, *h, this@)'], dec='h.seq@[this@ + 1].len()', top='let ghost hb = *h;', bot='proof { fr_trans(h0, hb, *h, this@, this@ + 1); }')
        g('cleanup', [], ['wf(*old(h))', 'old(h).hd@[this@]', 'old(h).kd@[this@] == 3'], ['wf(*final(h))', FRm('*old(h)', '*final(h)'), 'final(h).kd@ == old(h).kd@', 'final(h).tail@ == old(h).tail@', Q1 + ' == ' + Q0, 'kept(*old(h), *final(h), this@)', 'final(h).seq@[this@ + 1].len() == 0'], [CU])
        m('roll_head', [], [], ['wft(*final(h))', 'relinked(*old(h), *final(h))', '%s =~= (if %s.len() == 0 { %s } else { %s.drop_first().push(%s[0]) })' % (Q1, Q0, Q0, Q0, Q0), 'forall|q: int| q != this@ ==> #[trigger] final(h).seq@[q] == old(h).seq@[q]'])
    # construction
    DEAD = ['wft(*old(h))', 'this@ != 0', '!old(h).hd@[this@]', '!old(h).nd@[this@]'] + (['this@ + 1 != 0', '!old(h).hd@[this@ + 1]', '!old(h).nd@[this@ + 1]'] if K == 3 else [])
    BORN = 'h.hd = Ghost(h.hd@.insert(this@, true)); h.seq = Ghost(h.seq@.insert(this@, Seq::<int>::empty())); h.kd = Ghost(h.kd@.insert(this@, %d));' % K
    if K == 3: BORN += 'h.hd = Ghost(h.hd@.insert(this@ + 1, true)); h.seq = Ghost(h.seq@.insert(this@ + 1, Seq::<int>::empty())); h.kd = Ghost(h.kd@.insert(this@ + 1, 4));'
    CHN = ['wft(*final(h))', FRm('*old(h)', '*final(h)'), KEEPK]
    def ctor(label, ps, req, ens, call=None):
        k = {}
        if call: k = dict(at={('call:' + A + '_' + call, 0, 'before'): 'let ghost h1 = *h;'}, exit='proof { fr_trans(h0, h1, *h, this@, %s); }' % D)
        g('ctor', ps, DEAD + req, CHN + ens, label=A + label, entry=BORN, props=PR + ' C23', **k)
    ctor('_ctor', [], [], [V1 + ' =~= Seq::<Val>::empty()'])
    ctor('_ctor_copy', ['re:const%s<E>&' % C], ['old(h).hd@[other@]', 'old(h).kd@[other@] == %d' % K], [V1 + ' =~= vals(*old(h), other@)', 'vals(*final(h), other@) =~= vals(*old(h), other@)'], 'insert_r')
    ctor('_ctor_n', ['unsigned long', 'const E &'], EV, [V1 + ' =~= rep(n as int, %s)' % VV], 'insert_n')
    FL0 = [FL[0], FL[2]]
    if K != 3:
        ctor('_ctor_r', [CI, CI], FL0, [V1 + ' =~= vrange(*old(h), first_0@, last_0@)'], 'insert_r')
        ctor('_ctor_a', ['const E *', 'const E *'], FA, [V1 + ' =~= sq(old(h).e@, first@, last@)'], 'insert_a')
    GONE = ['wft(*final(h))', 'gone(*old(h), *final(h), this@, %s)' % D]
    UNB = 'h.hd = Ghost(h.hd@.insert(this@, false));' + ('h.hd = Ghost(h.hd@.insert(this@ + 1, false));' if K == 3 else '')
    if K == 3: g('dtor', [], LV, GONE, [CL], label='z_dtor', at={('call:z_cleanup', 0, 'before'): 'let ghost h1 = *h;', ('call:z_cleanup', 0, 'after'): 'proof { fr_trans(h0, h1, *h, this@, this@ + 1); }'}, exit=UNB)
    else: g('dtor', [], LV, GONE, label=A + '_dtor', exit=UNB)
    CLR = dict(entry='let ghost mut hm = h0;', at={('call:%s_clear' % A, 0, 'after'): 'proof { hm = *h; }'}, exit='proof { fr_trans(h0, hm, *h, this@, %s); }' % D)
    m('operator=', None, ['old(h).hd@[other@]', 'old(h).kd@[other@] == %d' % K], CH + ['ret@ == this@', V1 + ' =~= vals(*old(h), other@)', 'vals(*final(h), other@) =~= vals(*old(h), other@)'], label=A + '_assign_op', props=PR + ' C23', **CLR)
    if K != 3:
        m('assign', ['unsigned long', 'const E &'], EV + ['(old(h).own@)(value@) != this@'], CH + [V1 + ' =~= rep(n as int, %s)' % VV], label=A + '_assign_n', **CLR)
        m('assign', [CI, CI], FL, CH + [V1 + ' =~= vrange(*old(h), first_0@, last_0@)'], label=A + '_assign_r', **CLR)
        m('assign', ['const E *', 'const E *'], FA, CH + [V1 + ' =~= sq(old(h).e@, first@, last@)'], label=A + '_assign_a', entry=CLR['entry'], exit=CLR['exit'], at={('call:%s_clear' % A, 0, 'after'): 'proof { hm = *h; assert forall|p: int| first@ <= p < last@ implies #[trigger] h.e@[p] is Live && (h.own@)(p) == 0 by { assert(h0.e@[p] is Live); if inld(*h, p, this@, %s) { } } }' % D})
        m('reverse', [], [], ['wft(*final(h))', 'relinked(*old(h), *final(h))', '%s == %s.reverse()' % (Q1, Q0), V1 + ' =~= %s.reverse()' % V0, 'forall|q: int| q != this@ ==> #[trigger] final(h).seq@[q] == old(h).seq@[q]'])
    m('swap', None, ['old(h).hd@[other@]', 'old(h).kd@[other@] == %d' % K], ['wft(*final(h))', 'relinked(*old(h), *final(h))', Q1 + ' == old(h).seq@[other@]', 'final(h).seq@[other@] == ' + Q0, 'forall|q: int| q != this@ && q != other@ ==> #[trigger] final(h).seq@[q] == old(h).seq@[q]'],
      exit='h.seq = Ghost(h0.seq@.insert(this@, h0.seq@[other@]).insert(other@, h0.seq@[this@])); h.own = Ghost(swp_own(h0, this@, other@));')
    if K == 1:
        SPL = lambda a, i, j: ['wft(*final(h))', 'mvs(*old(h), *final(h), this@, %s, %s, %s, %s)' % (k1, a, i, j)]
        m('splice_after', [CI, 're:forward_list<E>&'], ['old(h).hd@[other@]', 'old(h).kd@[other@] == 1', 'other@ == this@ ==> pos_0@ == this@'] + POS(), SPL('other@', '0', 'old(h).seq@[other@].len() as int'), label='f_splice_l')
        OL = 'lof(*old(h), %s@)'
        m('splice_after', [CI, 're:forward_list<E>&', CI], ['ispos(*old(h), it_0@)', 'old(h).kd@[lof(*old(h), it_0@)] != 4', 'pix(*old(h), it_0@) + 1 < old(h).seq@[lof(*old(h), it_0@)].len() || it_0@ == pos_0@', 'old(h).kd@[lof(*old(h), it_0@)] == 1'] + POS(),
          ['wft(*final(h))', 'it_0@ == pos_0@ ==> ' + SAME, 'it_0@ != pos_0@ ==> ' + SPL(OL % 'it_0', 'pix(*old(h), it_0@) + 1', 'pix(*old(h), it_0@) + 2')[1]], label='f_splice_1')
        m('splice_after', [CI, 're:forward_list<E>&', CI, CI], ['first_0@ == 0 || ispos(*old(h), first_0@) && old(h).kd@[lof(*old(h), first_0@)] == 1 && (last_0@ == 0 || (old(h).own@)(last_0@) == lof(*old(h), first_0@) && pix(*old(h), first_0@) < (old(h).idx@)(last_0@))',
          'first_0@ != 0 && this@ == lof(*old(h), first_0@) ==> pix(*old(h), pos_0@) <= pix(*old(h), first_0@) || eix(*old(h), this@, last_0@) <= pix(*old(h), pos_0@)'] + POS(),
          ['wft(*final(h))', 'first_0@ == 0 ==> ' + SAME, 'first_0@ != 0 ==> ' + SPL(OL % 'first_0', 'pix(*old(h), first_0@) + 1', 'eix(*old(h), lof(*old(h), first_0@), last_0@)')[1]], label='f_splice_r')
    # iterators
    def it(name, req, ens): FNS.append(Fn(name, 'ttl::' + name, None, PR, ['wf(*old(h))'] + req, ens + [SAME]))
    NX = 'at(*old(h), lof(*old(h), i_0@), pix(*old(h), i_0@) + 1)'
    for c in (A + '_it_', A + '_ci_'):
        it(c + 'inc', ['ispos(*old(h), i_0@)'], ['ret@ == ' + NX])
        it(c + 'pinc', ['ispos(*old(h), i_0@)'], ['ret@ == i_0@'])
        it(c + 'pinc2', ['ispos(*old(h), i_0@)'], ['ret@ == ' + NX])
        for x in ('get', 'arrow'): it(c + x, ['(old(h).own@)(i_0@) != 0', 'old(h).kd@[(old(h).own@)(i_0@)] != 4'], ['ret@ == i_0@', 'el(old(h).e@, ret@)'])
        it(c + 'eq', [], ['ret == (i_0@ == j_0@)'])
        it(c + 'ne', [], ['ret == (i_0@ != j_0@)'])
    it(A + '_it_eqc', [], ['ret == (i_0@ == j_0@)'])
    it(A + '_it_nec', [], ['ret == (i_0@ != j_0@)'])
    it(A + '_ci_conv', [], ['ret@ == i_0@'])
    # equality
    if K != 3:
        R1, R2 = 'vrange(h0, first1_0_in@, last1_0@)', 'vrange(h0, first2_0_in@, last2_0@)'
        FNS.append(Fn('equal_' + A, 'ttl::equal', ['re:%s<E>::const_iterator' % C] * 4, PR + ' C23', ['wf(*old(h))', 'isrange(*old(h), first1_0@, last1_0@)', 'isrange(*old(h), first2_0@, last2_0@)',
             'first1_0@ != 0 ==> old(h).kd@[(old(h).own@)(first1_0@)] != 4', 'first2_0@ != 0 ==> old(h).kd@[(old(h).own@)(first2_0@)] != 4'],
            ['ret == eqs(vrange(*old(h), first1_0@, last1_0@), vrange(*old(h), first2_0@, last2_0@))', SAME],
            [dict(before='let ghost mut j = 0int;', inv=['*h == h0', 'isrange(h0, first1_0@, last1_0@)', 'isrange(h0, first2_0@, last2_0@)', '0 <= j',
               'first1_0_in@ == 0 ==> first1_0@ == 0', 'first2_0_in@ == 0 ==> first2_0@ == 0',
               'first1_0@ != 0 ==> (h0.own@)(first1_0@) == (h0.own@)(first1_0_in@)', 'first2_0@ != 0 ==> (h0.own@)(first2_0@) == (h0.own@)(first2_0_in@)',
               R1 + '.len() == j + rlen(h0, first1_0@, last1_0@)', R2 + '.len() == j + rlen(h0, first2_0@, last2_0@)',
               'forall|i: int| 0 <= i < j ==> veq(#[trigger] %s[i], %s[i])' % (R1, R2)],
              dec='rlen(h0, first1_0@, last1_0@)',
              top='proof { if first1_0@ != last1_0@ && first2_0@ != last2_0@ { assert(%s[j] == ev(h0.e@, first1_0@)); assert(%s[j] == ev(h0.e@, first2_0@)); } }' % (R1, R2), bot='proof { j = j + 1; }')]))
        for nm, lab, neg in (('operator==', A + '_eq', ''), ('operator!=', A + '_ne', '!')):
            FNS.append(Fn(lab, 'ttl::' + nm, ['re:const%s<E>&' % C] * 2, PR + ' C23', ['wft(*old(h))', 'old(h).hd@[a@]', 'old(h).hd@[b@]', 'old(h).kd@[a@] == %d' % K, 'old(h).kd@[b@] == %d' % K],
                ['ret == %seqs(vals(*old(h), a@), vals(*old(h), b@))' % neg, SAME],
                exit='proof { assert(vals(h0, a@).subrange(0, vals(h0, a@).len() as int) =~= vals(h0, a@)); assert(vals(h0, b@).subrange(0, vals(h0, b@).len() as int) =~= vals(h0, b@)); }'))
for a, c, k in CLS: cls(a, c, k)
