"""Contracts of bitset.hpp, for every N (and M) (N from 1, M from 0, to 2^32-1): C16, C17, parts of C23."""
from lib.family import Fn
from lib.xlate import Family

SIZES = (0, 1, 2, 31, 32, 63, 64, 65, 70, 127, 128, 129, 130, 191, 192, 193, 1000)
TU = r'''
#include <ttl/types.hpp>
#include <ttl/utility.hpp>
#include <ttl/bitset.hpp>
namespace ttl {
template class bitset<70>;
template class bitset<130>;
template bitset<70>::bitset(const bitset<130> &);
template bitset<70> &bitset<70>::operator=(const bitset<130> &);
template bitset<130>::operator bitset<70>() const;
template bitset<0>::bitset(const bitset<130> &);
template bitset<0> &bitset<0>::operator=(const bitset<130> &);
inline void z_use(bitset<0> &a, const bitset<0> &b, const char *s, size_t n, char x, char y) { bitset<0> c, d(b), e(s, n, x, y); a = b; a <<= n; a >>= n; a.size(); a.capacity(); a != b; a.operator!=(b); ~a; a & b; a | b; a ^ b; }
template bool operator==(const bitset<0> &, const bitset<70> &);
template bool operator==(const bitset<70> &, const bitset<0> &);
template bool operator!=(const bitset<0> &, const bitset<70> &);
template bool operator!=(const bitset<70> &, const bitset<0> &);
template bitset<70> operator&(const bitset<70> &, const bitset<70> &);
template bitset<70> operator|(const bitset<70> &, const bitset<70> &);
template bitset<70> operator^(const bitset<70> &, const bitset<70> &);
// client code: the methods of the bit proxy run on a proxy of a bit
inline void ref_set(bitset<70> &b, size_t pos, bool v) { b[pos] = v; }
inline void ref_copy(bitset<70> &b, size_t pos, bitset<70> &c, size_t qos) { b[pos] = c[qos]; }
inline void ref_flip(bitset<70> &b, size_t pos) { b[pos].flip(); }
inline bool ref_get(bitset<70> &b, size_t pos) { return b[pos]; }
inline bool ref_not(bitset<70> &b, size_t pos) { return ~b[pos]; }
}
''' + ''.join('typedef char chk%d[sizeof(ttl::bitset<%d>) == %d ? 1 : -1];\n' % (n, n, (n + 63) // 64 * 8) for n in SIZES)
V, W, Z = 'ttl::bitset<70>', 'ttl::bitset<130>', 'ttl::bitset<0>'
FAM = Family(name='bitset', elems=set(),
    value_classes=[V + '::reference'],
    fields={(V, 'bits_'): ('embed', 0), (W, 'bits_'): ('embed', 0), (Z, 'bits_'): ('embed', 0)},
    symbolic={(V + '.*', 'N'): ('nn()', 'u64'), (V + '.*', 'M'): ('mm()', 'u64'), (Z + '.*', 'M'): ('mm()', 'u64'), (W + '.*', 'N'): ('mm()', 'u64'), (W + '.*', 'M'): ('nn()', 'u64')},
    obj_locals={V: ('bs_new_n(h)', 'bs_drop_n(h, %s);'), W: ('bs_new_m(h)', 'bs_drop_m(h, %s);'), Z: ('arb_ptr()', '/* %s has no members */')},
    sizeof=[(r'expr:' + V + '.*::bits_', 'sz_n()'), (r'expr:' + W + '.*::bits_', 'sz_m()'), (r'expr:' + Z + '.*::bits_', '0u64'), (r'expr:\*bits_', '8u64'), (r'type:.*unsigned long', '8u64'), (r'type:.*slot_type', '8u64')])
PRELUDE = ['common.rs', 'bitset.rs']
VERUS = ['--rlimit', '60']
FNS = []
SAME = '*final(h) == *old(h)'
N, M = 'NN() as int', 'MM() as int'
OK = 'wfb(*old(h), this@, NN() as int)'
OKO = 'wfb(*old(h), other@, NN() as int)'
FRE = 'fr(*old(h), *final(h), this@, NN() as int)'
P = 'C16 C17'
USE = 'broadcast use ax_nn, ax_mm, bitlaws;'
B = lambda j, b='this@', h='*old(h)': 'bit(%s, %s, %s)' % (h, b, j)
def BITS(x, b='this@', n='NN()'): return 'forall|j: int| 0 <= j < %s ==> #[trigger] bit(*final(h), %s, j) == (%s)' % (n, b, x)
def f(name, ps, req, ens, loops=(), label=None, const=None, props=P, entry='', cls=V, ok=OK, **k):
    g = Fn(label or 'b_' + name, cls + '::' + name, ps, props, ([ok] if ok else []) + req, ens, loops, entry='proof { %s %s }' % (USE, entry), **k)
    g.const = const
    FNS.append(g)
def wl(x, extra=(), lo='0', hi='nw(NN() as int)', **k):
    """loop over the words: those before i have the value x"""
    return dict(inv=['*h == (H { w: h.w, ..h0 })', '%s <= i <= %s' % (lo, hi), 'forall|p: int| #[trigger] h.w@[p] == (if this@ + %s <= p < this@ + i { %s } else { h0.w@[p] })' % (lo, x)] + list(extra), dec='%s - i' % hi, **k)
f('size', [], [], ['ret == NN()', SAME], ok=None)
f('capacity', [], [], ['ret == 64 * nw(NN() as int)', SAME], ok=None)
f('last_slot_index', [], [], ['ret == nw(NN() as int) - 1', SAME], ok=None)
f('last_bits', [], [], ['lastm(ret, NN() as int)', 'ret == lmask(NN() as int)', SAME], ok=None, entry='if NN() % 64 != 0 { b_low((NN() % 64) as u64); } last_ok();', exit='assert(ret == lmask(NN() as int));')
f('test', ['unsigned long'], [], ['ret == (pos < NN() && %s)' % B('pos as int'), SAME])
f('operator[]', ['unsigned long'], [], ['ret == (pos < NN() && %s)' % B('pos as int'), SAME], const=True, label='b_idx_c')
SLOT = ['pos < 64 * nw(NN() as int)']
f('set', [], [], ['ret@ == this@', FRE, BITS('true')], [wl('0xffff_ffff_ffff_ffff')], label='b_set_all')
f('reset', [], [], ['ret@ == this@', FRE, BITS('false')], [wl('0')], label='b_reset_all')
f('flip', [], [], ['ret@ == this@', FRE, BITS('!' + B('j'))], [wl('!h0.w@[p]')], label='b_flip_all')
W64 = 'forall|j: int| 0 <= j < 64 * nw(NN() as int) ==> #[trigger] bit(*final(h), this@, j) == (%s)'
f('set', ['unsigned long'], SLOT, ['ret@ == this@', FRE, W64 % ('j == pos || ' + B('j'))])
f('set', ['unsigned long', 'bool'], SLOT, ['ret@ == this@', FRE, W64 % ('if j == pos { value } else { %s }' % B('j'))], label='b_set_v')
f('reset', ['unsigned long'], SLOT, ['ret@ == this@', FRE, W64 % ('j != pos && ' + B('j'))])
f('flip', ['unsigned long'], SLOT, ['ret@ == this@', FRE, W64 % ('(j == pos) != ' + B('j'))])
# ---- comparison and queries
ANY = 'exists|j: int| 0 <= j < NN() && #[trigger] %s' % B('j')
ZW = 'lowz(*h, this@, i as int, %s)'
def ql(w, bot=''):
    return [dict(inv=['*h == h0', '0 <= i <= nw(NN() as int) - 1', ZW % w], dec='nw(NN() as int) - 1 - i', after='assert(i == nw(NN() as int) - 1); assert(lowz(*h, this@, nw(NN() as int) - 1, %s));' % w)]
f('any', [], [], ['ret == (%s)' % ANY, SAME], ql('0'), entry='broadcast use z_and; last_ok(); q_const(h0, this@, 0, false);')
f('none', [], [], ['ret == !(%s)' % ANY, SAME], ql('0'), entry='broadcast use z_and; last_ok(); q_const(h0, this@, 0, false);')
f('all', [], [], ['ret == (forall|j: int| 0 <= j < NN() ==> #[trigger] %s)' % B('j'), SAME], ql('0xffff_ffff_ffff_ffff'), entry='broadcast use m_and; last_ok(); q_const(h0, this@, 0xffff_ffff_ffff_ffff, true);')
EQ = '(forall|j: int| 0 <= j < NN() ==> #[trigger] %s == %s)' % (B('j'), B('j', 'other@'))
f('operator==', None, [OKO], ['ret == ' + EQ, SAME], [dict(inv=['*h == h0', '0 <= i <= nw(NN() as int) - 1', 'forall|q: int| 0 <= q < i ==> #[trigger] h.w@[this@ + q] == h.w@[other@ + q]'], dec='nw(NN() as int) - 1 - i', after='assert(i == nw(NN() as int) - 1);')], label='b_eq', props='C16 C17 C23', entry='last_ok(); q_eq(h0, this@, other@);')
f('operator!=', None, [OKO], ['ret == !' + EQ, SAME], label='b_ne', props='C16 C17 C23')
f('count', [], [], ['ret == cnt(*old(h), this@, NN() as int)', SAME],
  [dict(inv=['*h == h0', '0 <= i <= nw(NN() as int)', 'c == cnt(h0, this@, if 64 * i < NN() { 64 * i } else { NN() as int })', '0 <= c <= 64 * i'], dec='nw(NN() as int) - i',
        top='proof { count_step(h0, this@, i as int); }')])
# ---- copies and word-wise operators
f('operator=', ['re:constbitset<70>&|constbitset&'], [OKO], ['ret@ == this@', FRE, BITS(B('j', 'other@'))], [wl('h0.w@[p - this@ + other@]')], label='b_assign', props='C16 C17 C23',
  entry='if this@ != other@ { disj(h0, this@, NN() as int, other@, NN() as int); }')
f('ctor', ['re:constbitset<70>&|constbitset&'], [OKO], [FRE, BITS(B('j', 'other@'))], label='b_ctor_copy', props='C16 C17 C23')
f('ctor', [], [], [FRE, BITS('false')], label='b_ctor')
for op, nm, x in (('&=', 'and', '%s && %s'), ('|=', 'or', '%s || %s'), ('^=', 'xor', '%s != %s')):
    f('operator' + op, None, [OKO], ['ret@ == this@', FRE, BITS(x % (B('j'), B('j', 'other@')))], [wl('h0.w@[p] %s h0.w@[p - this@ + other@]' % op[0])], label='b_%s_asg' % nm,
      entry='if this@ != other@ { disj(h0, this@, NN() as int, other@, NN() as int); }')
# results by value: a new bitset, and nothing else changed
NEW = ['fresh(*old(h), *final(h), ret@, NN() as int)']
def RB(x): return ['forall|j: int| 0 <= j < NN() ==> #[trigger] bit(*final(h), ret@, j) == (%s)' % x]
f('operator~', None, [], NEW + RB('!' + B('j')), [dict(
    inv=['fresh(h0, *h, other@, NN() as int)', '0 <= i <= nw(NN() as int)', 'forall|p: int| other@ <= p < other@ + i ==> #[trigger] h.w@[p] == !h0.w@[p - other@ + this@]'], dec='nw(NN() as int) - i')], label='b_compl', entry='broadcast use frames;')
KEEP = 'proof { fresh_wf(h0, *h, other@, NN() as int, this@, NN() as int); }'
def shift(name, src, ix, label):
    f(name, ['unsigned long'], [], NEW + RB(src % dict(B=B('j %s pos' % ('-' if ix == 'pos' else '+')), pos='pos')), [dict(
        inv=['fresh(h0, *h, other@, NN() as int)', 'pos == pos_in + i', 'i == 0 || pos <= NN()',
             'forall|j: int| 0 <= j < NN() ==> #[trigger] bit(*h, other@, j) == (%s && %s)' % ('pos_in <= j < pos' if ix == 'pos' else 'j < i && j + pos_in < NN()', B('j %s pos_in' % ('-' if ix == 'pos' else '+'), h='h0'))],
        dec='NN() - pos', top=KEEP)], label=label, entry='broadcast use frames;')
shift('operator<<', 'pos <= j && %(B)s', 'pos', 'b_shl')
shift('operator>>', 'j + pos < NN() && %(B)s', 'i', 'b_shr')
FRT = ['frt(*old(h), *final(h), this@, NN() as int)']
f('operator<<=', ['unsigned long'], [], ['ret@ == this@'] + FRT + [BITS('pos <= j && ' + B('j - pos'))], label='b_shl_asg', entry='broadcast use frames;')
f('operator>>=', ['unsigned long'], [], ['ret@ == this@'] + FRT + [BITS('j + pos < NN() && ' + B('j + pos'))], label='b_shr_asg', entry='broadcast use frames;')
for op, nm, x in (('&', 'and', '%s && %s'), ('|', 'or', '%s || %s'), ('^', 'xor', '%s != %s')):
    f('operator' + op, ['re:constbitset<70.*', 're:constbitset<70.*'], ['wfb(*old(h), a@, NN() as int)', 'wfb(*old(h), b@, NN() as int)'], NEW + RB(x % (B('j', 'a@'), B('j', 'b@'))), label='bf_' + nm, cls='ttl', ok=None, entry='broadcast use frames;')

# ---- proxies of single bits (positions up to the end of the last word; those at N and above never change or read as set)
BB, BC = 'wfb(*old(h), b@, NN() as int)', 'wfb(*old(h), c@, NN() as int)'
FB = 'fr(*old(h), *final(h), b@, NN() as int)'
PB = ['b@ != 0', 'pos < 64 * nw(NN() as int)']
def r(name, ens, req=(), **k): f(name, None, [BB] + PB + list(req), ens, label='br_' + name, cls='ttl', ok=None, **k)
def RW(x): return 'forall|j: int| 0 <= j < 64 * nw(NN() as int) ==> #[trigger] bit(*final(h), b@, j) == (%s)' % x
r('ref_set', [FB, RW('if j == pos && j < NN() { v } else { %s }' % B('j', 'b@'))])
r('ref_copy', [FB, RW('if j == pos && j < NN() { qos < NN() && %s } else { %s }' % (B('qos as int', 'c@'), B('j', 'b@')))], [BC, 'qos < 64 * nw(NN() as int)'])
r('ref_flip', [FB, RW('(j == pos && j < NN()) != %s' % B('j', 'b@'))])
r('ref_get', ['ret == (pos < NN() && %s)' % B('pos as int', 'b@'), SAME])
r('ref_not', ['ret == !(pos < NN() && %s)' % B('pos as int', 'b@'), SAME])

# ---- conversions
WB = 'wbit(%s, j as u64)'
f('to_ulong', [], [], ['forall|j: u64| j < 64 ==> #[trigger] wbit(ret, j) == (j < NN() && bit(*old(h), this@, j as int))', SAME], entry='last_ok();')
f('to_ullong', [], [], ['forall|j: u64| j < 64 ==> #[trigger] wbit(ret, j) == (j < NN() && bit(*old(h), this@, j as int))', SAME])
CU = [FRE, BITS('j < 64 && wbit(bits, j as u64)')]
CL = [dict(inv=['*h == (H { w: h.w, ..h0 })', '1 <= i <= nw(NN() as int)', 'forall|p: int| #[trigger] h.w@[p] == (if p == this@ { bits } else if this@ < p < this@ + i { 0 } else { h0.w@[p] })'], dec='nw(NN() as int) - i')]
f('ctor', ['unsigned long'], [], CU, CL, label='b_ctor_ul')
f('ctor', ['unsigned long long'], [], CU, CL, label='b_ctor_ull')
PL = 'slen(h0, bits_in@, n as int, zero, one)'
LIM = 'mn(n as int, NN() as int)'
PL0 = PL.replace('h0', '*old(h)').replace('bits_in', 'bits')
CB = 'h0.c@[bits_in@ + %s]'
f('ctor', ['const char *', 'unsigned long', 'char', 'char'], ['zero != one', 'forall|q: int| 0 <= q <= %s && q < n && q < NN() ==> #[trigger] old(h).cok@[bits@ + q]' % PL0],
  [FRE, BITS('j < %s && old(h).c@[bits@ + %s - 1 - j] != zero' % (PL0, PL0))],
  [dict(inv=['*h == h0', '0 <= i <= NN()', 'i <= n', 'bits@ == bits_in@', 'plen(h0, bits_in@, i as int, %s, zero, one) == ' % LIM + PL,
             'forall|q: int| 0 <= q < i ==> zo(#[trigger] h0.c@[bits_in@ + q], zero, one)'], dec='NN() - i', top='proof { plen_ge(h0, bits_in@, i as int, %s, zero, one); }' % LIM),
   dict(inv=['*h == (H { w: h.w, ..h0 })', 'i == ' + PL, 'i <= NN()', 'i <= n', 'bits@ == bits_in@', 'i / 64 <= s', 's <= nw(NN() as int) || s == i / 64', 'forall|p: int| #[trigger] h.w@[p] == (if this@ + i / 64 <= p < this@ + s { 0 } else { h0.w@[p] })'], dec='nw(NN() as int) - s'),
   dict(inv=['zero != one', '*h == (H { w: h.w, ..h0 })', 'i <= ' + PL, PL + ' <= NN()', PL + ' <= n', 'bits@ == bits_in@ + %s - i' % PL, 'forall|q: int| 0 <= q < %s ==> zo(#[trigger] h0.c@[bits_in@ + q], zero, one)' % PL, 'forall|p: int| !(this@ <= p < this@ + nw(NN() as int)) ==> #[trigger] h.w@[p] == h0.w@[p]',
             'forall|j: int| i <= j < NN() ==> #[trigger] bit(*h, this@, j) == (j < %s && h0.c@[bits_in@ + %s - 1 - j] != zero)' % (PL, PL)], dec='i', top='proof { let q = bits@ - bits_in@; assert(bits_in@ + q == bits@); if i > 0 { assert(0 <= q < %s); assert(zo(h0.c@[bits_in@ + q], zero, one)); assert(h0.cok@[bits_in@ + q]); assert(h.cok@[bits@]); } }' % PL)],
  label='b_ctor_str')
for c, nm, X in ((W, 'm_', 'MM'),):
    f('capacity', [], [], ['ret == 64 * nw(MM() as int)', SAME], label='m_capacity', cls=W, ok=None)
    f('last_slot_index', [], [], ['ret == (if MM() == 0 { 0 } else { nw(MM() as int) - 1 })', SAME], label='m_last_slot_index', cls=W, ok=None)
    f('last_bits', [], [], ['lastm(ret, MM() as int)', SAME], label='m_last_bits', cls=W, ok=None, entry='if MM() % 64 != 0 { b_low((MM() % 64) as u64); }', exit='assert(ret == lmask(MM() as int));')
OKM = ['wfb(*old(h), other@, MM() as int)', 'other@ != this@ || MM() == 0']
XB = BITS('j < MM() && ' + B('j', 'other@'))
f('operator=', ['re:constbitset<130.*'], OKM, ['ret@ == this@', FRE, XB],
  [dict(inv=['*h == (H { w: h.w, ..h0 })', '0 <= i <= n', 'forall|p: int| #[trigger] h.w@[p] == (if this@ <= p < this@ + i { h0.w@[p - this@ + other@] } else { h0.w@[p] })'], dec='n - i'),
   dict(inv=['*h == (H { w: h.w, ..h0 })', 'n <= i <= nw(NN() as int)', 'forall|p: int| !(this@ <= p < this@ + nw(NN() as int)) ==> #[trigger] h.w@[p] == h0.w@[p]',
     'forall|j: int| 0 <= j < 64 * i && j < NN() ==> #[trigger] bit(*h, this@, j) == (j < MM() && bit(h0, other@, j))'], dec='nw(NN() as int) - i', top='let ghost hb = *h; let ghost ib = i as int;',
     bot='proof { assert forall|j: int| 0 <= j < 64 * (ib + 1) && j < NN() implies #[trigger] bit(*h, this@, j) == (j < MM() && bit(h0, other@, j)) by { if j < 64 * ib { assert(bit(*h, this@, j) == bit(hb, this@, j)); } else { assert(j / 64 == ib); assert(bit(*h, this@, j) == wbit(0, (j % 64) as u64)); } } }')],
  entry='disj(h0, this@, NN() as int, other@, MM() as int);', label='b_assign_m')
f('ctor', ['re:constbitset<130.*'], OKM, [FRE, XB], label='b_ctor_m')
f('operator bitset', None, ['wfb(*old(h), this@, MM() as int)'], ['fresh(*old(h), *final(h), ret@, NN() as int)', 'forall|j: int| 0 <= j < NN() ==> #[trigger] bit(*final(h), ret@, j) == (j < MM() && %s)' % B('j')], label='m_convert', cls=W, ok=None, entry='broadcast use frames;')
# ---- the empty bitset
f('size', [], [], ['ret == 0', SAME], label='be_size', cls=Z, ok=None)
f('capacity', [], [], ['ret == 0', SAME], label='be_capacity', cls=Z, ok=None)
f('ctor', [], [], [SAME], label='be_ctor', cls=Z, ok=None)
f('ctor', ['re:constbitset<0>&|constbitset&.*'], [], [SAME], label='be_ctor_copy', cls=Z, ok=None)
f('ctor', ['re:constbitset<130.*'], [], [SAME], label='be_ctor_m', cls=Z, ok=None)
f('operator=', ['re:constbitset<130.*'], [], ['ret@ == this@', SAME], [dict(inv=['*h == h0', 'n == 0'], dec='0int'), dict(inv=['*h == h0'], dec='0int')], label='be_assign_m', cls=Z, ok=None)
f('operator=', ['re:constbitset<0>&|constbitset&.*'], [], ['ret@ == this@', SAME], [dict(inv=['*h == h0'], dec='0int')], label='be_assign', cls=Z, ok=None)
f('ctor', ['unsigned long'], [], [SAME], label='be_ctor_ul', cls=Z, ok=None)
f('ctor', ['unsigned long long'], [], [SAME], label='be_ctor_ull', cls=Z, ok=None)
f('ctor', ['re:constchar.*', 'unsigned long', 'char', 'char'], [], [SAME], [dict(inv=['*h == h0', 'i == 0'], dec='0int'), dict(inv=['*h == h0', 'i == 0'], dec='0int'), dict(inv=['*h == h0', 'i == 0'], dec='0int')], label='be_ctor_str', cls=Z, ok=None)
f('operator!=', None, [], ['!ret', SAME], label='be_ne', cls=Z, ok=None)
f('operator~', [], [], [SAME], label='be_compl', cls=Z, ok=None)
f('operator<<', None, [], [SAME], label='be_shl', cls=Z, ok=None)
f('operator>>', None, [], [SAME], label='be_shr', cls=Z, ok=None)
f('operator<<=', None, [], ['ret@ == this@', SAME], label='be_shl_asg', cls=Z, ok=None)
f('operator>>=', None, [], ['ret@ == this@', SAME], label='be_shr_asg', cls=Z, ok=None)
for nm, r0 in (('all', 'true'), ('any', 'false'), ('none', 'true'), ('count', '0'), ('to_ulong', '0'), ('to_ullong', '0')):
    f(nm, [], [], ['ret == ' + r0, SAME], label='be_' + nm, cls=Z, ok=None)
f('test', ['unsigned long'], [], ['!ret', SAME], label='be_test', cls=Z, ok=None)
for nm in ('set', 'reset', 'flip'):
    f(nm, [], [], ['ret@ == this@', SAME], label='be_%s_all' % nm, cls=Z, ok=None)
    f(nm, ['unsigned long'], [], ['ret@ == this@', SAME], label='be_' + nm, cls=Z, ok=None)
f('set', ['unsigned long', 'bool'], [], ['ret@ == this@', SAME], label='be_set_v', cls=Z, ok=None)
for op, nm in (('&=', 'and'), ('|=', 'or'), ('^=', 'xor')):
    f('operator' + op, None, [], ['ret@ == this@', SAME], label='be_' + nm, cls=Z, ok=None)
    f('operator' + op[0], ['re:constbitset<0>.*'] * 2, [], [SAME], label='bef_' + nm, cls='ttl', ok=None)
f('operator==', None, [], ['ret', SAME], label='be_eq', cls=Z, ok=None)
for op, neg in (('==', '!'), ('!=', '')):
    for ps, who, k in ((['re:constbitset<0.*', 're:constbitset<70.*'], 'b', 'zl'), (['re:constbitset<70.*', 're:constbitset<0.*'], 'a', 'zr')):
        f('operator' + op, ps, ['wfb(*old(h), %s@, NN() as int)' % who], ['ret == %s(exists|j: int| 0 <= j < NN() && #[trigger] %s)' % (neg, B('j', who + '@')), SAME], label=k + ('_eq' if neg else '_ne'), cls='ttl', ok=None)
