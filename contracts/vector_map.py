"""Contracts of vector_map.hpp: C15, parts of C23. The entries are the elements of the vector below."""
import copy
from lib.family import Fn
from lib.xlate import Family
from contracts import vector as vec

M = 'vector_map<K, E>'
P = 'pair<K, E>'
V = 'ttl::vector<ttl::pair<K, E>>'
TU = r'''
#include <ttl/types.hpp>
#include <ttl/utility.hpp>
#include <ttl/functional.hpp>
#include <ttl/vector_map.hpp>
struct E { E(); E(const E &); ~E(); E &operator=(const E &); int v; };
struct K { K(); K(const K &); ~K(); K &operator=(const K &); int v; };
bool operator==(const K &, const K &);
namespace ttl {
template class vector<pair<K, E> >;
template class vector_map<K, E>;
inline void vm_destroy(vector_map<K, E> &m) { m.~vector_map(); }
}
'''
def _keq(x, d, this, args, n, fr):
    a = x.ex(args[0], fr); b = x.ex(args[1], fr)
    return ('s', x.tmp('bool', 'k_eq(h, %s, %s)' % (a[1], b[1])), 'bool')
def pair_ctor(x, n, dst, args, fr):
    a = [x.ex(y, fr)[1] for y in args]
    x.emit('pair_ctor(h, %s);' % ', '.join([dst] + a))
FAM = Family(name='vector_map', elems={'ttl::pair<K, E>', 'K', 'E'},
    value_classes=[r'ttl::pair<ttl::pair<K, E> \*, bool>', V + r'::vc_.*'],
    fields={(V, 'elements_'): ('heap', 'el', 'Ptr'), (V, 'last_'): ('heap', 'la', 'Ptr'), (V, 'end_of_elements_'): ('heap', 'en', 'Ptr')},
    opaque=[(r'operator==', _keq)],
    sizeof=[(r'type:(E|ttl::pair<K, E>)', '1u64')],
    zone={'elem_ctor': pair_ctor, 'elem_members': {'first': '{}', 'second': 'sec({})'}})
PRELUDE = ['common.rs', 'elem.rs', 'vector.rs', 'eops.rs', 'vector_map.rs']
VERUS = ['--rlimit', '60']
FNS = []
# ---- the vector below: the contracts of vector.py
USED = ['v_begin', 'v_begin_c', 'v_end', 'v_end_c', 'v_cbegin', 'v_cend', 'v_clear', 'v_insert_1', 'v_ctor', 'v_ctor_copy', 'v_dtor']
def conv(s):
    if s is None: return None
    return s.replace('vector<E>', 'vector<ttl::pair<K, E>>').replace('const E ', 'const ttl::pair<K, E> ')
for f in vec.FNS:
    if f.label in USED:
        g = copy.deepcopy(f)
        g.cxx = conv(g.cxx); g.ps = None if g.ps is None else [conv(x) for x in g.ps]
        g.props = {'C15'}; g.const = getattr(f, 'const', None)
        g.ensures = [(e, None) for e, t in g.ensures]
        FNS.append(g)
S = 'ttl::' + M
SAME = '*final(h) == *old(h)'
def m(name, ps, req, ens, loops=(), label=None, const=None, props='C15', **k):
    x = Fn(label or 'm_' + name, S + '::' + name, ps, props, ['wf(*old(h))', 'old(h).vs@[this@]'] + req, ens, loops, **k); x.const = const; FNS.append(x); return x
E0, L0 = 'old(h).el@[this@]', 'old(h).la@[this@]'
for c, s in ((False, ''), (True, '_c')):
    m('begin', [], [], ['ret@ == ' + E0, SAME], const=c, label='m_begin' + s)
    m('end', [], [], ['ret@ == ' + L0, SAME], const=c, label='m_end' + s)
m('cbegin', [], [], ['ret@ == ' + E0, SAME])
m('cend', [], [], ['ret@ == ' + L0, SAME])
KEY = ['el(old(h).e@, key@)']
KK = 'ev(old(h).e@, key@)'
S0, S1 = 'sv(*old(h), this@)', 'sv(*final(h), this@)'
WFQ = 'proof { assert(wfv(h0, this@)); }'
m('find_key', None, KEY + ['%s <= i@ <= %s' % (E0, L0)], ['ret@ == %s + next(%s, %s, i@ - %s)' % (E0, S0, KK, E0), 'i@ <= ret@ <= ' + L0, SAME],
  [dict(inv=['*h == h0', 'i_in@ <= i@ <= h0.la@[this@]', 'next(sv(h0, this@), ev(h0.e@, key@), i_in@ - h0.el@[this@]) == next(sv(h0, this@), ev(h0.e@, key@), i@ - h0.el@[this@])'],
        dec='h0.la@[this@] - i@')], entry=WFQ)
FIND = 'next(%s, %s, 0)' % (S0, KK)
for c, s in ((False, ''), (True, '_c')):
    m('find', None, KEY, ['ret@ == %s + %s' % (E0, FIND), SAME, '%s <= ret@ <= %s' % (E0, L0)], const=c, label='m_find' + s, entry=WFQ)
    m('at', None, KEY + ['%s < %s.len()' % (FIND, S0)], ['ret@ == sec_of(%s + %s)' % (E0, FIND), SAME], const=c, label='m_at' + s, entry=WFQ)
m('count', None, KEY, ['ret == cnt(%s, %s, %s.len() as int)' % (S0, KK, S0), SAME],
  [dict(inv=['*h == h0', 'h0.el@[this@] <= i@ <= h0.la@[this@]', 'n <= i@ - h0.el@[this@]', 'n == cnt(sv(h0, this@), ev(h0.e@, key@), i@ - h0.el@[this@])'],
        dec='h0.la@[this@] - i@')], entry=WFQ + 'proof { lem_cnts(sv(h0, this@), ev(h0.e@, key@)); }')
FR = ['wf(*final(h))', 'fr(*old(h), *final(h), this@)']
ROOM = '%s - %s + 1 <= MAXN()' % (L0, E0)
KV = 'ev(old(h).e@, value@)'
FV = 'next(%s, %s, 0)' % (S0, KV)
m('insert', None, ['el(old(h).e@, value@)', ROOM],
  FR + ['ret.1 == (%s == %s.len())' % (FV, S0), 'ret.0@ == final(h).el@[this@] + ' + FV,
        '%s =~= (if ret.1 { %s.push(%s) } else { %s })' % (S1, S0, KV, S0), '!ret.1 ==> *final(h) == *old(h)'], entry=WFQ, exit='proof { if !ret.1 { lem_refl(h0, this@); } }')
m('operator[]', None, KEY + [ROOM],
  FR + ['ret@ == sec_of(final(h).el@[this@] + %s)' % FIND, '%s < %s.len() ==> *final(h) == *old(h)' % (FIND, S0),
        '%s == %s.len() ==> %s.len() == %s.len() + 1 && %s.drop_last() =~= %s && kval(%s.last()) == kval(%s) && mval(%s.last()) == vdef()' % (FIND, S0, S1, S0, S1, S0, S1, KK, S1)],
  label='m_index', entry=WFQ + ' let ghost mut ha = h0; let ghost mut hb = h0; let ghost mut mk = false; let ghost mut t = 0int; let ghost mut x = 0int; let ghost mut y = 0int;',
  at={('call:v_insert_1', 0, 'before'): 'proof { ha = *h; mk = true; t = etmp@; x = earg@; y = earg_v1@; assert(wfv(ha, this@)); }', ('call:v_insert_1', 0, 'after'): 'proof { hb = *h; assert(wfv(hb, this@)); stack_tmp3(h0, ha, hb, (H { e: Ghost(hb.e@.insert(t, Slot::No).insert(x, Slot::No).insert(y, Slot::No)), ..hb }), t, x, y, this@); }'},
  exit='proof { if mk { stack_tmp3(h0, ha, hb, *h, t, x, y, this@); wf_fr(h0, *h, this@); } else { lem_refl(h0, this@); } }')
CFR = ['wf(*final(h))', 'frn(*old(h), *final(h), this@)']
FNS.append(Fn('m_dtor', 'ttl::vm_destroy', None, 'C15', ['wf(*old(h))', 'old(h).vs@[m@]'], ['wf(*final(h))', 'gone(*old(h), *final(h), m@)']))
def ct(ps, ens, label, req=(), props='C15', **k):
    FNS.append(Fn(label, S + '::ctor', ps, props, ['wf(*old(h))', '!old(h).vs@[this@]'] + list(req), CFR + ens, **k))
ct([], [S1 + ' =~= Seq::<Val>::empty()'], 'm_ctor')
ct(['const ttl::%s &' % M], [S1 + ' =~= sv(*old(h), other@)', 'sv(*final(h), other@) =~= sv(*old(h), other@)'], 'm_ctor_copy', ['old(h).vs@[other@]'], 'C15 C23')
