"""Contracts of rbtree.hpp, map.hpp and set.hpp: C10 to C13, C24, parts of C23."""
from lib.family import Fn
from lib.xlate import Family, tyof
from contracts.emit import _eq, _lt, _ne, _pred

TU = r'''
#include <ttl/types.hpp>
#include <ttl/utility.hpp>
#include <ttl/functional.hpp>
#include <ttl/algorithm.hpp>
#include <ttl/map.hpp>
#include <ttl/set.hpp>
struct E { E(); E(const E &); ~E(); E &operator=(const E &); int v; };
struct K { K(); K(const K &); ~K(); K &operator=(const K &); int v; };
bool operator==(const K &, const K &);
bool operator<(const K &, const K &);
bool operator==(const E &, const E &);
struct CP { bool operator()(const K &, const K &) const; };
namespace ttl {
template class rbtree<K, pair<const K, E>, select_first<pair<const K, E> >, CP>;
template class rbtree<K, K, select_same<K>, less<K> >;
template class map<K, E, CP>;
template class set<K>;
template void map<K, E, CP>::insert(const pair<const K, E> *, const pair<const K, E> *);
template void set<K>::insert(const K *, const K *);
template map<K, E, CP>::map(const pair<const K, E> *, const pair<const K, E> *);
template set<K>::set(const K *, const K *);
template bool operator==(const map<K, E, CP> &, const map<K, E, CP> &);
template bool operator!=(const map<K, E, CP> &, const map<K, E, CP> &);
template bool operator==(const set<K> &, const set<K> &);
template bool operator!=(const set<K> &, const set<K> &);
// client code: the member functions of the iterators run
''' + ''.join(r'''
inline @::iterator $_it_inc(@::iterator i) { return ++i; }
inline @::iterator $_it_dec(@::iterator i) { return --i; }
inline @::iterator $_it_pinc(@::iterator i) { return i++; }
inline @::iterator $_it_pdec(@::iterator i) { return i--; }
inline @::iterator $_it_pinc2(@::iterator i) { i++; return i; }
inline @::iterator $_it_pdec2(@::iterator i) { i--; return i; }
inline % &$_it_get(@::iterator i) { return *i; }
inline % *$_it_arrow(@::iterator i) { return i.operator->(); }
inline bool $_it_eq(@::iterator i, @::iterator j) { return i == j; }
inline bool $_it_ne(@::iterator i, @::iterator j) { return i != j; }
inline bool $_it_eqc(@::iterator i, @::const_iterator j) { return i == j; }
inline bool $_it_nec(@::iterator i, @::const_iterator j) { return i != j; }
inline @::const_iterator $_ci_inc(@::const_iterator i) { return ++i; }
inline @::const_iterator $_ci_dec(@::const_iterator i) { return --i; }
inline @::const_iterator $_ci_pinc(@::const_iterator i) { return i++; }
inline @::const_iterator $_ci_pdec(@::const_iterator i) { return i--; }
inline @::const_iterator $_ci_pinc2(@::const_iterator i) { i++; return i; }
inline @::const_iterator $_ci_pdec2(@::const_iterator i) { i--; return i; }
inline const % &$_ci_get(@::const_iterator i) { return *i; }
inline const % *$_ci_arrow(@::const_iterator i) { return i.operator->(); }
inline bool $_ci_eq(@::const_iterator i, @::const_iterator j) { return i == j; }
inline bool $_ci_ne(@::const_iterator i, @::const_iterator j) { return i != j; }
inline bool $_ci_eqm(@::const_iterator i, @::iterator j) { return i == j; }
inline bool $_ci_nem(@::const_iterator i, @::iterator j) { return i != j; }
inline @::const_iterator $_ci_conv(@::iterator i) { return i; }
inline void $_destroy(@ &m) { m.~$$(); }
'''.replace('@', c).replace('%', e).replace('$$', d).replace('$', x) for c, e, d, x in (('map<K, E, CP>', 'pair<const K, E>', 'map', 'm'), ('set<K>', 'K', 'set', 's'))) + '''
inline bool m_vcmp(const pair<const K, E> &a, const pair<const K, E> &b) { return map<K, E, CP>::value_compare()(a, b); }
}
'''
B, R = 'ttl::rbtree_base', 'ttl::rbnode'
RM = 'ttl::rbtree<K, ttl::pair<const K, E>, ttl::select_first<ttl::pair<const K, E>>, CP>'
RS = 'ttl::rbtree<K, K, ttl::select_same<K>, ttl::less<K>>'
MAP, SET = 'ttl::map<K, E, CP>', 'ttl::set<K>'
def _keq(x, d, this, args, n, fr):
    a = x.ex(args[0], fr); b = x.ex(args[1], fr)
    if a[1].startswith('sec(') and b[1].startswith('sec('):
        return ('s', x.tmp('bool', 'sec_eq(h, %s, %s)' % (a[1][4:-1], b[1][4:-1])), 'bool')
    return ('s', x.tmp('bool', 'k_eq(h, %s, %s)' % (a[1], b[1])), 'bool')
def pair_ctor(x, n, dst, args, fr):
    x.emit('pair_ctor(h, %s, %s, %s);' % (dst, x.ex(args[0], fr)[1], x.ex(args[1], fr)[1]))
FAM = Family(name='tree', elems={'K', 'E', 'ttl::pair<const K, E>'},
    value_classes=[r'ttl::pair<(const )?ttl::rbtree<.*>::node \*, .*>', r'ttl::(map|set)<.*>::(const_)?iterator', r'ttl::map<.*>::value_compare', 'CP', r'ttl::pair<ttl::(map|set)<.*>::(const_)?iterator, .*>'],
    fields={(R, 'parent'): ('heap', 'pa', 'Ptr'), (R, 'left'): ('heap', 'le', 'Ptr'), (R, 'right'): ('heap', 'ri', 'Ptr'), (R, 'color'): ('heap', 'co', 'bool'),
            (B, 'header_'): ('off', 0), (RM + '::node', 'data'): ('eslot', 0), (RS + '::node', 'data'): ('eslot', 0),
            (RM, 'keyof_'): ('empty',), (RM, 'is_less_'): ('empty',), (RS, 'keyof_'): ('empty',), (MAP, 'rbtree_'): ('off', 0), (SET, 'rbtree_'): ('off', 0), (RS, 'is_less_'): ('empty',)},
    node_kinds=[(RM + '::node', 'node_new', 'node_del'), (RS + '::node', 'node_new', 'node_del')],
    opaque=[(r'CP::operator\(\)', _pred('k_lt')), (r'operator==', _keq), (r'operator<', _pred('k_lt'))], sizeof=[(r'type:.*node(_type)?', 'node_size()')],
    zone={'elem_ctor': pair_ctor, 'elem_members': {'first': '{}', 'second': 'sec({})'}, 'second_copy': 'e_ctor_second'})
PRELUDE = ['common.rs', 'elem.rs', 'tree.rs', 'tree_rm.rs', 'eops.rs']
VERUS = ['--rlimit', '60']
FNS = []
SAME = '*final(h) == *old(h)'
P = 'C10 C11 C12 C13 C24'
def f(name, ps, req, ens, loops=(), label=None, const=None, props=P, cls=B, **k):
    g = Fn(label or 'b_' + name, cls + '::' + name, ps, props, req, ens, loops, **k)
    g.const = const
    FNS.append(g)
IN = ['n@ != 0', 'own(*old(h), n@) != 0', 'ws(*old(h), own(*old(h), n@))']
def G(p='n'): return 'let ghost t = own(*h, %s@); proof { if %s@ != 0 { assert(wn(*h, t, %s@)); } }' % (p, p, p)
WN = 'proof { assert(wn(*h, t, n@)); if h.pa@[n@] != t { assert(wn(*h, t, h.pa@[n@])); } }'
f('min_node', None, ['n@ == 0 || own(*old(h), n@) != 0 && ws(*old(h), own(*old(h), n@))'],
  ['n@ == 0 ==> ret@ == 0', 'n@ != 0 ==> ret@ == ns(*old(h), own(*old(h), n@))[lo(*old(h), n@)]', SAME],
  [dict(inv=['*h == h0', 'n@ != 0 ==> own(*h, n@) == t && t != 0 && ws(*h, t) && wn(*h, t, n@) && lo(*h, n@) == lo(*h, n_in@)', 'n@ == 0 <==> n_in@ == 0'], dec='if n@ == 0 { 0 } else { hi(*h, n@) - lo(*h, n@) }', bot='proof { assert(wn(*h, t, n@)); }')], entry=G())
f('max_node', None, ['n@ == 0 || own(*old(h), n@) != 0 && ws(*old(h), own(*old(h), n@))'],
  ['n@ == 0 ==> ret@ == 0', 'n@ != 0 ==> ret@ == ns(*old(h), own(*old(h), n@))[hi(*old(h), n@) - 1]', SAME],
  [dict(inv=['*h == h0', 'n@ != 0 ==> own(*h, n@) == t && t != 0 && ws(*h, t) && wn(*h, t, n@) && hi(*h, n@) == hi(*h, n_in@)', 'n@ == 0 <==> n_in@ == 0'], dec='if n@ == 0 { 0 } else { hi(*h, n@) - lo(*h, n@) }', bot='proof { assert(wn(*h, t, n@)); }')], entry=G())
NX = 'if idx(*old(h), n@) + 1 < ns(*old(h), own(*old(h), n@)).len() { ns(*old(h), own(*old(h), n@))[idx(*old(h), n@) + 1] } else { own(*old(h), n@) }'
PV = 'if idx(*old(h), n@) > 0 { ns(*old(h), own(*old(h), n@))[idx(*old(h), n@) - 1] } else { own(*old(h), n@) }'
GP = G() + ' proof { if h.pa@[n@] != t { assert(wn(*h, t, h.pa@[n@])); } if h.le@[n@] != 0 { assert(wn(*h, t, h.le@[n@])); } if h.ri@[n@] != 0 { assert(wn(*h, t, h.ri@[n@])); } }'
f('next_node', None, IN, ['ret@ == (%s)' % NX, SAME],
  [dict(inv=['*h == h0', 't != 0', 'own(*h, n@) == t', 'ws(*h, t)', 'wn(*h, t, n@)', 'h.pa@[n@] != t ==> wn(*h, t, h.pa@[n@])', 'hi(*h, n@) == idx(*h, n_in@) + 1', 'wn(*h, t, n_in@)', 't == own(*h, n_in@)'],
        dec='ns(*h, t).len() - (hi(*h, n@) - lo(*h, n@))', bot=WN)], entry=GP)
f('prev_node', None, IN, ['ret@ == (%s)' % PV, SAME],
  [dict(inv=['*h == h0', 't != 0', 'own(*h, n@) == t', 'ws(*h, t)', 'wn(*h, t, n@)', 'h.pa@[n@] != t ==> wn(*h, t, h.pa@[n@])', 'lo(*h, n@) == idx(*h, n_in@)', 'wn(*h, t, n_in@)', 't == own(*h, n_in@)'],
        dec='ns(*h, t).len() - (hi(*h, n@) - lo(*h, n@))', bot=WN)], entry=GP)
f('is_red', None, ['n@ != 0 ==> al(*old(h), n@)'], ['ret == red(*old(h), n@)', SAME])
ST = 'h.lo = Ghost(%s.lo@); h.hi = Ghost(%s.hi@); h.bh = Ghost(%s.bh@); proof { assert(h.pa@ =~= %s.pa@); assert(h.le@ =~= %s.le@); assert(h.ri@ =~= %s.ri@); assert(h.co@ =~= %s.co@); }'
f('rotate_left', None, ['al(*old(h), a@)', 'old(h).ri@[a@] != 0', 'al(*old(h), old(h).ri@[a@])', 'old(h).le@[old(h).ri@[a@]] != 0 ==> al(*old(h), old(h).le@[old(h).ri@[a@]])', 'a@ != old(h).ri@[a@]', 'old(h).le@[old(h).ri@[a@]] != a@'],
  ['*final(h) == rotl(*old(h), a@)', 'ret@ == old(h).ri@[a@]'], exit=ST.replace('%s', 'rotl(h0, a_in@)'))
f('rotate_right', None, ['al(*old(h), b@)', 'old(h).le@[b@] != 0', 'al(*old(h), old(h).le@[b@])', 'old(h).ri@[old(h).le@[b@]] != 0 ==> al(*old(h), old(h).ri@[old(h).le@[b@]])', 'b@ != old(h).le@[b@]', 'old(h).ri@[old(h).le@[b@]] != b@'],
  ['*final(h) == rotr(*old(h), b@)', 'ret@ == old(h).le@[b@]'], exit=ST.replace('%s', 'rotr(h0, b_in@)'))
f('flip_colors', None, ['al(*old(h), n@)', 'al(*old(h), old(h).le@[n@])', 'al(*old(h), old(h).ri@[n@])'],
  ['*final(h) == flip(*old(h), n@)'], exit=ST.replace('%s', 'flip(h0, n_in@)'))
f('edge', None, ['own(*old(h), h_v@) == this@', 'this@ != 0', 'ws(*old(h), this@)'],
  ['eo(*old(h), this@, ret@, h_v@)', 'get(*old(h), ret@) == h_v@', SAME],
  entry='proof { assert(wn(*h, this@, h_v@)); if h.pa@[h_v@] != this@ { assert(wn(*h, this@, h.pa@[h_v@])); } }')
f('fixup', None, ['okfx(*old(h), root@)'], ['*final(h) == fx(*old(h), root@).0', 'ret@ == fx(*old(h), root@).1'])
f('insert_rebalance', None,
  ['root@.0 == parent@', '0 <= root@.1 <= 2', 'al(*old(h), parent@)', 'get(*old(h), root@) != 0', 'get(*old(h), root@) != parent@',
   'ws(ini(*old(h), get(*old(h), root@)), this@)', 'wi(ini(*old(h), get(*old(h), root@)), this@, parent@, get(*old(h), root@))'],
  ['ws(*final(h), this@)', 'wc(*final(h), this@)', 'frs(ini(*old(h), get(*old(h), root@)), *final(h), this@)'],
  [dict(inv=['t == this@', 'ws(*h, t)', 'wi(*h, t, parent@, y)', 'frs(hi0, *h, t)', 'parent@ != t ==> wn(*h, t, parent@)',
             'parent@ != t && h.le@[parent@] != 0 ==> wn(*h, t, h.le@[parent@])', 'parent@ != t && h.ri@[parent@] != 0 ==> wn(*h, t, h.ri@[parent@])'],
        dec='ns(hi0, t).len() - (hi(*h, y) - lo(*h, y))',
        before='let ghost mut y = get(h0, root_in@); let ghost t = this@; let ghost hi0 = ini(h0, y); proof { assert(h.co@ =~= hi0.co@); assert(h.le@ =~= hi0.le@); assert(h.ri@ =~= hi0.ri@); if parent@ != t { assert(wn(*h, t, parent@)); if h.le@[parent@] != 0 { assert(wn(*h, t, h.le@[parent@])); } if h.ri@[parent@] != 0 { assert(wn(*h, t, h.ri@[parent@])); } } }',
        top='let ghost hb = *h; let ghost p = parent@;',
        bot='''proof { let z = fx(hb, p).1; lem_wi(hb, *h, t, root@, p, y, z); y = z; assert(wn(*h, t, y)); lem_frs(hi0, hb, *h, t); 
            if parent@ != t { assert(wn(*h, t, parent@)); if h.le@[parent@] != 0 { assert(wn(*h, t, h.le@[parent@])); } if h.ri@[parent@] != 0 { assert(wn(*h, t, h.ri@[parent@])); } } }''',
        after='proof { lem_wi_end(*h, t, parent@, y); } let ghost he = *h; proof { assert(wn(he, t, he.pa@[t])); }')],
  entry='proof { let x = get(*h, root@); assert(wn(ini(*h, x), this@, x)); if parent@ != this@ { assert(wn(ini(*h, x), this@, parent@)); } }',
  at={('call:b_edge', 0, 'after'): 'proof { lem_wi_pre(*h, t, $r@, p, y); lem_fix(*h, t, $r@, p); assert(wn(*h, t, p)); }'},
  exit='h.bh = Ghost(blacken(he, t).bh@); proof { assert(h.co@ =~= blacken(he, t).co@); lem_blacken(he, t); lem_frs(hi0, he, *h, t); }')

# ---- removal
f('move_left', None, ['okmv(*old(h), pivot@)'], ['*final(h) == mvl(*old(h), pivot@).0', 'ret@ == mvl(*old(h), pivot@).1'])
f('move_right', None, ['okmv(*old(h), pivot@)'], ['*final(h) == mvr(*old(h), pivot@).0', 'ret@ == mvr(*old(h), pivot@).1'])
UNL = """let ghost h2 = unl(h1, t, %s, %s); h.ns = Ghost(h2.ns@); h.own = Ghost(h2.own@); h.idx = Ghost(h2.idx@); h.lo = Ghost(h2.lo@); h.hi = Ghost(h2.hi@);"""
f('delete_min', None, ['dnw(*old(h), this@, root@)', 'root@.0 != this@', 'get(*old(h), root@) != 0', '!spc(*old(h), get(*old(h), root@))'],
  ['upw(*final(h), this@, root@)', 'ret@ != 0', 'own(*old(h), ret@) == this@', 'idx(*old(h), ret@) == ea(*old(h), this@, root@)', 'rmd(*old(h), *final(h), this@, ea(*old(h), this@, root@), ret@)', 'final(h).pa@[root@.0] == old(h).pa@[root@.0]'],
  [dict(inv=['t == this@', 'e0 == root@', 'eok(h0, t, e0)', 'e0.0 != t', 'own(h0, e0.0) == t', '!(ka <= idx(h0, e0.0) < kb)', 'dnw(*h, t, pivot@)', 'pivot@.0 != t', 'get(*h, pivot@) != 0', '!spc(*h, get(*h, pivot@))', 'al(*h, pivot@.0)', '0 <= pivot@.1 <= 2', 'wn(*h, t, get(*h, pivot@))',
             'frs(h0, *h, t)', 'ea(*h, t, pivot@) == ka', 'eb(*h, t, pivot@) <= kb', 'pivot@ == e0 || ka <= idx(*h, pivot@.0) < kb', 'h.pa@[e0.0] == h0.pa@[e0.0]', 'lo(*h, e0.0) == lo(h0, e0.0)', 'hi(*h, e0.0) == hi(h0, e0.0)'],
        dec='eb(*h, t, pivot@) - ea(*h, t, pivot@)',
        before='let ghost t = this@; let ghost e0 = root@; let ghost ka = ea(h0, t, e0); let ghost kb = eb(h0, t, e0); proof { lem_edge(*h, t, e0); assert(wn(*h, t, e0.0)); }',
        pre='let ghost hb = *h; let ghost y = get(hb, pivot@); let ghost pb = pivot@; proof { assert(wn(*h, t, y)); if hb.le@[y] != 0 { assert(wn(*h, t, hb.le@[y])); if hb.le@[hb.le@[y]] != 0 { assert(wn(*h, t, hb.le@[hb.le@[y]])); } } lem_edge(*h, t, pivot@); }',
        bot="""proof { let l = hb.le@[y]; let mv = !red(hb, l) && !red(hb, hb.le@[l]);
            if mv { lem_dn_ml(hb, t, pb); } else { lem_dn_left(hb, t, pb); } }
            let ghost z = pivot@.0; h.mr = Ghost(setmr(*h, z, if !red(hb, hb.le@[y]) && !red(hb, hb.le@[hb.le@[y]]) { z == y } else { red(hb, hb.le@[y]) }).mr@);
            proof { lem_frs(h0, hb, *h, t); lem_edge(*h, t, pivot@); assert(wn(*h, t, pivot@.0)); }""",
        after='let ghost h1 = *h; let ghost x = get(h1, pivot@); proof { lem_leaf(h1, t, pivot@); lem_edge(h1, t, pivot@); }'),
   dict(inv=['eok(*h, t, e0)', 'own(*h, e0.0) == t', 'upw(*h, t, pivot@)', 'pivot@.0 != t', 'parent@ == pivot@.0', 'rmd(h0, *h, t, ka, x)', 'ea(*h, t, e0) == ka', 'eb(*h, t, e0) == kb - 1', 'pivot@ == e0 || ka <= idx(*h, pivot@.0) < kb - 1', 'h.pa@[e0.0] == h0.pa@[e0.0]',
             'ka <= ea(*h, t, pivot@)', 'eb(*h, t, pivot@) <= kb - 1', 'al(*h, pivot@.0)', '!(ka <= idx(*h, e0.0) < kb - 1)'],
        dec='kb - (eb(*h, t, pivot@) - ea(*h, t, pivot@))',
        before=UNL % ('pivot@', 'ka') + ' proof { assert(h.pa@ =~= h2.pa@); lem_unl(h1, t, pivot@, ka); lem_rmd(h0, h1, *h, *h, t, ka, x); lem_edge(*h, t, pivot@); }',
        top='let ghost hb = *h; let ghost p = parent@; let ghost pb = pivot@;',
        bot="""proof { let g = pivot@; lem_up(hb, t, pb, g); lem_pa(hb, *h, t, g, p, fx(hb, p).1, e0.0); lem_pa(hb, *h, t, g, p, fx(hb, p).1, g.0); lem_rmd(h0, h0, hb, *h, t, ka, x); lem_edge(*h, t, g); }""")],
  at={('call:b_move_left', 0, 'before'): 'proof { lem_dn_ml(hb, t, pb); }',
      ('call:b_edge', 0, 'after'): 'proof { lem_above(*h, t, e0, pb, $r@); lem_up(*h, t, pb, $r@); lem_edge(*h, t, $r@); assert(wn(*h, t, p)); }'})

# ---- the search tree, for maps and for sets
def t(T, name, ps, req, ens, loops=(), label=None, **k):
    f(name, ps, ['wf(*old(h), this@)'] + req, ens, loops, label=(label or name) + ('_m' if T == RM else '_s'), cls=T, **k)
KEY = ['el(old(h).e@, data@)']
def KV(x): return 'kval(ev(old(h).e@, %s@))' % x
LINK = """let ghost x = newnode@; let ghost k = ea(h0, t, edge@); let ghost h1 = linked(h0, t, edge@, x, v, k);
    h.ns = Ghost(h1.ns@); h.own = Ghost(h1.own@); h.idx = Ghost(h1.idx@); h.lo = Ghost(h1.lo@); h.hi = Ghost(h1.hi@); h.bh = Ghost(h1.bh@);
    proof { lem_link(h0, t, edge@, x, v, k); let i1 = ini(*h, x); assert(i1.e@ =~= h1.e@); assert(i1.st@ =~= h1.st@); assert(i1.pa@ =~= h1.pa@); assert(i1.le@ =~= h1.le@); assert(i1.ri@ =~= h1.ri@); assert(i1.co@ =~= h1.co@); }"""
INS = {('call:b_insert_rebalance', 0, 'before'): LINK, ('call:b_insert_rebalance', 0, 'after'): 'proof { broadcast use ax_klt_asym; lem_ins(h0, h1, t, edge@, x, v, k, *h); assert(ine(h0, *h, this@, k, x, ev(h0.e@, data@))); }'}
INU = dict(INS); INU[('call:b_insert_rebalance', 0, 'after')] += ' proof { assert(inu(h0, *h, this@, k, x, ev(h0.e@, data@))); }'
for T in (RM, RS):
    LE = 'proof { lem_edge(*h, t, edge@); }'
    t(T, 'insert_equal', None, KEY, ['wf(*final(h), this@)', 'exists|k: int| ine(*old(h), *final(h), this@, k, ret@, ev(old(h).e@, data@))'],
      [dict(inv=['*h == h0', 't == this@', 'v == ev(h0.e@, data@)', 'eok(*h, t, edge@)', 'wf(*h, t)', 'parent@ == edge@.0', 'key@ == data@', 'forall|i: int| 0 <= i < ea(*h, t, edge@) ==> !klt(kval(v), #[trigger] ky(*h, t, i))', 'forall|i: int| eb(*h, t, edge@) <= i < len(*h, t) ==> klt(kval(v), #[trigger] ky(*h, t, i))'],
            dec='eb(*h, t, edge@) - ea(*h, t, edge@)', before='let ghost t = this@; let ghost v = ev(h.e@, data@);', pre=LE, top='let ghost n = get(*h, edge@);',
            bot='proof { lem_edge(*h, t, edge@); lem_desc(*h, t, n, kval(v)); }', after=LE)],
      at=INS)
    t(T, 'insert_unique', None, KEY + ['uq(*old(h), this@)'], ['wf(*final(h), this@)', 'uq(*final(h), this@)',
      'hask(*old(h), this@, %s) ==> !ret.1 && *final(h) == *old(h) && own(*old(h), ret.0@) == this@ && keq(kval(ev(old(h).e@, ret.0@)), %s)' % (KV('data'), KV('data')),
      '!hask(*old(h), this@, %s) ==> ret.1 && exists|k: int| inu(*old(h), *final(h), this@, k, ret.0@, ev(old(h).e@, data@))' % KV('data')],
      [dict(inv=['*h == h0', 't == this@', 'v == ev(h0.e@, data@)', 'eok(*h, t, edge@)', 'wf(*h, t)', 'uq(*h, t)', 'parent@ == edge@.0', 'key@ == data@', 'forall|i: int| 0 <= i < ea(*h, t, edge@) ==> klt(#[trigger] ky(*h, t, i), kval(v))', 'forall|i: int| eb(*h, t, edge@) <= i < len(*h, t) ==> klt(kval(v), #[trigger] ky(*h, t, i))'],
            dec='eb(*h, t, edge@) - ea(*h, t, edge@)', before='let ghost t = this@; let ghost v = ev(h.e@, data@);', pre=LE, top='let ghost n = get(*h, edge@); proof { broadcast use ax_keq, ax_klt_asym; lem_desc(*h, t, n, kval(v)); assert(keq(kval(v), kval(ev(h.e@, n))) == keq(kval(ev(h.e@, n)), kval(v))); assert(keq(ky(*h, t, idx(*h, n)), kval(v)) ==> hask(*h, t, kval(v))); }',
            bot='proof { broadcast use ax_keq; lem_edge(*h, t, edge@); lem_desc(*h, t, n, kval(v)); }', after=LE + ' proof { broadcast use ax_keq, ax_klt_asym; }')],
      at=INU, exit='proof { let w = ret.0@; if ret.1 { assert(exists|k: int| inu(h0, *h, this@, k, w, ev(h0.e@, data@))); } }')
KEYK = ['el(old(h).e@, key@)']
KK = KV('key')
for T in (RM, RS):
    for c in (True, False):
        sfx = '' if c else '_nc'
        RB = dict(entry='let ghost t = this@; let ghost kk = %s; let ghost mut a = 0int; let ghost mut b = len(*h, t);' % KV('key').replace('old(h)', 'h')) if c else {}
        def W(lt_a, ge_b, extra):
            return [dict(inv=['*h == h0', 't == this@', 'wf(*h, t)', 'kk == kval(ev(h.e@, key@))', 'el(h.e@, key@)', 'rng(*h, t, n@, a, b)', 'forall|i: int| 0 <= i < a ==> ' + lt_a, 'forall|i: int| b <= i < len(*h, t) ==> ' + ge_b] + extra,
                dec='b - a', before='proof { lem_root(*h, t); }', top='let ghost m = n@; proof { broadcast use ax_keq, ax_klt_asym; lem_kids(*h, t, m); lem_desc(*h, t, m, kk); assert(keq(kk, kval(ev(h.e@, m))) == keq(kval(ev(h.e@, m)), kk)); assert(keq(kk, kval(ev(h.e@, m))) == (!klt(kk, kval(ev(h.e@, m))) && !klt(kval(ev(h.e@, m)), kk))); }',
                bot='proof { if n@ == h.le@[m] && (n@ != 0 || %s) { b = idx(*h, m); } else { a = idx(*h, m) + 1; } }' % W.left)] if c else []
        W.left = 'klt(kk, kval(ev(h.e@, m)))'
        t(T, 'find', ['re:.*'], KEYK, ['ret@ == this@ ==> !hask(*old(h), this@, %s)' % KK, 'ret@ != this@ ==> ret@ != 0 && own(*old(h), ret@) == this@ && keq(kval(ev(old(h).e@, ret@)), %s)' % KK, SAME],
          W('klt(#[trigger] ky(*h, t, i), kk)', 'klt(kk, #[trigger] ky(*h, t, i))', []), label='find' + sfx, const=c, exit='proof { broadcast use ax_keq, ax_klt_asym; }', **RB)
        W.left = '!klt(kval(ev(h.e@, m)), kk)'
        t(T, 'lower_bound', ['re:.*'], KEYK, ['ispos(*old(h), this@, ret@)', 'lbp(*old(h), this@, %s, pos(*old(h), this@, ret@))' % KK, SAME],
          W('klt(#[trigger] ky(*h, t, i), kk)', '!klt(#[trigger] ky(*h, t, i), kk)', ['ispos(*h, t, prev@)', 'pos(*h, t, prev@) == b']), label='lower_bound' + sfx, const=c, **RB)
        W.left = 'klt(kk, kval(ev(h.e@, m)))'
        t(T, 'upper_bound', ['re:.*'], KEYK, ['ispos(*old(h), this@, ret@)', 'ubp(*old(h), this@, %s, pos(*old(h), this@, ret@))' % KK, SAME],
          W('!klt(kk, #[trigger] ky(*h, t, i))', 'klt(kk, #[trigger] ky(*h, t, i))', ['ispos(*h, t, prev@)', 'pos(*h, t, prev@) == b']), label='upper_bound' + sfx, const=c, **RB)
        t(T, 'equal_range', ['re:.*'], ['el(old(h).e@, k@)'], ['ispos(*old(h), this@, ret.0@)', 'lbp(*old(h), this@, %s, pos(*old(h), this@, ret.0@))' % KV('k'), 'ispos(*old(h), this@, ret.1@)', 'ubp(*old(h), this@, %s, pos(*old(h), this@, ret.1@))' % KV('k'), SAME], label='equal_range' + sfx, const=c)
# ---- removal by key
RMSET = """h.ns = Ghost(hx.ns@); h.own = Ghost(hx.own@); h.idx = Ghost(hx.idx@); h.lo = Ghost(hx.lo@); h.hi = Ghost(hx.hi@); h.bh = Ghost(hx.bh@); h.mr = Ghost(hx.mr@);
    proof { assert(h.pa@ =~= hx.pa@); assert(h.le@ =~= hx.le@); assert(h.ri@ =~= hx.ri@); assert(h.co@ =~= hx.co@); }"""
for T in (RM, RS):
    t(T, 'remove', None, KEYK,
      ['wf(*final(h), this@)', 'uq(*old(h), this@) ==> uq(*final(h), this@)', '(ret@ != 0) == hask(*old(h), this@, %s)' % KK, 'fr(*old(h), *final(h), this@)',
       'ret@ == 0 ==> frs(*old(h), *final(h), this@) && vals(*final(h), this@) == vals(*old(h), this@)',
       'ret@ != 0 ==> own(*old(h), ret@) == this@ && keq(nkey(*old(h), ret@), %s) && rmd(*old(h), *final(h), this@, idx(*old(h), ret@), ret@) && vals(*final(h), this@) == vals(*old(h), this@).remove(idx(*old(h), ret@))' % KK],
      [dict(inv=['t == this@', 'kk == kval(ev(h0.e@, key@))', 'el(h0.e@, key@)', 'h.e@ == h0.e@', 'wf(h0, t)', 'deleted@ == 0', '!dm', 'rmi(h0, *h, t, root@, pe, kk, j)', 'al(*h, root@.0)', '0 <= root@.1 <= 2', 'get(*h, root@) == 0 ==> pe.0 == parent@'],
            dec='eb(*h, t, root@) - ea(*h, t, root@)',
            before='let ghost t = this@; let ghost kk = kval(ev(h.e@, key@)); let ghost mut pe = root@; let ghost mut j = choose|i: int| 0 <= i < len(h0, t) && keq(#[trigger] ky(h0, t, i), kk); let ghost mut dm = false; let ghost mut hs = *h; let ghost mut z = 0int; let ghost mut o = 0int; proof { lem_rm_begin(*h, t, kk); reveal(rmi); }',
            top='let ghost hb = *h; let ghost y = get(hb, root@); let ghost pb = root@; proof { lem_rm_node(h0, hb, t, pb, pe, kk, j); }',
            bot="""let ghost lt = klt(kk, nkey(h0, y)); let ghost hd = dn(hb, pb, lt).0; h.mr = Ghost(hd.mr@);
              proof { broadcast use ax_keq, ax_klt_asym, ax_klt_neg; lem_rm_next(h0, hb, t, pb, pe, kk, j, lt); assert(root@ == dn(hb, pb, lt).1); assert(*h == hd); pe = pb; j = nj(h0, t, y, kk, j); reveal(rmi); reveal(frs); }""",
            brk="""let ghost hx = rmf(dm, hb, hs, t, pb, z, o); %s
              proof { broadcast use ax_keq; if !dm { lem_rm_leaf(h0, hb, t, pb, pe, kk, j); assert(deleted@ == y); } pe = if dm { (o, 2int) } else { pb }; reveal(rmu); }""" % RMSET),
       dict(inv=['t == this@', 'wf(h0, t)', 'pe.0 == parent@', 'rmu(h0, *h, t, pe, kk, deleted@)'],
            dec='len(*h, t) - (eb(*h, t, pe) - ea(*h, t, pe))', before='proof { reveal(rmu); reveal(rmi); }',
            top='let ghost hb = *h; let ghost p = parent@; let ghost pb = pe; proof { lem_rm_up0(h0, hb, t, pb, kk, deleted@); }',
            bot='proof { pe = root@; }',
            after='let ghost he = *h; proof { lem_rm_fin(h0, he, t, pe, kk, deleted@); }')],
      at={('call:b_move_left', 0, 'before'): 'proof { lem_rm_ml(h0, hb, t, pb, pe, kk, j); }',
          ('call:b_move_right', 0, 'before'): 'proof { lem_rm_mr(h0, hb, t, pb, pe, kk, j); }',
          ('call:b_delete_min', 0, 'before'): 'let ghost hd = dn(hb, pb, false).0; h.mr = Ghost(hd.mr@); proof { broadcast use ax_keq; z = get(*h, pb); lem_rm_dm(h0, hb, t, pb, pe, kk, j); assert(*h == hd); }',
          ('call:b_delete_min', 0, 'after'): 'proof { dm = true; hs = *h; o = $r@; lem_rm_sub(h0, hd, hs, t, pb, z, o); reveal(rmd); }',
          ('call:b_edge', 0, 'after'): 'proof { lem_rm_up(h0, *h, t, pe, $r@, kk, deleted@); }'},
      exit="""h.bh = Ghost(if he.pa@[t] != 0 { blacken(he, t).bh@ } else { he.bh@ }); proof { if he.pa@[t] != 0 { assert(h.co@ =~= blacken(he, t).co@); } }""",
      hide=['rmi', 'rmu', 'ws', 'wn', 'ab', 'lower', 'upw', 'dnw', 'wf', 'uq', 'fr', 'frs', 'rmd', 'mvl', 'mvr', 'spc', 'hask'])
for T in (RM, RS):
    f('postorder_destroy', None, ['n@ != 0 ==> own(*old(h), n@) != 0 && wsub(*old(h), own(*old(h), n@), lo(*old(h), n@), hi(*old(h), n@)) && inr(*old(h), own(*old(h), n@), lo(*old(h), n@), hi(*old(h), n@), n@)'],
      ['n@ == 0 ==> *final(h) == *old(h)', 'n@ != 0 ==> freed(*old(h), *final(h), own(*old(h), n@), lo(*old(h), n@), hi(*old(h), n@))'],
      label='postorder_destroy' + ('_m' if T == RM else '_s'), cls=T, decreases='hi(*old(h), n@) - lo(*old(h), n@)',
      entry="""let ghost t = own(*h, n@); let ghost n0 = n@; proof { if n0 != 0 { assert(wd(h0, t, n0)); let l = h0.le@[n0]; let r = h0.ri@[n0];
        if l != 0 { assert(wd(h0, t, l)); assert forall|m: int| inr(h0, t, lo(h0, l), hi(h0, l), m) implies #[trigger] wd(h0, t, m) by { assert(inr(h0, t, lo(h0, n0), hi(h0, n0), m)); } }
        if r != 0 { assert(wd(h0, t, r)); } } }""",
      at={('call:postorder_destroy' + ('_m' if T == RM else '_s'), 1, 'before'): """proof { let r = h0.ri@[n0]; assert forall|m: int| inr(*h, t, lo(*h, r), hi(*h, r), m) implies #[trigger] wd(*h, t, m) by { assert(inr(h0, t, lo(h0, n0), hi(h0, n0), m)); assert(wd(h0, t, m)); } }"""},
      exit="""proof { if n0 != 0 { assert forall|m: int| #![trigger h.e@[m]] #![trigger h.st@[m]] h.e@[m] == (if inr(h0, t, lo(h0, n0), hi(h0, n0), m) { Slot::No } else { h0.e@[m] }) && h.st@[m] == (if inr(h0, t, lo(h0, n0), hi(h0, n0), m) { 0 } else { h0.st@[m] }) by {
          if inr(h0, t, lo(h0, n0), hi(h0, n0), m) { assert(wd(h0, t, m)); } } } }""")
    t(T, 'clear', None, [], ['cleared(*old(h), *final(h), this@)'],
      entry='let ghost t = this@; let ghost rt = h.pa@[t]; proof { lem_root(*h, t); }',
      at={('call:postorder_destroy' + ('_m' if T == RM else '_s'), 0, 'before'): """proof { if rt != 0 { assert forall|m: int| inr(*h, t, lo(*h, rt), hi(*h, rt), m) implies #[trigger] wd(*h, t, m) by { assert(wn(h0, t, m));
            let l = h.le@[m]; let r = h.ri@[m]; if l != 0 { assert(wn(h0, t, l)); } if r != 0 { assert(wn(h0, t, r)); } } } }""",
          ('call:postorder_destroy' + ('_m' if T == RM else '_s'), 0, 'after'): """h.ns = Ghost(ns_none(h0, t)); h.own = Ghost(own_none(h0, t));
          proof { assert forall|m: int| own(h0, m) == t implies inr(h0, t, 0, len(h0, t), m) && m != t by { assert(wn(h0, t, m)); }
                  assert forall|m: int| #[trigger] fn1(h0, *h, t, m) by { } }"""})
for T in (RM, RS):
    s_ = '_m' if T == RM else '_s'
    f('preorder_copy', None, ['this@ != 0', 'al(*old(h), this@)', 'n@ != 0', 'own(*old(h), n@) != 0', 'own(*old(h), n@) != this@', 'ws(*old(h), own(*old(h), n@))', 'len(*old(h), this@) == len(*old(h), own(*old(h), n@))'],
      ['cpd(*old(h), *final(h), this@, own(*old(h), n@), lo(*old(h), n@), hi(*old(h), n@))', 'ret@ == ns(*final(h), this@)[idx(*old(h), n@)]'],
      label='preorder_copy' + s_, cls=T, decreases='hi(*old(h), n@) - lo(*old(h), n@)',
      entry='let ghost t = this@; let ghost u = own(*h, n@); let ghost s = n@; let ghost mut x = 0int; let ghost mut gx = *h; let ghost mut gl = *h; let ghost mut gm = *h; let ghost mut gr = *h; let ghost l = h.le@[s]; let ghost r = h.ri@[s]; let ghost i = idx(*h, s); let ghost p = lo(*h, s); let ghost q = hi(*h, s); proof { lem_kids(*h, u, s); }',
      at={('new', 0, 'after'): 'proof { x = $r@; } proof { gx = cpst(h0, t, s, x); } h.ns = Ghost(gx.ns@); h.own = Ghost(gx.own@); h.idx = Ghost(gx.idx@); h.lo = Ghost(gx.lo@); h.hi = Ghost(gx.hi@); h.bh = Ghost(gx.bh@);',
        ('call:preorder_copy' + s_, 0, 'before'): 'proof { assert(wn(h0, u, s)); assert(x != s); assert(h0.e@[s] == Slot::Live(ev(h0.e@, s))); assert(h.e@ =~= gx.e@); assert(h.co@ =~= gx.co@); assert(h.st@ =~= gx.st@); lem_cp_new(h0, gx, t, u, s, x); assert(cpf(h0, gx, t, i, i + 1, l)); }',
        ('call:preorder_copy' + s_, 0, 'after'): 'proof { gl = *h; lem_cp_join(h0, gx, gl, t, u, s, x, i, i + 1, p, i); assert(cpn(gx, gl, t, u, idx(h0, l))); assert(cpf(h0, gl, t, p, i + 1, s)); }',
        ('call:preorder_copy' + s_, 1, 'before'): """proof { gm = *h; if l == 0 { assert(wn(h0, u, s)); assert(x != s); assert(h0.e@[s] == Slot::Live(ev(h0.e@, s))); assert(h.e@ =~= gx.e@); assert(h.co@ =~= gx.co@); assert(h.st@ =~= gx.st@); lem_cp_new(h0, gx, t, u, s, x); lem_cp_mod(h0, gx, gm, t, u, s, x, i, i + 1, 0); }
            else { lem_cp_mod(h0, gl, gm, t, u, s, x, p, i + 1, l); } lem_cp_ws(h0, gm, t, u, s, x, p, i + 1); assert(cpf(h0, gm, t, p, i + 1, r)); assert(cpf(h0, gm, t, p, i + 1, t)); assert(cpf(h0, gm, t, p, i + 1, s)); assert(cpl(h0, gm, t, u, i)); }""",
        ('call:preorder_copy' + s_, 1, 'after'): 'proof { gr = *h; lem_cp_join(h0, gm, gr, t, u, s, x, p, i + 1, i + 1, q); assert(cpn(gm, gr, t, u, idx(h0, r))); assert(cpf(h0, gm, t, p, i + 1, s)); assert(cpf(h0, gr, t, p, q, s)); assert(n1(gm, gr, x)); if l != 0 { assert(n1(gm, gr, gm.le@[x])); } }'},
      exit="""proof { if r == 0 { if l == 0 { assert(wn(h0, u, s)); assert(x != s); assert(h0.e@[s] == Slot::Live(ev(h0.e@, s))); assert(h.e@ =~= gx.e@); assert(h.co@ =~= gx.co@); assert(h.st@ =~= gx.st@); lem_cp_new(h0, gx, t, u, s, x); lem_cp_mod(h0, gx, *h, t, u, s, x, i, i + 1, 0); } else { lem_cp_mod(h0, gl, *h, t, u, s, x, p, i + 1, l); } }
          else { lem_cp_mod(h0, gr, *h, t, u, s, x, p, q, r); }
          assert(cpn(h0, *h, t, u, i)); assert(cpm(h0, *h, t, u, s, x, p, q)); }""")
    t(T, 'assign', None, ['other@ != this@', 'wf(*old(h), other@)'],
      ['wf(*final(h), this@)', 'wf(*final(h), other@)', 'vals(*final(h), this@) == vals(*old(h), other@)', 'uq(*old(h), other@) ==> uq(*final(h), this@) && uq(*final(h), other@)', 'vals(*final(h), other@) == vals(*old(h), other@)', 'fr(*old(h), *final(h), this@)', 'nolk(*old(h), *final(h), this@)'],
      entry='let ghost t = this@; let ghost u = other@; let ghost mut ha = *h; let ghost mut hb = *h; let ghost mut hc = *h; proof { lem_root(*h, t); lem_root(*h, u); }',
      at={('call:clear' + s_, 0, 'after'): 'proof { lem_fr(h0, *h, t, u); lem_root(*h, t); lem_root(*h, u); }',
          ('call:preorder_copy' + s_, 0, 'before'): """proof { ha = *h; if len(h0, t) == 0 { assert forall|m: int| #[trigger] own(*h, m) != t by { if own(*h, m) == t { assert(wn(*h, t, m)); } } } assert(whd(*h, t)); lem_kids(*h, u, h.pa@[u]); }
             h.ns = Ghost(ns_len(*h, t, len(*h, u))); proof { hb = *h; assert(ns(hb, u) == ns(ha, u)); assert forall|m: int| al(ha, m) implies #[trigger] n1(ha, hb, m) by { } lem_ws_cp(ha, hb, t, u); lem_same(ha, hb, u); }""",
          ('call:preorder_copy' + s_, 0, 'after'): 'proof { hc = *h; lem_root(hb, u); assert forall|m: int| #[trigger] own(hb, m) != t by { assert(own(ha, m) != t); } assert(whd(hb, t)); assert(len(hb, t) == len(hb, u)); assert(cpd(hb, hc, t, u, 0, len(hb, u))); lem_asg(hb, hc, t, u); assert(cpf(hb, hc, t, 0, len(hb, u), t)); assert(cpn(hb, hc, t, u, idx(hb, hb.pa@[u]))); }'},
      exit="""proof { if h0.pa@[u] != 0 { assert(h.pa@ =~= rooted(hc, t, ns(hc, t)[idx(hb, hb.pa@[u])]).pa@); 
          assert forall|m: int| #[trigger] fn1(h0, *h, t, m) by { assert(fn1(hb, *h, t, m)); assert(fn1(h0, ha, t, m)); }
          assert forall|m: int| #[trigger] nolk1(h0, *h, t, m) by { assert(nolk1(hb, *h, t, m)); assert(fn1(h0, ha, t, m)); }
          assert forall|w: int| w != t implies #[trigger] ns(*h, w) == ns(h0, w) by { assert(ns(*h, w) == ns(hb, w)); assert(ns(hb, w) == ns(ha, w)); assert(ns(ha, w) == ns(h0, w)); }
          lem_fr(h0, *h, t, u); }
        else { assert(vals(*h, t) =~= vals(h0, u)); } }""")
NEW = ['newt(*old(h), this@)']
BORN = 'h.st = Ghost(h.st@.insert(this@, 2)); h.ns = Ghost(ns_none(h0, this@)); '
GONE = 'let ghost hc = *h; h.st = Ghost(h.st@.insert(this@, 0)); proof { let t = this@; assert forall|m: int| #[trigger] own(*h, m) != t by { assert(own(hc, m) != t); } assert forall|m: int| #[trigger] fn1(h0, *h, t, m) by { assert(fn1(h0, hc, t, m)); } assert forall|u: int| u != t implies #[trigger] ns(*h, u) == ns(h0, u) by { assert(ns(hc, u) == ns(h0, u)); } }'
f('ctor', None, ['al(*old(h), this@)'], ['final(h).pa@ == old(h).pa@.insert(this@, 0)', 'final(h).le@ == old(h).le@.insert(this@, 0)', 'final(h).ri@ == old(h).ri@.insert(this@, 0)', 'final(h).co@ == old(h).co@.insert(this@, true)',
   '*final(h) == (H { pa: final(h).pa, le: final(h).le, ri: final(h).ri, co: final(h).co, ..*old(h) })'])
f('dtor', None, [], [SAME])
MADE = ['wf(*final(h), this@)', 'len(*final(h), this@) == 0', 'vals(*final(h), this@) == Seq::<Val>::empty()', 'fr(*old(h), *final(h), this@)', 'final(h).st@ == old(h).st@.insert(this@, 2)', 'final(h).e == old(h).e', 'final(h).own == old(h).own']
for T in (RM, RS):
    s_ = '_m' if T == RM else '_s'
    f('ctor', [], NEW, MADE, cls=T, label='ctor' + s_, entry=BORN, exit='proof { assert forall|m: int| own(*h, m) != this@ by { assert(own(h0, m) != this@); } assert(vals(*h, this@) =~= Seq::<Val>::empty()); }')
    t(T, 'dtor', None, [], ['gonet(*old(h), *final(h), this@)'], exit=GONE)
    t(T, 'count', None, KEYK, ['forall|i: int, j: int| lbp(*old(h), this@, %s, i) && ubp(*old(h), this@, %s, j) ==> ret == wrap64(j - i)' % (KK, KK), SAME],
      [dict(inv=['*h == h0', 't == this@', 'wf(*h, t)', 'ispos(*h, t, n@)', 'ispos(*h, t, e@)', '0 <= i0 <= pos(*h, t, n@) <= pos(*h, t, e@) <= len(*h, t)', 'c == wrap64(pos(*h, t, n@) - i0)', 'lbp(*h, t, kk, i0)', 'ubp(*h, t, kk, pos(*h, t, e@))', 'n@ != t ==> wn(*h, t, n@)', 'e@ != t ==> wn(*h, t, e@)', 'kk == kval(ev(h.e@, key@))'],
            dec='len(*h, t) - pos(*h, t, n@)', before='let ghost t = this@; let ghost kk = kval(ev(h.e@, key@)); let ghost i0 = pos(*h, t, n@); proof { if n@ != t { assert(wn(*h, t, n@)); } if e@ != t { assert(wn(*h, t, e@)); } lem_bounds(*h, t, kk, i0, pos(*h, t, e@)); }',
            bot='proof { if n@ != t { assert(own(*h, n@) == t); assert(wn(*h, t, n@)); } }',
            after='proof { assert forall|i: int, j: int| lbp(h0, this@, kk, i) && ubp(h0, this@, kk, j) implies c == wrap64(j - i) by { lem_lbp(h0, t, kk, i, i0); lem_ubp(h0, t, kk, j, pos(h0, t, e@)); } }')])
# ---- maps and sets
def q(T, name, ps, req, ens, loops=(), label=None, props='C10 C11 C12 C13', cls=None, **k):
    f(name, ps, ['wf(*old(h), this@)', 'uq(*old(h), this@)'] + req, ens, loops, label=('m_' if T == MAP else 's_') + (label or name), cls=T, props=props, **k)
HAS = 'hask(*old(h), this@, %s)'
INUN = 'exists|k: int| inu(*old(h), *final(h), this@, k, ret.0@, ev(old(h).e@, value@))'
SRC = ['first@ <= last@', 'forall|i: int| first@ <= i < last@ ==> el(old(h).e@, i)']
RIN = 'let ghost t = this@; let ghost sq = src(*h, first@, last@); let ghost mut ha = *h; let ghost mut hb = *h; let ghost mut hc = *h; let ghost mut v = ev(h.e@, first@); let ghost mut w = 0int; let ghost mut fo = false;'
def rng(m):
    return dict(before='proof { lem_gr0(h0, h0, t); assert(sq.take(0).len() == 0); }', inv=['wf(*h, t)', 'uq(*h, t)', 'grown(h0, *h, t)', 'first_in@ <= first@ <= last@', 'last@ == last_in@', 'vals(*h, t) == insall(vals(h0, t), sq.take(first@ - first_in@))', 'sq.len() == last@ - first_in@'], dec='last@ - first@',
        top='proof { hb = *h; assert(el(h0.e@, first@)); assert(gr1(h0, hb, t, first@)); assert(sq[first@ - first_in@] == ev(hb.e@, first@)); }',
        bot='proof { let j = first@ - first_in@; assert(v == sq[j - 1]); assert(sq.take(j).drop_last() =~= sq.take(j - 1)); assert(sq.take(j).last() == v); lem_hasv(hb, t, kval(v)); '
          + ('if fo { let k = choose|k: int| inu(ha, hc, t, k, w, v); assert(inu(ha, hc, t, k, w, v)); assert forall|m: int| #[trigger] h.e@[m] == (if m == w { Slot::Live(v) } else { hb.e@[m] }) by { assert(hc.e@[m] == (if m == w { Slot::Live(v) } else { ha.e@[m] })); } lem_unt(hb, ha, hc, *h, t, k, w, v); lem_gr1(hb, *h, t, k, w, v); } else { lem_gr0(hb, *h, t); } '
             if m else 'if fo { let k = choose|k: int| inu(hb, *h, t, k, w, v); assert(inu(hb, *h, t, k, w, v)); lem_gr1(hb, *h, t, k, w, v); } else { lem_gr0(hb, *h, t); } ')
          + 'lem_gr_trans(h0, hb, *h, t); }', after='proof { assert(sq.take(sq.len() as int) =~= sq); }')
COPIED = ['wf(*final(h), this@)', 'uq(*final(h), this@)', 'wf(*final(h), other@)', 'uq(*final(h), other@)', 'vals(*final(h), this@) == vals(*old(h), other@)', 'vals(*final(h), other@) == vals(*old(h), other@)', 'fr(*old(h), *final(h), this@)']
CPX = 'proof { assert forall|m: int| #[trigger] own(hb, m) != this@ by { assert(own(h0, m) != this@); } lem_fr_trans(h0, hb, *h, this@); }'
RANGE = {MAP: rng(True), SET: rng(False)}
for T, R_ in ((MAP, RM), (SET, RS)):
    s_, p_ = ('_m', 'm_') if T == MAP else ('_s', 's_')
    IT, CI = T + '::iterator', T + '::const_iterator'
    for c in (True, False):
        z = '_c' if c else ''
        q(T, 'begin', [], [], ['ret@ == at(*old(h), this@, 0)', SAME], label='begin' + z, const=c, entry='proof { lem_root(*h, this@); }')
        q(T, 'end', [], [], ['ret@ == this@', SAME], label='end' + z, const=c)
        q(T, 'find', None, KEYK, ['ret@ == this@ ==> !' + HAS % KK, 'ret@ != this@ ==> ret@ != 0 && own(*old(h), ret@) == this@ && keq(kval(ev(old(h).e@, ret@)), %s)' % KK, SAME], label='find' + z, const=c)
        q(T, 'lower_bound', None, KEYK, ['ispos(*old(h), this@, ret@)', 'lbp(*old(h), this@, %s, pos(*old(h), this@, ret@))' % KK, SAME], label='lower_bound' + z, const=c)
        q(T, 'upper_bound', None, KEYK, ['ispos(*old(h), this@, ret@)', 'ubp(*old(h), this@, %s, pos(*old(h), this@, ret@))' % KK, SAME], label='upper_bound' + z, const=c)
        q(T, 'equal_range', None, KEYK, ['ispos(*old(h), this@, ret.0@)', 'lbp(*old(h), this@, %s, pos(*old(h), this@, ret.0@))' % KK, 'ispos(*old(h), this@, ret.1@)', 'ubp(*old(h), this@, %s, pos(*old(h), this@, ret.1@))' % KK, SAME], label='equal_range' + z, const=c)
        if T == MAP:
            q(T, 'at', None, KEYK + [HAS % KK], ['isref(*old(h), this@, ret@, %s)' % KK, SAME], label='at' + z, const=c,
              at={('call:find' + ('' if c else '_nc') + '_m', 0, 'after'): 'proof { let w = $r@; assert(wn(*h, this@, w)); assert(ns(*h, this@)[idx(*h, w)] == w); assert(isref(*h, this@, sec_of(w), kval(ev(h.e@, key@)))); }'})
    if T == MAP:
        q(T, 'operator[]', None, KEYK, ['wf(*final(h), this@)', 'uq(*final(h), this@)', '%s ==> *final(h) == *old(h) && isref(*old(h), this@, ret@, %s)' % (HAS % KK, KK),
          '!%s ==> exists|k: int, x: int, v: Val| idxd(*old(h), *final(h), this@, %s, ret@, k, x, v)' % (HAS % KK, KK)], label='index',
          entry='let ghost kk = kval(ev(h.e@, key@)); let ghost mut ha = *h; let ghost mut hb = *h; let ghost mut mk = false; let ghost mut v = ev(h.e@, key@); let ghost mut w = 0int;',
          at={('call:insert_unique_m', 0, 'before'): 'proof { ha = *h; mk = true; v = ev(h.e@, etmp@); assert(tmpe(h0, ha)); lem_tmp(h0, ha, this@); assert(!hask(h0, this@, kk)); }',
              ('call:insert_unique_m', 0, 'after'): 'proof { hb = *h; w = $r.0@; }',
              ('call:find_nc_m', 0, 'after'): 'proof { let w = $r@; if w != this@ { assert(wn(*h, this@, w)); assert(ns(*h, this@)[idx(*h, w)] == w); assert(isref(*h, this@, sec_of(w), kk)); } }'},
          exit='''proof { if mk { let k = choose|k: int| inu(ha, hb, this@, k, w, v); assert(inu(ha, hb, this@, k, w, v));
              assert forall|m: int| #[trigger] h.e@[m] == (if m == w { Slot::Live(v) } else { h0.e@[m] }) by { assert(hb.e@[m] == (if m == w { Slot::Live(v) } else { ha.e@[m] })); }
              lem_unt(h0, ha, hb, *h, this@, k, w, v); assert(idxd(h0, *h, this@, kk, sec_of(w), k, w, v)); } }''')
    q(T, 'insert', ['re:.*\\*', 're:.*\\*'], SRC, ['wf(*final(h), this@)', 'uq(*final(h), this@)', 'grown(*old(h), *final(h), this@)', 'vals(*final(h), this@) == insall(vals(*old(h), this@), src(*old(h), first@, last@))'],
      [RANGE[T]], label='insert_range', entry=RIN, at={('call:insert_unique' + s_, 0, 'before'): 'proof { ha = *h; v = ev(h.e@, %s); %s }' % (('etmp@', 'assert(tmpe(hb, ha)); lem_tmp(hb, ha, t); ax_pair(v, ev(hb.e@, first@));') if T == MAP else ('first@', '')),
        ('call:insert_unique' + s_, 0, 'after'): 'proof { hc = *h; w = $r.0@; fo = $r.1; }'})
    q(T, 'cbegin', [], [], ['ret@ == at(*old(h), this@, 0)', SAME], entry='proof { lem_root(*h, this@); }')
    q(T, 'cend', [], [], ['ret@ == this@', SAME])
    q(T, 'empty', [], [], ['ret == (len(*old(h), this@) == 0)', SAME])
    q(T, 'max_size', [], [], ['ret == u64::MAX as int / node_sz()', SAME])
    q(T, 'count', None, KEYK, ['ret == (if %s { 1int } else { 0int })' % (HAS % KK), SAME], at={('call:find' + s_, 0, 'after'): 'proof { let w = $r@; if w != this@ { assert(wn(*h, this@, w)); assert(keq(ky(*h, this@, idx(*h, w)), kval(ev(h.e@, key@)))); } }'})
    f('ctor', [], NEW, MADE + ['uq(*final(h), this@)'], cls=T, label=p_ + 'ctor', props='C10 C11 C12 C13')
    f(p_ + 'destroy', None, ['wf(*old(h), m@)'], ['gonet(*old(h), *final(h), m@)'], cls='ttl', label=p_ + 'dtor', props='C10 C11 C12 C13')
    f('ctor', ['re:const(ttl::)?%s(<.*>)?&' % T[5:8]], NEW + ['wf(*old(h), other@)', 'uq(*old(h), other@)', 'other@ != this@'], COPIED + ['final(h).st@[this@] == 2'], cls=T, label=p_ + 'ctor_copy', props='C10 C11 C12 C13 C23',
      at={('call:assign' + s_, 0, 'before'): 'proof { lem_fr(h0, *h, this@, other@); hb = *h; }'}, entry='let ghost mut hb = *h;', exit=CPX)
    f('ctor', ['re:.*\\*', 're:.*\\*'], NEW + SRC, ['wf(*final(h), this@)', 'uq(*final(h), this@)', 'fr(*old(h), *final(h), this@)', 'vals(*final(h), this@) == insall(Seq::<Val>::empty(), src(*old(h), first@, last@))', 'final(h).st@[this@] == 2'], cls=T, label=p_ + 'ctor_range', props='C10 C11 C12 C13',
      at={('call:%sinsert_range' % p_, 0, 'before'): 'proof { hb = *h; }'}, entry='let ghost mut hb = *h;', exit='proof { assert(src(hb, first@, last@) =~= src(h0, first@, last@)); lem_fr_trans2(h0, hb, *h, this@); }')
    q(T, 'operator=', None, ['wf(*old(h), other@)', 'uq(*old(h), other@)'], ['ret@ == this@', 'this@ == other@ ==> *final(h) == *old(h)'] + COPIED, label='assign', props='C10 C11 C12 C13 C23', entry='let ghost mut hb = *h;',
      at={('call:' + p_ + 'clear', 0, 'after'): 'proof { lem_fr(h0, *h, this@, other@); hb = *h; assert forall|m: int| #[trigger] own(*h, m) != this@ by { if own(*h, m) == this@ { assert(wn(*h, this@, m)); } } }'},
      exit='proof { if this@ != other@ { lem_fr_trans(h0, hb, *h, this@); } else { assert forall|m: int| #[trigger] fn1(h0, *h, this@, m) by { } } }')
    for o, n in (('operator==', 'eq'), ('operator!=', 'ne')):
        f(o, ['re:const%s&' % T[5:].replace(' ', '')] * 2, ['wf(*old(h), a@)', 'uq(*old(h), a@)', 'wf(*old(h), b@)', 'uq(*old(h), b@)'], ['ret == %s(vals(*old(h), a@), vals(*old(h), b@))' % (('' if n == 'eq' else '!') + p_ + 'same'), SAME], exit='proof {  }', entry='proof { lem_root(*h, a@); lem_root(*h, b@); lem_at0(*h, a@); lem_at0(*h, b@); }', cls='ttl', label=p_ + n, props='C10 C23')
    M1 = p_ + 'same1'
    f('equal', ['re:.*%s<.*::const_iterator' % T[5:8]] * 4, [w for z in '12' for w in ('itok(*old(h), last%s_0@)' % z, 'uq(*old(h), tof(*old(h), last%s_0@))' % z, 'ispos(*old(h), tof(*old(h), last%s_0@), last%s_0@)' % (z, z), 'ispos(*old(h), tof(*old(h), last%s_0@), first%s_0@)' % (z, z), 'pos(*old(h), tof(*old(h), last%s_0@), first%s_0@) <= pos(*old(h), tof(*old(h), last%s_0@), last%s_0@)' % (z, z, z, z))],
      ['ret == %ssame(part(*old(h), first1_0@, last1_0@), part(*old(h), first2_0@, last2_0@))' % p_, SAME],
      [dict(inv=['*h == h0', 't1 == tof(h0, last1_0@)', 't2 == tof(h0, last2_0@)', 'last1_0@ == last1_0_in@', 'last2_0@ == last2_0_in@', 'ispos(h0, t1, first1_0@)', 'ispos(h0, t2, first2_0@)', 'wf(h0, t1)', 'wf(h0, t2)',
          'a0 <= pos(h0, t1, first1_0@) <= pos(h0, t1, last1_0@)', 'b0 <= pos(h0, t2, first2_0@) <= pos(h0, t2, last2_0@)', 'pos(h0, t1, first1_0@) - a0 == pos(h0, t2, first2_0@) - b0', 'sa == part(h0, first1_0_in@, last1_0@)', 'sb == part(h0, first2_0_in@, last2_0@)', 'a0 == pos(h0, t1, first1_0_in@)', 'b0 == pos(h0, t2, first2_0_in@)',
          'forall|i: int| 0 <= i < pos(h0, t1, first1_0@) - a0 ==> %s(#[trigger] sa[i], sb[i])' % M1],
        dec='pos(h0, t1, last1_0@) - pos(h0, t1, first1_0@)',
        top='proof { if first1_0@ != last1_0@ && first2_0@ != last2_0@ { let i = pos(h0, t1, first1_0@) - a0; lem_before(h0, t1, first1_0@, last1_0@); lem_before(h0, t2, first2_0@, last2_0@); assert(sa[i] == ev(h0.e@, first1_0@)); assert(sb[i] == ev(h0.e@, first2_0@)); } }')],
      entry='let ghost t1 = tof(*h, last1_0@); let ghost t2 = tof(*h, last2_0@); let ghost a0 = pos(*h, t1, first1_0@); let ghost b0 = pos(*h, t2, first2_0@); let ghost sa = part(*h, first1_0@, last1_0@); let ghost sb = part(*h, first2_0@, last2_0@); proof { lem_root(*h, t1); lem_root(*h, t2); lem_posb(*h, t1, first1_0@); lem_posb(*h, t2, first2_0@); lem_posb(*h, t1, last1_0@); lem_posb(*h, t2, last2_0@); }', exit='proof { if first1_0@ != last1_0@ { lem_before(h0, t1, first1_0@, last1_0@); } if first2_0@ != last2_0@ { lem_before(h0, t2, first2_0@, last2_0@); } if !ret { let i = pos(h0, t1, first1_0@) - a0; if i < sa.len() && i < sb.len() { assert(!%ssame1(sa[i], sb[i])); } } }' % p_, cls='ttl', label=p_ + 'equal', props='C10 C23')
    q(T, 'erase', ['re:.*'], KEYK, ['wf(*final(h), this@)', 'uq(*final(h), this@)', '%s ==> ret == 1 && exists|k: int| #[trigger] era(*old(h), *final(h), this@, k) && keq(ky(*old(h), this@, k), %s)' % (HAS % KK, KK),
      '!%s ==> ret == 0 && vals(*final(h), this@) == vals(*old(h), this@) && frs(*old(h), *final(h), this@)' % (HAS % KK)],
      entry='let ghost mut hb = *h;', at={('call:remove' + s_, 0, 'after'): 'proof { hb = *h; let w = $r@; if w != 0 { assert(wn(h0, this@, w)); } }'},
      exit='proof { if n@ != 0 { let k = idx(h0, n@); lem_era(h0, hb, *h, this@, n@); assert(wn(h0, this@, n@)); assert(ns(h0, this@)[k] == n@); assert(era(h0, *h, this@, k) && keq(ky(h0, this@, k), %s)); } }' % KK.replace('*old(h)', 'h0').replace('old(h)', 'h0'))
    q(T, 'clear', [], [], ['cleared(*old(h), *final(h), this@)', 'uq(*final(h), this@)'])
    q(T, 'insert', ['re:.*value_type.*|const ttl::pair<const K, E> &|const K &'], ['el(old(h).e@, value@)'], ['wf(*final(h), this@)', 'uq(*final(h), this@)',
      '%s ==> !ret.1 && *final(h) == *old(h) && own(*old(h), ret.0@) == this@ && keq(kval(ev(old(h).e@, ret.0@)), %s)' % (HAS % KV('value'), KV('value')),
      '!%s ==> ret.1 && %s' % (HAS % KV('value'), INUN)], exit='proof { let w = ret.0@; if ret.1 { assert(exists|k: int| inu(h0, *h, this@, k, w, ev(h0.e@, value@))); } }')
    f('prev', None, ['itok(*old(h), n@)'], ['ret@ == at(*old(h), tof(*old(h), n@), pos(*old(h), tof(*old(h), n@), n@) - 1)', SAME], cls=IT, label=p_ + 'prev', props='C10 C12',
      entry='let ghost t = tof(*h, n@); proof { lem_root(*h, t); if n@ != t { lem_kids(*h, t, n@); if h.pa@[n@] != t { lem_kids(*h, t, h.pa@[n@]); } } }')
    POS = 'tof(*old(h), i_0@), pos(*old(h), tof(*old(h), i_0@), i_0@)'
    def it(name, req, ens, **k):
        f(name, None, req, ens + [SAME], cls='ttl', label=name, props='C10 C12', **k)
    for w in ('it_', 'ci_'):
        w = p_ + w
        NOTEND, ITOK = 'i_0@ != tof(*old(h), i_0@)', 'itok(*old(h), i_0@)'
        IX = dict(exit='proof { let t = tof(*h, i_0_in@); lem_root(*h, t); assert(wn(*h, t, i_0_in@)); }')
        it(w + 'inc', [ITOK, NOTEND], ['ret@ == at(*old(h), %s + 1)' % POS], **IX)
        it(w + 'dec', [ITOK], ['ret@ == at(*old(h), %s - 1)' % POS])
        it(w + 'pinc', [ITOK, NOTEND], ['ret@ == i_0@'])
        it(w + 'pdec', [ITOK], ['ret@ == i_0@'])
        it(w + 'pinc2', [ITOK, NOTEND], ['ret@ == at(*old(h), %s + 1)' % POS], **IX)
        it(w + 'pdec2', [ITOK], ['ret@ == at(*old(h), %s - 1)' % POS])
        it(w + 'get', [ITOK, NOTEND], ['ret@ == i_0@'])
        it(w + 'arrow', [ITOK, NOTEND], ['ret@ == i_0@'])
        for o, y in (('eq', '=='), ('ne', '!=')) + ((('eqc', '=='), ('nec', '!=')) if 'it_' in w else (('eqm', '=='), ('nem', '!='))):
            it(w + o, [], ['ret == (i_0@ %s j_0@)' % y])
    it(p_ + 'ci_conv', [], ['ret@ == i_0@'])
FNS.append(Fn('m_vcmp', 'ttl::m_vcmp', None, 'C12', ['el(old(h).e@, a@)', 'el(old(h).e@, b@)'], ['ret == klt(kval(ev(old(h).e@, a@)), kval(ev(old(h).e@, b@)))', SAME]))
