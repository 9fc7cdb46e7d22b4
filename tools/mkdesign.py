#!/usr/bin/env python3
"""Writes DESIGN.md from tools/DESIGN.tmpl.md, the lock files, lib/config.py, seeded/*/meta.json and tools/catches.json."""
import json, os, sys, glob
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE); sys.dont_write_bytecode = True
from lib.config import PROPS
import importlib
HOW = {
 'C01': 'Every member of vector (all constructors, assign, five inserts, erase, resize, reserve, swap, ==) has a postcondition over `sv(h,this)`, the Seq of element values. `insert_values` is proved once per value source (copy of one value n times, range, default), with the reference-to-own-element case.',
 'C02': 'The same contracts: slot states (Raw/Live) in every invariant, `wfv` says exactly [elements,last) is live and [last,end) raw, destructor ensures nothing is left.',
 'C03': 'As C01 with `Seq.take(N)`; N is a symbolic constant (the template argument is replaced by an arbitrary number), so all N at once.',
 'C04': 'Slot states as in C02 for the embedded array.',
 'C05': 'list members over the ghost sequence of nodes `ns(h,l)` and both links; remove/unique/merge/splice over filter/merge specifications of node sequences. erase(range) is under contract for C06 only (known finding).',
 'C06': 'The same contracts speak about node *addresses*, so identity is explicit; node states (allocated by, owned by, freed) decide free-once.',
 'C07': 'forward_list, the same technique with singly linked node sequences.', 'C08': 'backward_list: plus the invariant that `tail_` is the last node (or the head itself).',
 'C09': 'lazy_queue: plus a second node sequence for the pool, whose nodes hold raw storage.',
 'C10': 'map<K,E,C> and set<K> over the Seq of entries `vals(h,t)` in order; insertion, operator[], range insertion, erase(key), copies and comparison against that sequence; the abstract key order is a strict weak order.',
 'C11': 'The tree invariant `wf`: every node knows the range [lo,hi) of positions below it (ghost), which makes search order, both links and subtree disjointness local facts of each node; `bh` (ghost black height) and the left-leaning colour rule. Rotations, colour flips, fixup and the rebalancing loop are proved against exact functional specifications. Removal: a marker (ghost `mr`) for each node above the hole keeps what the way down has relaxed, so that the invariant of the way down (dnw), of the subtree without its minimum and of the way up (upw) are local facts as well.',
 'C12': 'find/lower_bound/upper_bound/equal_range by their defining positions; iterators by position in the node sequence, in both directions and from the end.',
 'C13': 'Frame predicates: nodes outside the changed tree and entries already there keep address and value; destructor/clear free each node once and exactly those; erase(key) frees the node of that entry alone, no entry is copied or moved by the removal (rmd/era: every other node keeps its entry and its address).',
 'C24': 'rbtree::insert_equal puts the new node behind all equal ones; bounds and count over repeated keys; remove takes away exactly one entry with the key.',
 'C14': 'All members over the node sequence of the pointer array: sorted by the abstract comparison `cp` (strict weak order), `bsearch` proved by its partition invariant, insertion keeps all old nodes (address and content).',
 'C15': 'vector_map members over the Seq of entries of the vector below.',
 'C16': 'Every operation and the bit reference over the N bits `bit(h,this,i)`, N symbolic; 64-bit word facts by bit_vector proofs, word loops by invariants.',
 'C17': 'wf: unused bits are zero, kept by every operation; constructors from numbers, strings (char data abstract) and other sizes (a second symbolic size).',
 'C18': 'One function contract per algorithm over pointers to E; loop invariants; result = first position satisfying ...; frame: heap unchanged.',
 'C19': 'As C18, with the destination range described pointwise, everything else unchanged; the overlapping cases are part of the preconditions where defined.',
 'C20': 'Partition-point postconditions, from sortedness with respect to an abstract strict weak order.',
 'C21': 'merge by a ghost merge specification (stable), min/max/sortedness by definition.',
 'C22': 'pair, array (N symbolic), swap, iota, accumulate (a fold over an abstract +), countof.',
 'C23': 'Copy construction, assignment and comparison functions of all containers; self-assignment is a case of the same contract.',
}
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
seeds = {}
for f in sorted(glob.glob(os.path.join(HERE, 'seeded/*/meta.json'))):
    seeds[os.path.basename(os.path.dirname(f))] = json.load(open(f))
cj = os.path.join(HERE, 'tools/catches.json')
catches = json.load(open(cj)) if os.path.exists(cj) else {}
out = []
for p in props:
    i = p['id']
    if i not in PROPS:
        out.append('**%s %s** — not applicable: type traits are template metaprograms evaluated by the compiler; there is no run-time function to put under contract and no quantification over types in the verifier.\n' % (i, p['title'])); continue
    fams, hs = PROPS[i]
    n = post = 0
    for f in fams:
        m = importlib.import_module('contracts.' + f)
        fns = [x for x in m.FNS if i in x.props]
        n += len(fns); post += sum(len([1 for e, t in x.ensures if t is None or i in t]) for x in fns)
    if fams: how = '%d functions under contract, %d postcondition clauses (families: %s). ' % (n, post, ', '.join(fams))
    else: how = '*Bounded only* (level exploration): no contracts are discharged. '
    out.append('**%s %s** — %s%s Failing inputs: bounded/%s.cpp.\n' % (i, p['title'], how, HOW.get(i, ''), ', '.join(hs)))
t = open(os.path.join(HERE, 'tools/DESIGN.tmpl.md')).read()
rows = ['| change | property | caught by the check of that property | how |', '|---|---|---|---|']
for s, m in seeds.items():
    c = catches.get(s)
    rows.append('| %s | %s | %s | %s |' % (s, m['property'], {None: 'not run', '': 'no'}.get(c, 'yes'), c or ''))
open(os.path.join(HERE, 'DESIGN.md'), 'w').write(t.replace('@@PROPS@@', '\n'.join(out)).replace('@@SEEDS@@', '\n'.join(rows)))
