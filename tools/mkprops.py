#!/usr/bin/env python3
# Writes properties.jsonl (kept as a script so that the texts are easy to edit).
import json,os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],
        observe_at=observe or ["public members of the named templates"],hook_needed=None)))
V="ttl/vector.hpp";FV="ttl/fixed_vector.hpp";L="ttl/list.hpp";FL="ttl/forward_list.hpp";SN="ttl/slist_node.hpp"
BL="ttl/backward_list.hpp";LQ="ttl/lazy_queue.hpp";RB="ttl/rbtree.hpp";MP="ttl/map.hpp";ST="ttl/set.hpp"
SV="ttl/sorted_vector_map.hpp";VM="ttl/vector_map.hpp";BS="ttl/bitset.hpp";AL="ttl/algorithm.hpp";AR="ttl/array.hpp";UT="ttl/utility.hpp";NU="ttl/numeric.hpp"
p("C01","vector behaves as a mathematical sequence",
 "After every operation on a vector (constructors, assignment, assign, push_back, pop_back, all forms of insert, erase of an element or of a possibly empty range, resize, reserve, clear, swap) its size, the elements read through [], at, front, back, data and iteration, and the iterator the operation returns are those of the abstract sequence the operation is defined on, and no other vector changes. capacity() is never less than size(), reserve(n) makes it at least n without changing the contents, and the value given to push_back or insert may be a reference to an element of the same vector.",
 ["inputs","histories"],"every element type with copyable values, every contents, capacity, position, count and range (not into the vector itself), every sequence of operations",
 "The tests run a few fixed sequences of operations on short vectors; the reallocating and in-place paths meet every size/capacity/position combination only for a handful of values.",
 [V],[("insert_values (reallocating, shifting and appending paths)",V),("erase",V),("reserve",V),("resize",V),("operator=",V)],
 [dict(name="elements_, last_, end_of_elements_",meaning="start, end of the live elements, end of the storage",where=V)])
p("C02","vector constructs and destroys each element exactly once and frees its storage",
 "In every history of operations on vectors, each element object is constructed once in storage owned by the vector before it is read and destroyed exactly once, no destroyed or never constructed element is read, copied or destroyed, and no access leaves the storage. When the vector is destroyed no element object and no storage remains.",
 ["inputs","histories"],"every sequence of vector operations on every element type whose copies do not throw",
 "The tests use plain integers or strings without checking lifetimes; nothing counts constructions and destructions on every path.",
 [V],[("placement new / explicit destructor pairs",V),("operator new / operator delete of the storage",V)],
 [dict(name="elements_, last_, end_of_elements_",meaning="live elements are exactly [elements_, last_)",where=V)])
p("C03","fixed_vector is a sequence truncated at its capacity",
 "Every fixed_vector operation gives the sequence that the corresponding vector operation gives, cut to its first N elements: appended or inserted elements beyond the capacity, and elements pushed over the end by an insertion, are dropped, and nothing else is lost or reordered. size, full, empty, [], front, back, iteration, the returned iterator and swap of two fixed_vectors of any two sizes agree with that sequence, and no other object changes.",
 ["inputs","histories"],"every N > 0, every contents, position and count, every range not into the vector itself, every sequence of operations",
 "The tests try a few fill levels; the overflow path of insert depends on the relation of position, count, size and capacity.",
 [FV],[("insert (count and range)",FV),("swap",FV),("erase",FV),("resize",FV)],
 [dict(name="bytes_, last_",meaning="in-object storage and end of the live elements",where=FV)])
p("C04","fixed_vector never touches memory outside its storage or a dead element",
 "In every history of operations on fixed_vectors every element object lives inside the storage of its fixed_vector, is constructed once before it is used and destroyed exactly once, including the elements dropped by an insertion that does not fit and the ones moved by swap and erase. No operation reads or writes outside of the N elements, and destroying the fixed_vector destroys its remaining elements.",
 ["inputs","histories"],"every N > 0, element type, contents, position and count, every sequence of operations",
 "The tests do not track element lifetimes, and the truncating paths are reached only with a few sizes.",
 [FV],[("insert",FV),("erase",FV),("swap",FV),("clear",FV)],[dict(name="bytes_, last_",meaning="live elements are exactly [elements(), last_)",where=FV)])
p("C05","list behaves as a mathematical sequence, forwards and backwards",
 "After every list operation (constructors, assign, push/pop at both ends, insert, erase of one element, resize, clear, remove, remove_if, unique, reverse, merge, splice, swap) iterating forwards gives the abstract sequence the operation is defined on and iterating backwards gives its reverse, and size, empty, front, back and the returned iterator agree with it. remove and remove_if drop exactly the matching elements, unique drops exactly the elements equal to the kept one before them, and merge of two sorted lists is the stable merge.",
 ["inputs","histories"],"every contents, position and argument (also values that are elements of the list itself), every sequence of operations",
 "The tests check short lists, mostly forwards only; link corruption in one direction or in the emptied or empty case stays invisible to them.",
 [L],[("list_node::insert_before, unlink, splice, reverse, swap",L),("list::merge, remove, unique, resize, clear",L)],
 [dict(name="head_ / node prev,next",meaning="circular double link",where=L)])
p("C06","list keeps its elements in place and destroys each exactly once",
 "splice, merge, swap, reverse and the removal of other elements never copy, move or destroy an element: its address and the iterators to it stay valid, in the list that holds it afterwards. Every element is destroyed and its memory released exactly once, when it is erased or its list is cleared or destroyed, and no memory of a released element is accessed.",
 ["inputs","histories"],"every sequence of operations on any number of lists",
 "The tests compare values, not identities, lifetimes or releases.",
 [L],[("splice, merge, swap relink nodes",L),("unlink + delete",L)],[dict(name="node",meaning="one heap node per element",where=L)])
p("C07","forward_list is a sequence whose nodes are linked, moved and freed correctly",
 "After every forward_list operation (constructors, assign, push_front, pop_front, insert_after, erase_after of an element or an open range, splice_after in its three forms, reverse, swap, clear) iteration gives the abstract sequence the operation is defined on, and the returned iterator points where it says. splice_after, reverse and swap move elements without copying them, splicing an empty range changes nothing, and each element is destroyed and released exactly once and not accessed afterwards.",
 ["inputs","histories"],"every contents, position and range (a position outside the moved open range), every sequence of operations",
 "The tests splice a few short lists; empty ranges, adjacent positions and the tail of the receiving list are not covered.",
 [FL,SN],[("slist_node::insert_after, unlink_next, splice_after, reverse",SN),("forward_list members",FL)],[dict(name="head_.next chain",meaning="null-terminated",where=FL)])
p("C08","backward_list always knows its last element",
 "After every backward_list operation (constructors, copies, assign, push_front, push_back, pop_front, insert_after, erase_after, reverse, swap, clear) iteration gives the abstract sequence the operation is defined on; empty, front, back and before_end agree with it, so that a following push_back always appends after the current last element. Each element is destroyed and released exactly once and not accessed afterwards.",
 ["inputs","histories"],"every contents and position, every sequence of operations, also on emptied and never filled lists",
 "The tests do not push after the less usual operations, where a stale end pointer would show.",
 [BL,SN],[("tail_ updates in every mutator",BL)],[dict(name="tail_",meaning="last node, or the head when empty",where=BL)])
p("C09","lazy_queue is a queue whose node pool never leaks or revives an element",
 "After every lazy_queue operation (constructors, assignment, push_front, push_back, pop_front, insert_after, erase_after, roll_head, swap, clear, cleanup) iteration, front, back, empty and before_end agree with the abstract sequence; roll_head moves the first element to the end without copying it. An element is destroyed exactly once, when it is removed, not again when its node is reused or released; nodes are reused only for later insertions into the same queue, and cleanup or destruction releases every unused node exactly once.",
 ["inputs","histories"],"every sequence of operations interleaving insertion, removal, clear and cleanup",
 "The tests run a couple of push/pop cycles without tracking element lifetimes or node reuse.",
 [LQ,SN],[("get_node / put_node",LQ),("cleanup, clear, destructor",LQ),("tail_ updates",LQ)],[dict(name="dead_",meaning="pool of nodes without a live element",where=LQ),dict(name="tail_",meaning="last node, or the head when empty",where=LQ)])
p("C10","map and set hold exactly one entry per key",
 "A map (set) behaves as a finite map (set) under every history of insert, operator[], erase by key, clear and copying: insert adds the key only if it is absent, never changes an existing entry, and reports which it did with an iterator to the entry; erase removes exactly that key and returns how many entries it removed; operator[] and at reach the value of the key, default-constructed if new. find, count, empty and iteration agree with that finite map for present and absent keys.",
 ["inputs","histories"],"every strict weak ordering whose equivalence is ==, every set of keys, every sequence of operations",
 "The deletion and rebalancing cases depend on the shape of the tree; the tests insert and erase a few dozen keys in a few orders.",
 [MP,ST,RB],[("insert_unique, remove, find",RB),("insert, erase, operator[], find, count",MP+", "+ST)],[dict(name="rbnode links and colours",meaning="search tree below header_",where=RB)])
p("C11","map and set stay balanced",
 "After every operation the search tree behind a map, a set or an rbtree is a red-black tree: along every path the number of black nodes is the same, no red node has a red child, and the root is black, so the longest path is at most twice the shortest. Parent links agree with child links, which lookup, iteration and erasing rely on.",
 ["inputs","histories"],"every sequence of insertions and erasures of present and absent keys, in any order, with or without duplicates",
 "Which rotations run depends on the whole history; balance is not observed by any test.",
 [RB],[("insert_rebalance, fixup, rotate_left, rotate_right, flip_colors",RB),("remove, delete_min, move_left, move_right",RB)],[dict(name="rbnode::color",meaning="red/black",where=RB)])
p("C12","map and set are ordered: iteration, bounds and ranges",
 "Iterating a map or set from begin to end visits every entry exactly once in strictly increasing key order, and -- undoes ++ at every position, also from end(). lower_bound(k), upper_bound(k) and equal_range(k) give the first entry not less than k, the first entry greater than k, and the pair of both, for present and absent keys.",
 ["inputs","histories"],"every content reached by any history, every key present or absent, every position",
 "The tests look up present keys; the neighbours of absent keys and backward steps from each position are not enumerated.",
 [MP,ST,RB],[("next_node, prev_node, min_node, max_node",RB),("lower_bound, upper_bound",RB),("iterator::prev, equal_range, upper_bound",MP+", "+ST)])
p("C13","map and set entries stay in place and are released exactly once",
 "Inserting or erasing other keys does not move, copy or destroy an entry: references and iterators to it stay valid and keep pointing to the same key. Copying a map or set (also onto itself) gives an equal and independent one, and every entry is destroyed and its memory released exactly once, when it is erased or its container is cleared, assigned or destroyed.",
 ["inputs","histories"],"every sequence of insertions, erasures, copies, assignments and clears over several maps or sets",
 "The tests check values only, not identities, lifetimes or the independence of copies.",
 [MP,ST,RB],[("remove relinks the successor node instead of copying it",RB),("preorder_copy, postorder_destroy, assign, clear",RB)])
p("C14","sorted_vector_map is a sorted finite map",
 "A sorted_vector_map behaves as a finite map under every history of insert, operator[], copying and clear: keys are unique, iteration is in increasing key order, insert does not change an existing entry and reports what it did, and find, count, at, lower_bound, upper_bound and equal_range agree with the map for present and absent keys (equal_range of an absent key is empty). Entries are not moved by later insertions, the array never overflows whatever capacity was preallocated, and each entry is destroyed and released exactly once.",
 ["inputs","histories"],"every sequence of operations, every key order, every preallocated capacity",
 "The tests insert a few keys with one growth pattern.",
 [SV],[("bsearch",SV),("insert_before",SV),("copy constructor, clear, destructor",SV)],[dict(name="elements_",meaning="sorted array of pointers to entries",where=SV)])
p("C15","vector_map finds by key in insertion order",
 "A vector_map keeps its entries in insertion order; insert and operator[] add an entry at the end only if the key is absent, insert does not change an existing entry and reports what it did. find and at reach the first entry with the key, find of an absent key gives end(), and count(k) is the number of entries with key k and always returns.",
 ["inputs","histories"],"every contents (also with duplicate keys added through the vector interface) and key, every sequence of operations",
 "The tests look up a handful of keys and never call count on a present key.",
 [VM,V],[("find_key, find, insert, operator[], count",VM)])
p("C16","bitset operations compute on N independent bits",
 "For every N, the bitset operations set, reset, flip (whole and one position), [] including assignment through the returned reference from a bool or from another bit, test, &=, |=, ^=, ~, <<, >> and their assigning forms, ==, count, all, any and none compute exactly their bitwise definition on the N bits and change no other bit. For every shift count, also 0 and those of N and more, a shift moves each bit by that many positions and fills with zeros.",
 ["inputs","histories"],"every N, every bit pattern, position below N and shift count, every sequence of operations",
 "The tests use a few sizes and patterns; word boundaries and N not divisible by the word size multiply the cases.",
 [BS],[("word loops over bits_",BS),("bits_slot/bits_bit addressing",BS)],[dict(name="bits_",meaning="array of words, bit i in word i/64",where=BS)])
p("C17","bitset conversions keep the value, and unused bits are never visible",
 "Bits beyond N never influence any result: two bitsets with the same N bits compare equal and give the same count, all, any, none, to_ulong, to_ullong, test and conversion to a bitset of any other size. Construction from an integer, from a string (its first N digits, two different characters for 0 and 1, most significant first, up to the first other character) and from a shorter or longer bitset gives exactly the low N bits of the value, zero-extended, and touches no memory outside of the bitset.",
 ["inputs","histories"],"every N and M (also 0 and multiples of the word size), every bit pattern, every string and digit characters, every history that leaves arbitrary unused bits",
 "The tests convert between a few sizes; stale unused bits appear only after particular histories.",
 [BS],[("last_bits masking in ==, all, any, none, count, to_ulong",BS),("converting assignment and constructors",BS)],[dict(name="bits_",meaning="the last word may have unused bits",where=BS)])
p("C18","Non-modifying algorithms return what their definition says",
 "find, find_if, find_if_not, search, search_n, count, count_if, all_of, any_of, none_of, adjacent_find, equal, mismatch and for_each return, for every range, exactly the position, number, truth value or pair of their definition (the first match, or last if there is none), with == or with the given predicate. They do not modify the range, and do not read an element outside of it.",
 ["inputs"],"every range (also empty) and value, every predicate, both overloads where there are two",
 "The tests check a few arrays; prefixes, repetitions and boundaries at either end are input-dependent.",
 [AL],[("the algorithm templates of that section",AL)])
p("C19","Modifying algorithms write exactly the defined elements",
 "fill, fill_n, copy, copy_if, copy_n, copy_backward, generate, generate_n, replace, replace_if, replace_copy, replace_copy_if, remove, remove_if, remove_copy, remove_copy_if, transform, swap_ranges, iter_swap, reverse and reverse_copy leave exactly the values of their definition, in order, in the destination range and return its end. Every element outside of that range, and the source where it is not the destination, is unchanged; copy to the left and copy_backward to the right work on overlapping ranges.",
 ["inputs"],"every range, count, value and predicate, with the overlap the definition allows",
 "The tests use a few fixed arrays and do not look at the neighbouring elements.",
 [AL],[("the algorithm templates of that section",AL)])
p("C20","Binary searches find the partition point of a sorted range",
 "On a sorted range lower_bound returns the first position whose element is not less than the value, upper_bound the first whose element is greater, equal_range both, and binary_search tells whether an equivalent element exists, for < and for a given comparison. They end, and read only elements of the range.",
 ["inputs"],"every range sorted by a strict weak ordering (up to the 2^31-1 elements the int counters allow), every value present or absent",
 "Off-by-one errors of bisection show only at particular lengths and positions.",
 [AL],[("lower_bound, upper_bound, equal_range, binary_search",AL)])
p("C21","merge, sortedness and minimum/maximum follow the ordering",
 "merge of two sorted ranges writes the sorted stable merge of both and nothing else; is_sorted_until returns the first element smaller than its predecessor, and is_sorted whether there is none. min, max and minmax return references to the smaller and larger argument (the first of equal arguments for min and max), and min_element, max_element and minmax_element the first smallest and first largest element of the range.",
 ["inputs"],"every pair of sorted ranges, every range, every ordering, equal and unequal arguments",
 "The tests use a few small arrays; stability and ties are not observed.",
 [AL],[("merge, is_sorted_until, is_sorted, min, max, minmax, min_element, max_element, minmax_element",AL)])
p("C22","pair, array, swap and the numeric helpers",
 "swap exchanges two values; pair keeps, copies, assigns, compares and swaps its two members, and make_pair returns them. array<T,N> gives access to exactly its N elements in order, fill sets all of them, swap exchanges all of them, and == holds iff all elements are equal; iota writes consecutive values, and accumulate and countof give the left-to-right sum and the length of the array; distance and advance agree with pointer arithmetic, and the pair member selectors return that member.",
 ["inputs"],"every value and N (also 0 where the member is defined for it)",
 "The tests use one or two sizes and values.",
 [UT,AR,NU],[("swap, pair",UT),("array",AR),("iota, accumulate",NU)])
p("C23","Copies are equal and independent, also onto oneself",
 "For vector, fixed_vector, list, forward_list, backward_list, lazy_queue, map, set, sorted_vector_map (copy construction) and bitset, a copy or the target of an assignment has the contents of the source, whatever it held before, and changing either later does not change the other; assigning an object to itself changes nothing. == of two containers (vector, fixed_vector, list, forward_list, backward_list, map, set, bitset, array) holds exactly if they have the same number of elements, pairwise equal and in the same order, and != is its negation.",
 ["inputs","histories"],"every contents of the source and the target, every later operation on either",
 "The tests copy once and compare; self-assignment, leftovers of the target and shared structure are not exercised.",
 [V,FV,L,FL,BL,LQ,MP,ST,RB,SV,BS,AR],[("copy constructors and operator= of each container",V),("operator== through equal",AL),("preorder_copy",RB)])
p("C24","rbtree with repeated keys keeps all of them, in insertion order",
 "An rbtree filled with insert_equal holds every inserted entry; traversal is in non-decreasing key order with equal keys in the order of insertion. count(k) is the number of entries with key k, lower_bound and upper_bound delimit exactly those entries, and remove(k) unlinks and returns exactly one entry with key k, or none and changes nothing if there is none.",
 ["inputs","histories"],"every sequence of insertions with repeated keys and removals, every key",
 "The tests insert at most two equal keys.",
 [RB],[("insert_equal, count, lower_bound, upper_bound, remove",RB)])
p("C25","type traits classify every type correctly",
 "is_same, is_const, is_volatile, is_signed, is_unsigned, is_void, is_integral, is_floating_point, is_arithmetic, is_fundamental, is_pointer, is_scalar and is_array give the standard answer for every type, and remove_const, remove_volatile, remove_cv and remove_reference name the standard type.",
 ["programs"],"every type",
 "The tests instantiate a few types.",
 ["ttl/type_traits.hpp"],[("the class templates",  "ttl/type_traits.hpp")])
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here,'properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
print(len(P))
