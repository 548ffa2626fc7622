#!/usr/bin/env python3
"""Writes properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, hook=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
        why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=hook)))
V,B,H,F,R,A,T,L='src/vec.rs','src/boxed.rs','src/hashmap.rs','src/format.rs','src/rc.rs','src/arc.rs','src/try_clone.rs','src/lib.rs'
M,N,S,Q='src/btree/map.rs','src/btree/node.rs','src/btree/set.rs','src/btree/search.rs'

p('C01','Allocation failure is always reported as an error, never fatal',
 "When memory allocation fails at any point while an operation that returns a Result is running (vector extension methods, TryVec, try_new of Box and TryBox, TryHashMap, try_clone, try_collect, try_format with a sufficient capacity, fallible reads and writes, BTreeMap/BTreeSet insertion, entry, replace, split-off), it returns Err: the process does not abort and the operation does not panic. A size request that cannot be represented is likewise returned as Err, and when no allocation fails these operations do not return Err for ordinary sizes. (Rc and Arc creation is documented as only partly fallible without the unstable feature: there only the first allocation is covered.)",
 ['inputs','fault_sequences','configurations'],'every fallible operation x every container state x every position (and every suffix and pattern) of allocator failures, in the hashbrown, std and unstable feature configurations',
 'The tests only ask for absurd sizes (usize::MAX) on empty collections; no test ever makes the allocator fail, so an infallible allocation hidden behind a Result-returning function is invisible to them.',
 [V,B,H,F,R,A,T,M,N,S],[('reserve before the infallible std call','src/vec.rs FallibleVec for Vec'),('try_reserve before insert','src/hashmap.rs insert/reserve'),('FallibleBox::try_new for every tree node','src/btree/node.rs new_leaf/push_level/split')],
 ['return value of each operation while the global allocator is made to fail','process exit status'])

p('C02','A failed operation leaves the collection as it was and loses nothing',
 "If an operation on a collection returns Err because memory ran out, that collection and every other collection passed to it still hold exactly the same elements in the same order with the same length as before (operations that clone elements one by one may have appended a leading part of the requested clones). The variants that give ownership back return exactly the element that was passed in, every other by-value argument is dropped exactly once, and nothing leaks. The collection stays fully usable: repeating the operation once memory is available gives the result it would have had.",
 ['inputs','fault_sequences','histories'],'every fallible mutating operation x every reachable container state (including deep trees whose insertion splits several levels) x every failing allocation position, followed by arbitrary further operations',
 'No test injects a failing allocation, so none looks at a collection after Err; the interesting states (a tree insertion that splits a leaf and then fails to split its parent) need both a fault and a particular shape.',
 [V,B,H,M,N,S],[('reserve first, mutate afterwards','src/vec.rs, src/hashmap.rs'),('nodes needed by an insertion are allocated before the tree changes','src/btree/map.rs VacantEntry::try_insert'),('new tree built before the old one is cut','src/btree/map.rs split_off')],
 ['contents, length and element identities before and after an Err','given-back element','retry result'])

p('C03','No sequence of safe calls causes undefined behaviour',
 "No sequence of calls to the safe API - with any element type (zero-sized, over-aligned, large, owning heap memory), any sizes, succeeding or failing allocations - reads uninitialised, freed or out-of-bounds memory, writes outside a live allocation, uses a misaligned or dangling reference, frees memory twice or with a layout other than its own, or executes an unreachable-code hint. The signatures see to it that no reference, iterator or entry can be used, and no element's destructor can run, once what it borrows from is gone, and that no two of them give mutable access to the same element. (Conformance to the experimental Stacked/Tree Borrows aliasing models is claimed for the non-BTree modules only.)",
 ['inputs','histories','fault_sequences','configurations'],'all histories of public operations over all element layouts, in debug and release builds and in each feature configuration',
 'Unit tests run without any memory checker and the BTree modules have no executed tests at all; uninitialised reads and layout mismatches usually have no visible effect in a test.',
 [V,B,N,M,S,Q],[('MaybeUninit key/value/edge slots with len','src/btree/node.rs LeafNode/InternalNode'),('set_len after each write','src/vec.rs try_extend_with, try_extend_from_slice_no_copy'),('Box rebuilt from a one-element boxed slice','src/boxed.rs try_new'),('shared static empty root','src/btree/node.rs EMPTY_ROOT_NODE'),('lifetimes, variance markers, drop check','src/btree/map.rs iterator and entry types, src/btree/node.rs BoxedNode')],
 ['AddressSanitizer and Miri reports','lifetime probes','guarding allocator (red zones, poison, layout ledger)','element canaries'],
 'cfg(fc_verif_modern): lets the unstable feature compile on the nightly that Miri belongs to')

p('C04','Every element is dropped exactly once and all memory is returned',
 'Through any history of operations, including failed ones, every element handed to or cloned by a collection is at any time either held by exactly one collection, returned to the caller, or has been dropped exactly once. When all collections, iterators and returned values are gone, every element has been dropped and every allocated block has been freed with the layout it was allocated with.',
 ['inputs','histories','fault_sequences'],'all histories, including partially consumed iterators, splits, merges of trees, overwrites, truncations and operations that fail part-way',
 'Tests use Copy integers and never count drops or live allocations, so a leaked subtree or a double drop passes unnoticed.',
 [V,B,H,N,M,S,A,R],[('IntoIter drains and frees nodes','src/btree/map.rs Drop for IntoIter'),('ptr::read moves in node split/merge/steal','src/btree/node.rs'),('Truncate','src/vec.rs')],
 ['Drop calls of uniquely numbered elements','allocator ledger'])

p('C05','Fallible vector operations produce the same result as std Vec',
 'When memory suffices, each fallible operation of Vec (via FallibleVec, try_vec!, try_collect, try_from_elem) and of TryVec (push, pop, insert, append, resize variants, extend variants, concat, conversions from slices and strings, iteration, comparison) leaves the same elements in the same order and returns the same value as the corresponding std Vec operation would, for every length, capacity, index and element type. Elements moved keep their identity; cloned elements equal their source; append empties its argument.',
 ['inputs','histories'],'all operation sequences, indices, lengths (0, 1, at and around the capacity) and element types including zero-sized',
 'Existing tests exercise five short calls; TryVec::push, insert, append, resize and concat are not called by any test.',
 [V],[('reserve then delegate to Vec','src/vec.rs'),('hand-written extend/resize/truncate loops','src/vec.rs try_extend_with, try_extend_from_slice_no_copy, Truncate')],
 ['contents, identities and return values against a std Vec model'])

p('C06','Reserved capacity is honoured and growth is amortised',
 "After a successful reserve, with_capacity or equivalent for n further elements (vectors, TryHashMap), adding up to n elements performs no allocation and does not move a vector, and reserving room that is already there performs no allocation. Filling a collection one element at a time makes a number of allocation requests that grows only logarithmically, with the memory requested within a small constant factor of what is needed. Vectors of zero-sized elements never allocate, and requests whose byte size overflows are refused with Err leaving the collection unchanged.",
 ['inputs','histories'],'all lengths, capacities, requested amounts (including values around usize::MAX and isize::MAX) and element sizes',
 'Tests look at capacity() for one or two sizes and never observe the allocator, so a needless or missing reservation is not visible.',
 [V,H],[('needs_to_grow','src/vec.rs'),('try_reserve','src/vec.rs try_with_capacity, src/hashmap.rs with_capacity')],
 ['allocation requests (count and size) seen by the global allocator','buffer addresses'])

p('C07','try_clone yields an equal and fully independent copy',
 'For every type implementing TryClone (integers, bool, Option, Box, TryBox, Vec, TryVec, TryHashMap, BTreeMap, and nestings of these), a successful try_clone returns a value equal to the original, leaves the original untouched, and shares no storage with it: changing or dropping either one never affects the other. Arc shares the same allocation and raises the reference count by exactly one. If cloning any part fails, Err is returned, the original is untouched and the partial copy is released completely.',
 ['inputs','fault_sequences'],'all values (sizes, tree shapes, nestings) and every position at which an allocation or an element clone can fail',
 'Tests clone one flat Vec of integers; nested values, trees, maps and failure inside an element clone are never exercised.',
 [T,V,B,H,M,A],[('element-wise try_clone','src/vec.rs, src/hashmap.rs'),('clone_subtree','src/btree/map.rs')],
 ['equality with the source, addresses, source after mutation of the copy','live elements after Err'])

p('C08','TryHashMap behaves as a map',
 "Through any history of insert, get, remove, iteration, try_clone and consumption, TryHashMap agrees with a mathematical map: get and remove return the value of the last insert not yet removed, insert returns the previous value, len equals the number of distinct keys, iteration and into_iter yield every entry exactly once, and lookups by a borrowed form of the key agree with lookups by the key. This holds in both the hashbrown-backed and the std-backed configuration, across any number of internal growths and with heavily colliding hashes.",
 ['inputs','histories','configurations'],'all histories over all key distributions (including colliding hashes and deletion-heavy histories that leave tombstones), in both backing configurations',
 'The only test is that an impossible reservation fails; insert/get/remove are never called.',
 [H],[('delegation to the inner map after reserve','src/hashmap.rs')],
 ['return values and contents against std BTreeMap as reference'])

p('C09','Fallible reads and writes move exactly the requested bytes',
 'try_read_up_to, try_read_to_end on a limited reader, and read_into_try_vec append to the buffer exactly the first min(limit, available) bytes of the source in order, keep what the buffer held before, return that count, consume no byte beyond the limit, and allocate nothing beyond the initial reservation of the limit. Readers that return short counts or are interrupted give the same result; a reader error is passed on with the bytes read so far kept; if the reservation fails nothing is read and the buffer is unchanged. Writing into a TryVec<u8> appends exactly the bytes given, or fails leaving it unchanged.',
 ['inputs','fault_sequences'],'all source contents and lengths, limits, initial buffer contents and capacities, reader behaviours (short reads, Interrupted, errors at any point, EOF before or after the limit) and allocator failures',
 'The tests read five bytes from a ten byte slice once per function.',
 [V],[('reserve(limit) then take(limit).read_to_end','src/vec.rs std_io::try_read_up_to'),('Write for TryVec<u8>','src/vec.rs std_io')],
 ['buffer contents, count, source position','allocation requests during the read'])

p('C10','BTreeMap point operations agree with a sorted map',
 'Through any history of insertion, removal, lookup (by key or borrowed form, shared or mutable, key-value, containment, indexing) and entry operations (or_try_insert, or_try_insert_with, or_default, and_modify, occupied insert/remove/get/into_mut, vacant insert/into_key), BTreeMap returns exactly what an ideal sorted map would and ends up with the same entries and length. References returned refer to the stored entry; an insertion over an existing key replaces the value and keeps the stored key.',
 ['inputs','histories'],'all histories over all key orders (ascending, descending, random, clustered, duplicate-heavy), sizes from empty to trees four levels deep, and key/value layouts',
 'All btree doc-tests import std::collections::BTreeMap, so no logic error in this code can make any test fail.',
 [M,N,Q],[('search_tree','src/btree/search.rs'),('insert with node split','src/btree/node.rs, src/btree/map.rs VacantEntry::try_insert'),('remove with steal/merge','src/btree/map.rs remove_kv, handle_underfull_node')],
 ['return values, contents and lengths against std BTreeMap as model'])

p('C11','split_off partitions and append merges exactly',
 'Splitting a BTreeMap or BTreeSet at a key leaves in the original exactly the entries below the key and returns exactly those at or above it, with both lengths correct; appending moves all entries of the argument into the receiver, leaves the argument empty, and for keys present in both keeps the argument\'s value. Both results are fully valid: any later history of operations on them (including repeated splitting and appending) still agrees with a sorted map.',
 ['inputs','histories'],'all pairs of maps (empty, tiny, deep, disjoint, interleaved, overlapping), all split keys (below, between, equal, above), and all subsequent histories',
 'No test calls these functions on this implementation (see C10).',
 [M,N,S],[('move_suffix, fix_left_border, fix_right_border, recalc_length','src/btree/map.rs split_off'),('MergeIter, from_sorted_iter, fix_right_edge','src/btree/map.rs append'),('bulk_steal_left/right, merge','src/btree/node.rs')],
 ['contents, lengths and later return values against model'])

p('C12','BTree iterators are ordered, complete, double-ended and exact',
 'Every iterator of BTreeMap and BTreeSet (iter, iter_mut, keys, values, values_mut, range, range_mut, into_iter) yields exactly the entries of its range in ascending key order from the front and descending from the back under any interleaving of both ends, each entry once, with exact lengths where promised, and keeps returning None once exhausted. Ranges honour every combination of included, excluded and unbounded ends and panic exactly for inverted or equal-excluded bounds; clones of an iterator continue independently; mutable iterators give distinct references whose writes are stored.',
 ['inputs','histories'],'all map sizes and shapes, all bound combinations (present and absent keys, empty ranges), all interleavings of next/next_back, partial consumption',
 'No test runs these iterators on this implementation (see C10).',
 [M,N,S],[('range_search','src/btree/map.rs'),('next_unchecked/next_back_unchecked','src/btree/map.rs'),('IntoIter deallocating ascent','src/btree/map.rs')],
 ['yielded sequences, len(), size_hint(), Debug output of iterators'])

p('C13','BTreeSet operations agree with mathematical sets',
 'Through any history, BTreeSet membership, get, insert, replace, take, remove, len and range agree with a mathematical ordered set, where replace stores the new element and returns the old one and insert keeps the stored element. union, intersection, difference, symmetric_difference (as iterators, in ascending order with size hints that bound the truth at every step, cloneable at any point) and the operators |, &, -, ^, and is_subset, is_superset, is_disjoint give the mathematically correct answer for every pair of sets, whatever their relative sizes.',
 ['inputs','histories'],'all pairs of sets, in particular every size ratio on both sides of the threshold between joint iteration and searching, subsets, disjoint and interleaved sets',
 'No test runs these on this implementation (see C10); the two algorithms chosen by size ratio need sets of very different sizes.',
 [S,M],[('ITER_PERFORMANCE_TIPPING_SIZE_DIFF selection','src/btree/set.rs'),('Stitch/Search iterators','src/btree/set.rs'),('Recover','src/btree/map.rs')],
 ['results against std BTreeSet as model','size_hint at every step'])

p('C14','BTree collections stay balanced and compact under any history',
 'After any history of insertions, removals, splits, appends and clones, a lookup in a BTreeMap or BTreeSet with n entries needs at most about 11 comparisons per level with a height at most logarithmic (base 5) in n, and the number of live tree nodes is at most one per four entries plus a constant. Removing everything or clearing returns the memory, and an empty map created by new holds none.',
 ['inputs','histories'],'all histories, in particular removal-heavy ones, sorted and reverse-sorted insertion, repeated split_off and append',
 'No test observes comparisons or node allocations; an under-full or over-tall tree answers all queries correctly.',
 [M,N],[('handle_underfull_node steal/merge','src/btree/map.rs'),('fix_right_edge, fix_left_border, fix_right_border, fix_top','src/btree/map.rs')],
 ['number of Ord::cmp calls per lookup','live blocks in the allocator ledger'])

p('C15','Panicking or inconsistent user code never makes a collection unsound',
 'If user code called by an operation panics (element comparison, clone, try_clone, drop, hash, closures, source iterators, readers), or element comparison is not a consistent order, then no element is ever dropped twice or used after being dropped, and every collection involved stays internally consistent: its length equals the number of elements it yields, and iterating, modifying and dropping it afterwards is memory-safe and terminates. Elements may leak after a panic, but with a consistent order, elements the operation does not concern are not lost when the panic comes from a lookup or an insertion in a vector or BTree collection.',
 ['inputs','histories','fault_sequences'],'every operation taking user code x every call of that user code as the panic point x every container state, followed by arbitrary operations; arbitrary comparison results',
 'No test uses panicking user code.',
 [V,N,M,S,H],[('set_len per element','src/vec.rs'),('comparisons before mutation','src/btree/map.rs')],
 ['element ledger, len() against iteration, sanitizer reports after catch_unwind'])

p('C16','Operations that need no new memory work when memory is exhausted',
 "With every allocation failing, all reading, iterating, removing, shrinking, clearing and dropping operations still work with their normal results and perform no allocation, as do creating empty collections, overwriting the value of an existing BTree key, occupied-entry operations, pushing, inserting, appending, extending, resizing and writing within spare vector capacity, conversions from Vec, set-algebra iteration and predicates, and try_clone of Arc.",
 ['inputs','histories','configurations'],'every such operation on every container state with an allocator that refuses everything',
 'No test controls the allocator.',
 [V,H,M,N,S,A,B],[('capacity checks before reserving','src/vec.rs'),('shared static empty root','src/btree/node.rs'),('in-place steal/merge','src/btree/node.rs')],
 ['allocation requests during the operation','results against model'])

p('C17','try_format equals format and stays within the given capacity',
 "try_format and tryformat! return exactly the text format! would produce for the same arguments. When the stated capacity is at least the length of the output, the string is built with a single fallible allocation and no other; if that allocation fails or the capacity is unrepresentable, Err is returned.",
 ['inputs','fault_sequences'],'all format arguments and all capacities from 0 to far above the output length, with and without allocation failure',
 'The test formats three constants.',
 [F],[('try_with_capacity then write_fmt','src/format.rs')],
 ['output text','allocation requests'])

p('C18','Try* types offer no way to allocate without reporting failure',
 'TryBox, TryVec and TryHashMap implement none of the standard traits through which an allocation could happen without returning a Result (Clone, Extend, FromIterator, allocating From conversions, allocating Default), and none of their methods or trait implementations that do not return a Result performs an allocation.',
 ['inputs','configurations'],'all listed traits for representative element types, and all non-Result operations on all container states, in each feature configuration',
 'A test cannot notice a trait implementation being added, and no test watches the allocator.',
 [L,V,B,H],[('absence of the trait impls','src/lib.rs module documentation'),('wrappers around inner','src/vec.rs, src/boxed.rs, src/hashmap.rs')],
 ['trait-implementation probes in a running program','allocation requests of every non-Result operation'])

p('C19','Comparison, hashing and printing depend only on the contents',
 "Equality, ordering and Debug output of BTreeMap and BTreeSet are those of the sorted sequence of entries - the same as std gives for the same contents - and equal contents hash equally with every entry contributing, regardless of the history or tree shape that produced them. FromIterator, Extend, Clone and Default build exactly the described contents. TryVec equality (with TryVec, Vec, slices, strings) and Debug, and TryHashMap Debug, likewise reflect exactly the contents.",
 ['inputs','histories'],'all pairs of collections with equal, prefix-related and different contents reached by different histories',
 'No test compares two trees; TryVec comparison is only used with one or two constants.',
 [M,S,V,H],[('iterator-based Eq/Ord/Hash/Debug','src/btree/map.rs'),('derives','src/btree/set.rs'),('PartialEq impls','src/vec.rs')],
 ['results against std collections with the same contents'])

p('C20','Collections are safe to share and move between threads, and independent',
 'Each collection, iterator and entry type is Send or Sync only when the corresponding std type with the same element types is. Threads working on different collections, or reading the same one, never interfere or race - in particular operations on empty maps never write to shared static data - and a collection built in one thread can be read, modified and dropped in another with the same results.',
 ['schedules','histories'],'all interleavings of threads using distinct maps (including empty ones), sharing one map for reading, and handing collections over; all element types that are not thread-safe',
 'No test uses threads or checks auto traits.',
 [N,M,V,B,H],[('unsafe impl Send/Sync for Root and NodeRef','src/btree/node.rs'),('EMPTY_ROOT_NODE','src/btree/node.rs')],
 ['Send/Sync probes against std','results of concurrent workloads','Miri data-race reports'],
 'cfg(fc_verif_modern), as for C03')

p('C21','Fallible Box, TryBox, Rc and Arc behave as the std pointers',
 'A successful try_new of Box, TryBox, Rc or Arc stores exactly the given value in memory of the right size and alignment (none for zero-sized types), with at most one allocation for boxes; the result is interchangeable with one made by std (including raw round-trips and deallocation), has reference count one where counted, and drops the value exactly once. On failure the value is dropped exactly once and nothing leaks.',
 ['inputs','fault_sequences','configurations'],'all value types (sizes from 0 to several pages, alignments up to a page, owning heap memory) and every failing allocation position the function is documented to report',
 'Tests use two integers and a unit struct; the Rc and Arc tests do not call this crate at all.',
 [B,R,A],[('one-element Vec turned into Box','src/boxed.rs try_new'),('From<Box> for Rc/Arc, Arc::try_new','src/rc.rs, src/arc.rs')],
 ['value, address, alignment, counts','allocator ledger (layouts, live blocks)','drop counts'])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
print(len(P))
