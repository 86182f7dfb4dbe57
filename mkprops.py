#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that ids, titles and anchors stay in one place)."""
import json, os
CM, PM, GM = 'src/cycle_map.rs', 'src/partial_cycle_map.rs', 'src/group_map.rs'
P = []


def prop(id, title, statement, over, text, why, files, mech, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text},
              'why_tests_cant': why,
              'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech],
                          **({'state': [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]} if state else {})}})


SC = [('CycleMap::left_set/right_set', 'the two raw tables; every entry stores its partner\'s hash and the shared pair id', CM + ': struct CycleMap, struct MappingPair'),
      ('CycleMap::counter', 'next unused pair id', CM)]
SP = [('PartialCycleMap::left_set/right_set', 'raw tables; an entry stores Some(partner hash) iff it is paired, and its id', PM + ': struct PartialCycleMap, struct MappingPair'),
      ('PartialCycleMap::counter', 'next unused id', PM)]
SG = [('GroupMap::left_set', 'left items with the id and hash of the right item they belong to', GM + ': LeftItem'),
      ('GroupMap::right_set', 'right items with the set of (hash, id) of their left items', GM + ': RightItem'),
      ('left_counter/right_counter', 'next unused ids', GM)]

prop('C01', 'CycleMap always holds a bijection with both lookup directions consistent',
     'After any sequence of public calls on a CycleMap (including dropping a partly consumed drain or drain_filter, failed conditional calls, Extend, Clone and deserialization), the stored pairs form a bijection: every left item has exactly one right partner whose partner is that left item, no two equal items are stored on one side, and both sides have the same number of items. An item that is stored can be found, and found together with its own partner, from either side.',
     ['inputs', 'histories'], 'all histories of public operations on maps of every size, with arbitrary items, hash functions and hash builders',
     'Tests run a few dozen fixed histories on small integers; the invariant must hold for every history, every size and every placement of equal or colliding hashes.',
     [CM, 'src/serde.rs', 'src/utils.rs'],
     [('insert / swap_* / remove_via_* update both tables together', CM + ': insert, remove_via_left, swap_left, swap_right'),
      ('drain and drain_filter erase both entries of a pair', CM + ': DrainIter, DrainFilterIter::next')], SC)
prop('C02', 'CycleMap insert, remove and swap do exactly what they document',
     'insert stores the new pair and removes and returns exactly the existing pairs that share an item with it; remove* remove exactly the pair asked for and return it; swap_left/right (plain, checked, or_insert) replace one item of a pair, keep its partner, and return the replaced item and the pair displaced because the new item was already stored. No other pair is touched, the newly passed object (not the old equal one) is the one stored, and the returned optional states precisely which objects left the map.',
     ['inputs', 'histories'], 'all reachable maps and all argument items, including items already stored, paired with each other, or equal to one another',
     'Each operation has many relations between its arguments and the stored pairs (absent, present, paired together, paired elsewhere, identical); the tests sample a handful of them and never with equal-but-distinguishable objects.',
     [CM, 'src/optionals.rs'],
     [('insert', CM + ': CycleMap::insert'), ('removal', CM + ': remove, remove_via_left, remove_via_right'),
      ('swaps', CM + ': swap_left, swap_left_checked, swap_left_or_insert, swap_right, swap_right_checked, swap_right_or_insert')], SC)
prop('C03', 'PartialCycleMap pairing is symmetric and one-to-one in every reachable map',
     'After any sequence of public calls on a PartialCycleMap (including dropped drains, retain calls and panicking predicates), an item is paired with exactly the item that is paired with it, an unpaired item has no partner on either side, and no two equal items are stored on one side. An item that is stored can always be found.',
     ['inputs', 'histories'], 'all histories of public operations on maps of every size with paired and unpaired items on both sides',
     'Unit tests check a few fixed maps; a half-removed pairing only shows in particular combinations of pairings, removals and re-pairings.',
     [PM, 'src/utils.rs'],
     [('pair/unpair/pair_forced update both entries', PM + ': pair, pair_forced, pair_forced_remove, unpair'),
      ('removal clears the partner\'s link', PM + ': remove_left, remove_right, remove_via_*'),
      ('bulk operations', PM + ': DrainIter, DrainFilterIter, retain*')], SP)
prop('C04', 'PartialCycleMap insert, pair, unpair, remove and swap do what they document',
     'Every single-item operation of PartialCycleMap changes exactly the items and pairings it documents, for every way its arguments can relate to the stored items (absent, unpaired, paired together, paired elsewhere), and returns exactly the objects that left the map or the documented success flag. Pairing an already paired item is refused by pair and breaks the old pairing in pair_forced; removing one item leaves its partner stored and unpaired unless the operation says it removes both.',
     ['inputs', 'histories'], 'all reachable maps and all argument items',
     'The case split over argument states is large (each argument absent, unpaired or paired, together or apart) and the tests cover only some cells of it.',
     [PM, 'src/optionals.rs'],
     [('insertion', PM + ': insert, insert_left, insert_right'), ('pairing', PM + ': pair, pair_forced, pair_forced_remove, unpair'),
      ('removal', PM + ': remove*, remove_via_*'), ('swaps', PM + ': swap_*')], SP)
prop('C05', 'GroupMap membership is consistent between left and right items',
     'After any sequence of public calls on a GroupMap, every left item belongs to at most one right item, a right item\'s group is exactly the set of left items that name it, and no two equal items are stored on one side. A stored item can always be found, and following a left item to its right item and back reaches the left item again.',
     ['inputs', 'histories'], 'all histories of public operations on maps with any number of groups of any size',
     'Groups are unbounded and a stale membership only shows several operations later; tests look at a few small groups after one or two calls.',
     [GM], [('moving a left item updates both groups', GM + ': insert, insert_remove, insert_left, pair'),
            ('removing and swapping right items rewrites the members', GM + ': remove_right, insert_right, swap_right, swap_right_remove'),
            ('retain', GM + ': retain_paired, retain_unpaired')], SG)
prop('C06', 'GroupMap insert, pair, remove and swap_right do what they document',
     'Every single-item operation of GroupMap moves, adds or removes exactly the left and right items it documents, for every way its arguments can relate to the stored groups, keeps all other groups unchanged, and returns exactly the items that left the map. Inserting a left item under another right item moves it there and leaves its old group without it; removing a right item returns its whole group.',
     ['inputs', 'histories'], 'all reachable maps and all argument items, groups of every size',
     'Tests use groups of fixed small size and few argument relations; the operations loop over groups of arbitrary size.',
     [GM], [('insertion', GM + ': insert, insert_remove, insert_left, insert_right'), ('pair', GM + ': pair'),
            ('removal', GM + ': remove, remove_left, remove_right'), ('swap_right', GM + ': swap_right, swap_right_remove')], SG)
prop('C07', 'No public operation panics on its own account',
     'On every reachable map and for every argument, no public operation, iterator step, drop, formatting-free conversion or (de)serialization panics, overflows or unwraps a missing value, as long as the user\'s Hash, Eq, Clone and closures do not panic.',
     ['inputs', 'histories'], 'all reachable maps, all arguments, all public operations including iterator methods and drops',
     'The code relies on unwrap() of internal lookups that succeed only if the cross-table invariants hold; a test shows this for single inputs only.',
     [CM, PM, GM, 'src/optionals.rs', 'src/serde.rs'],
     [('unwrap of cross-table lookups', CM + ', ' + PM + ', ' + GM + ': every .unwrap()'), ('subtraction in size hints', PM + ', ' + GM + ': size_hint')])
prop('C08', 'Behaviour never depends on hash collisions',
     'If several stored or passed items have equal hash values (even all of them), every operation behaves exactly as if the hashes were distinct: the items acted upon, returned, iterated and paired are identified by equality and never by hash alone.',
     ['inputs', 'configurations'], 'all hash functions, including constant ones, and all operations',
     'No test uses colliding hashes; with the default hasher 64-bit collisions never occur in a test.',
     [CM, PM, GM, 'src/utils.rs'],
     [('lookups compare value or hash and id', CM + ': equivalent_key, hash_and_id, just_id; ' + PM + ': same; ' + GM + ': equivalent_key_left/right, left_with_*_id, right_with_*')])
prop('C09', 'Lookups, membership, pairing and length queries agree and change nothing',
     'get_left/get_right/get_left_iter, contains_*, are_paired, is_*_paired, len*, is_empty and capacity answer exactly according to the stored items and pairings, for present and absent arguments and for borrowed key forms. Together with iteration, comparison and serialization through a shared reference they leave the map unchanged.',
     ['inputs', 'histories'], 'all reachable maps and all query arguments',
     'The agreement must hold for every stored and every absent item in every reachable map; tests query a few items.',
     [CM, PM, GM], [('get_*', CM + ', ' + PM + ', ' + GM + ': get_left, get_right, get_left_iter'), ('are_paired', CM + ', ' + PM + ', ' + GM + ': are_paired'),
                    ('len/is_empty', CM + ', ' + PM + ', ' + GM + ': len*, is_empty')])
prop('C10', 'Iterators visit every element of their kind exactly once, also when cloned',
     'iter, iter_left, iter_right, iter_paired, iter_unpaired and the iterator over a group yield each element they are documented to visit exactly once, with its true partner, then return None for ever. A clone made at any point continues independently over exactly the remaining elements, and fold, count and similar adaptors see the same sequence as next.',
     ['inputs', 'schedules'], 'all reachable maps, every point of interruption or cloning',
     'Tests collect whole iterators of small maps; cloning in the middle, empty groups, and maps with every mix of paired and unpaired items are not covered.',
     [CM, PM, GM], [('Iterator::next', CM + ', ' + PM + ', ' + GM + ': Iter, SingleIter, PairedIter, UnpairedIter, LeftIter, RightIter, PairIter'),
                    ('Clone', CM + ', ' + PM + ', ' + GM + ': impl Clone for the iterators')])
prop('C11', 'Iterator size hints and exact lengths are true',
     'At every point of every iteration the lower bound of size_hint is at most, and the upper bound at least, the number of elements the iterator will still yield. Where an iterator implements ExactSizeIterator its len is exactly that number.',
     ['inputs', 'schedules'], 'all iterators (including drains), all reachable maps, every number of elements already taken',
     'The bound must hold after every prefix of every iteration; tests look at len of fresh iterators over fully paired maps.',
     [CM, PM, GM], [('size_hint / len', CM + ', ' + PM + ', ' + GM + ': every size_hint and ExactSizeIterator impl')])
prop('C12', 'drain hands out every element once and leaves an empty usable map',
     'drain yields every stored pair (and, for PartialCycleMap, every unpaired item) exactly once by value and then None for ever. However many elements were taken, once the drain is dropped the map is empty on both sides and usable again with its tables and hash builder.',
     ['inputs', 'histories'], 'all reachable maps, every number of elements taken before the drain is dropped',
     'Tests drain small maps completely or not at all; a side left populated after a partial drain is invisible to them.',
     [CM, PM], [('DrainIter::next', CM + ', ' + PM + ': DrainIter'), ('drop', CM + ', ' + PM + ': impl Drop for DrainIter')])
prop('C13', 'drain_filter removes and yields exactly the selected elements',
     'drain_filter calls the predicate once for every pair (and each unpaired item of a PartialCycleMap) with its true items, removes and yields exactly the elements it returns true for, and keeps all others with their pairings. Dropping it early still finishes the filtering over all remaining elements.',
     ['inputs', 'schedules'], 'all reachable maps, all predicates, every point of dropping',
     'Predicates and drop points range over all subsets and prefixes; tests use one predicate on one map.',
     [CM, PM], [('DrainFilterIter::next', CM + ', ' + PM + ': DrainFilterIter'), ('ConsumeAllOnDrop', CM + ', ' + PM + ': impl Drop for DrainFilterIter')])
prop('C14', 'retain decides every element once and drops exactly the rejected ones',
     'The retain family calls the predicate exactly once for every element in its scope (every pair, every unpaired item, or every group member, as the method says), with that element\'s own items. Exactly the elements selected for removal are removed (a removed member\'s partner follows the documentation of the method), and all other elements and pairings are unchanged.',
     ['inputs'], 'all reachable maps and all predicates',
     'A predicate selects an arbitrary subset; erasing while iterating is only wrong for particular subsets and layouts.',
     [CM, PM, GM], [('retain', CM + ': retain; ' + PM + ': retain, retain_paired, retain_unpaired; ' + GM + ': retain_paired, retain_unpaired')])
prop('C15', 'Map equality means equal contents and is reflexive and symmetric',
     'Two maps compare equal exactly if they store equal items with equal pairings (including unpaired items on both sides), regardless of insertion order, capacity, hash builder state or history. A map equals itself and its clone.',
     ['inputs', 'histories'], 'all pairs of reachable maps, also with different hash builders',
     'Equality quantifies over pairs of maps; the tests compare a few built alike, and never maps that differ only in unpaired or empty-group elements.',
     [CM, PM, GM], [('PartialEq', CM + ', ' + PM + ', ' + GM + ': impl PartialEq')])
prop('C16', 'A clone is an equal, fully independent map',
     'Cloning a map yields a map with clones of exactly the same items and pairings and a hash builder cloned from the original, in which every lookup works as in the original. Neither map shares state with the other, and the source is unchanged.',
     ['inputs', 'histories'], 'all reachable maps of the three kinds',
     'The clone must keep every cross-table link for every map; tests clone small fixed maps.',
     [CM, PM, GM], [('Clone', CM + ', ' + PM + ', ' + GM + ': impl Clone for the maps and their entries')])
prop('C17', 'Serialization writes every pair once; deserialization is safe on any input',
     'Serializing a CycleMap emits exactly its pairs, each once, as a sequence whose announced length is the number of pairs. Deserializing yields the map obtained by inserting the incoming pairs in order, reports the input\'s errors, and never allocates more than a bounded amount on the input\'s claim about its length.',
     ['inputs'], 'all reachable maps, all input sequences including duplicate or conflicting pairs, errors and lying length hints',
     'A test round-trips one small map; duplicates, errors in the middle and hostile size hints are not covered.',
     ['src/serde.rs'], [('Serialize', 'src/serde.rs: impl Serialize'), ('Visitor::visit_seq', 'src/serde.rs: CycleMapVisitor')])
prop('C18', 'Extend and FromIterator equal inserting the items one after the other',
     'Extending or collecting from any iterator gives the same map as inserting its items one by one in order with the corresponding insert operation, for all items and all relations among them and to the stored items. Nothing of the source is skipped or used twice, and the map is consistent afterwards.',
     ['inputs', 'histories'], 'all source sequences, including repeated and conflicting items, all reachable maps',
     'Duplicates and conflicts within the source are not exercised by the tests.',
     [CM, PM, GM], [('Extend / FromIterator', CM + ', ' + PM + ', ' + GM + ': impl Extend, impl FromIterator')])
prop('C19', 'OptionalPair conversions and accessors keep every value and its side',
     'Every conversion, accessor, mapping, clone and comparison of OptionalPair keeps each contained value on its own side, loses none, invents none, and maps each variant to the corresponding one. Converting to a tuple or Option form and back gives the same value.',
     ['inputs'], 'all four variants with arbitrary contents of unrelated types',
     'The statement is parametric in the two item types; a test instantiates one pair of types and few variants.',
     ['src/optionals.rs'], [('conversions', 'src/optionals.rs: impl From, convert, map*, get_*, cloned, is_*')])
prop('C20', 'Safe callers cannot alias, outlive or mutate stored items',
     'No safe program can obtain a mutable reference to a stored item, keep a reference or iterator into a map beyond the map\'s life or across a mutation of it, keep a map borrowed by a drain usable at the same time, or move maps and iterators between threads when their contents do not allow it. Every such program is rejected by the compiler, and the ordinary uses next to it are accepted.',
     ['programs'], 'all safe client programs',
     'It is a statement about programs that must not compile; run-time tests only contain programs that do.',
     [CM, PM, GM, 'src/optionals.rs'],
     [('signatures and PhantomData of iterators', CM + ', ' + PM + ', ' + GM + ': struct Iter, SingleIter, DrainIter, DrainFilterIter, PairIter ...')])
prop('C21', 'Capacity management reaches the right sides and never changes contents',
     'with_capacity, reserve, try_reserve, shrink_to and shrink_to_fit act with the requested amount on exactly the sides they name (both for CycleMap), reported capacity is a true lower bound for what fits without reallocation, and a failed try_reserve is reported. None of them, and neither clear nor drain, changes contents other than as documented or gives up allocated tables.',
     ['inputs', 'histories'], 'all reachable maps, all amounts',
     'Amounts and fill states are unbounded; tests check the capacity of a few maps on one side.',
     [CM, PM, GM], [('reserve / shrink', CM + ': reserve, try_reserve, shrink_to, shrink_to_fit; ' + PM + ': reserve_left ... shrink_to_right'), ('capacity / clear', CM + ', ' + PM + ', ' + GM + ': capacity*, clear')])
prop('C22', 'One hash builder hashes everything in a map, also when tables grow',
     'The hash builder a map was created with (or cloned from) stays with it for all operations, is the one returned by hasher, and is used for every stored item, lookup and rehash. Growing or shrinking a table never places an item under a hash other than that of its own value.',
     ['inputs', 'configurations', 'histories'], 'all hash builders and all histories, including those in which tables grow',
     'A wrong hash during growth is only visible with particular sizes and stateful builders; tests use the default builder.',
     [CM, PM, GM, 'src/utils.rs'], [('make_hash / make_hasher', 'src/utils.rs, used at every insert and reserve'), ('hasher', CM + ', ' + PM + ', ' + GM + ': hasher, with_hasher, Clone')])
prop('C23', 'A panicking predicate leaves a consistent map',
     'If the closure passed to retain, retain_paired, retain_unpaired or drain_filter panics at any call, the map is left in a consistent state: pairings are symmetric, every remaining item can be found, and no element other than those already decided for removal is lost.',
     ['fault_sequences', 'inputs'], 'a panic at each predicate call, for all reachable maps and earlier decisions',
     'No test lets a predicate panic.',
     [CM, PM, GM], [('retain / drain_filter', CM + ', ' + PM + ', ' + GM + ': retain*, DrainFilterIter')])
prop('C24', 'Raw table accesses stay within live elements',
     'Every unsafe access to a stored element touches an element that is present at that moment: no element is read, written, returned by reference or removed again after it left its table, and no raw iteration continues over a table in a way that the table does not allow. This holds for every operation on every reachable map.',
     ['inputs', 'histories'], 'all reachable maps, operations, iterator interruptions and drops',
     'Use of a freed slot usually goes unnoticed in a test because the memory still holds the old value.',
     [CM, PM, GM], [('Bucket::as_ref / as_mut / RawTable::remove / erase', CM + ', ' + PM + ', ' + GM + ': every unsafe block')])
prop('C25', 'Debug output lists exactly the elements of a map, iterator or pair',
     'Formatting a map with Debug prints every stored element with its own partner exactly once and nothing else; formatting an iterator prints exactly the elements it has not yet yielded, and formatting an OptionalPair prints exactly the values it holds. Formatting changes neither the map nor what an iterator yields afterwards, and reports an error only if the formatter did.',
     ['inputs', 'histories'], 'all reachable maps, all iterators at every position, all OptionalPair values, failing formatters',
     'Debug output of a non-empty map depends on the table order, so the tests do not compare it; partly used iterators are never formatted.',
     [CM, PM, GM, 'src/optionals.rs'],
     [('Debug for the maps', CM + ', ' + PM + ', ' + GM + ': impl Debug for CycleMap / PartialCycleMap / GroupMap'), ('Debug for the iterators', CM + ', ' + PM + ', ' + GM + ': impl Debug for Iter, SingleIter, PairedIter, UnpairedIter, LeftIter, RightIter, PairIter'),
      ('Debug for OptionalPair', 'src/optionals.rs: impl Debug for OptionalPair')])
prop('C26', 'A conditional operation whose condition fails changes nothing',
     'An operation that reports failure or "nothing to do" (remove of items not paired together, checked swaps with the wrong partner, swaps of an absent item, pair or unpair of items in the wrong state, re-inserting a stored pair) leaves every stored item, object identity and pairing exactly as it was.',
     ['inputs', 'histories'], 'all reachable maps and all arguments for which the condition does not hold',
     'The failing case must be side-effect free for all argument relations; tests check the return value of one failing call.',
     [CM, PM, GM], [('condition checks before mutation', CM + ', ' + PM + ', ' + GM + ': swap_*, remove, pair, unpair, insert_*')])
prop('C27', 'Each item object exists once: moved, never duplicated',
     'Items are moved into and out of maps: an object passed to a map is at any time either stored in exactly one place, handed back to the caller exactly once, or dropped. No operation other than Clone needs or performs a copy of an item.',
     ['inputs', 'programs'], 'all operations, all item types (in particular types that cannot be cloned)',
     'Duplicated ownership (a raw read without a removal) shows as a double free only under particular sequences; tests use Copy-like items.',
     [CM, PM, GM], [('extract / remove from the raw tables', CM + ', ' + PM + ', ' + GM + ': extract(), RawTable::remove_entry, drain')])
prop('C28', 'Leaking a drain or drain_filter leaves a consistent map',
     'If the iterator returned by drain or drain_filter is leaked (mem::forget) at any point of its iteration, the map is left in a consistent, usable state: pairings are symmetric, every stored item can be found, no element already handed out is still stored, and nothing is stored that was not stored before. Elements not handed out may be lost.',
     ['histories', 'inputs'], 'every map and every point of the iteration at which the iterator is leaked',
     'No test leaks an iterator, and the damage shows only in later operations on the map.',
     [CM, PM], [('drain / DrainIter', CM + ', ' + PM + ': drain, DrainIter'), ('drain_filter / DrainFilterIter', CM + ', ' + PM + ': drain_filter, DrainFilterIter, DrainFilterInner')])
prop('C29', 'No undefined behaviour when Hash or Eq misbehave',
     'Whatever the Hash, Eq and Clone implementations of the stored types do (answer inconsistently, differently on every call, or panic), and also on a map that an earlier such panic left half-updated, the safe operations of the maps and their iterators only panic or give arbitrary results: no operation reads, writes, returns or removes an element that has already left its table, follows a bucket or raw iterator into a table that has changed underneath it, or reaches code that it declares unreachable (unwrap_unchecked, unreachable_unchecked and the like).',
     ['inputs', 'fault_sequences', 'histories'], 'every map content, every answer of the user\'s Hash and Eq at every call, a panic at every call',
     'Tests use well-behaved key types; an unchecked assumption about them is invisible until a key type breaks it.',
     [CM, PM, GM], [('find(..).unwrap() on the partner of an element', CM + ', ' + PM + ', ' + GM + ': every lookup of a partner'), ('Bucket::as_ref / as_mut / RawTable::remove', CM + ', ' + PM + ', ' + GM + ': every unsafe block')])
prop('C30', 'Every operation terminates',
     'On every reachable map, including maps of items whose hashes all collide, every operation of the three maps returns or panics after finitely many steps: constructors, queries, updates, retain, drain, drain_filter, iterators at every position and the drop of a partly used iterator. This assumes that the user\'s Hash, Eq, Clone, closures and source iterators return and that the sources end.',
     ['inputs', 'histories'], 'all reachable maps, all collision patterns, iterators dropped at any point',
     'A loop that waits for an element which never comes needs a particular collision or leftover state; tests with distinct hashes pass.',
     [CM, PM, GM], [('loops over raw iterators and sources', CM + ', ' + PM + ', ' + GM + ': next of every iterator, retain, extend, Drop for DrainFilterIter'), ('lookups by stored hash', CM + ', ' + PM + ', ' + GM + ': get_mut/find/remove_entry')])
prop('C31', 'Behaviour does not depend on the build configuration',
     'Every public operation of the three maps behaves as specified, and in the same way, in a build with debug assertions and in a release build without them, and with and without the optional serde feature: no effect that an operation needs happens only in one of these builds, and no operation fails only in one of them.',
     ['configurations', 'inputs'], 'builds with/without debug assertions x with/without the serde feature, every input',
     'The tests run in one configuration; a statement that is compiled out of a release build leaves them green.',
     [CM, PM, GM, 'src/optionals.rs', 'src/lib.rs'], [('every statement under a debug assertion or a cfg', CM + ', ' + PM + ', ' + GM), ('the serde feature', 'src/lib.rs, src/serde.rs')])

prop('N01', 'Lookups, insertions and removals take expected constant time',
     'Every single-item operation takes expected O(1) time in the number of stored items for well distributed hashes.',
     ['inputs'], 'all map sizes', 'Running time on all sizes cannot be sampled.',
     [CM, PM, GM], [('hash lookups', CM + ', ' + PM + ', ' + GM)])
prop('N02', 'A serialized map deserializes to an equal map through every data format',
     'Serializing a CycleMap with any serde format and deserializing the result gives an equal map.',
     ['inputs', 'configurations'], 'all serde data formats and item types', 'Tests use one format.',
     ['src/serde.rs'], [('Serialize / Deserialize', 'src/serde.rs')])
prop('N03', 'A panicking user Hash, Eq, Clone or allocator leaves a consistent map',
     'If the user\'s Hash, Eq or Clone implementation or the allocator panics inside an operation, the map is left consistent: pairings are symmetric and every stored item can be found. (That it stays memory safe is C29.)',
     ['fault_sequences'], 'every user callback invocation', 'No test injects such panics.',
     [CM, PM, GM], [('multi-step updates', CM + ', ' + PM + ', ' + GM)])
prop('N04', 'Ids stay unique over arbitrarily long histories',
     'The internal ids that tell pairs apart never repeat, even after 2^64 insertions.',
     ['histories'], 'histories longer than 2^64 operations', 'Not reachable by a test.',
     [CM, PM, GM], [('counter', CM + ', ' + PM + ', ' + GM)])
if __name__ == '__main__':
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps(p) + '\n')
