"""Writes /verif/properties.jsonl (kept as a script so the entries stay readable)."""
import json, os

L = 'src/sortedcontainers/sortedlist.py'
D = 'src/sortedcontainers/sorteddict.py'
S = 'src/sortedcontainers/sortedset.py'

P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text),
        why_tests_cant=why,
        anchors=dict(
            files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mechanism],
            observe_at=list(observe), hook_needed=hook),
    ))


prop('C01', 'Sorted lists keep exactly the stored values, in ascending order',
     'After any history of additions, bulk updates, removals by value, by index or by slice, in-place concatenation and repetition, clears and load-factor resets, '
     'a sorted list (plain or with a key function) iterates forwards in ascending (key) order and backwards in the reverse of that. '
     'It holds exactly the values that were added and not removed, with multiplicity (no value is lost, duplicated, or replaced by another object), and its length says so.',
     ['histories', 'inputs', 'configurations'],
     'all sequences of mutators, all totally ordered value types with any number of duplicates, all load factors >= 4 including the default',
     'The stress tests draw distinct random floats at one load factor and check only self-consistency (_check), not conservation against an independent model; duplicates, mixed types and boundary sizes are hardly reached.',
     [L],
     [('add/_expand split', f'{L}:SortedList.add,_expand'), ('_delete merge', f'{L}:SortedList._delete'), ('bulk update', f'{L}:SortedList.update'), ('key variants', f'{L}:SortedKeyList.add,_expand,_delete,update')],
     [('_lists', 'sorted sublists', L), ('_maxes', 'largest value of each sublist', L), ('_len', 'number of values', L)],
     ['return values and iteration of the public API'])

prop('C02', 'Positional access agrees with a plain sorted list',
     'At every moment, reading by index (positive, negative, boolean), reading by slice (any start, stop, step), pop(i), deleting by index or slice, on a sorted list give the result, the remaining contents and the IndexError that a plain Python list of the same values in the same order would give. '
     'This holds however many additions, removals, splits and merges came between positional reads.',
     ['histories', 'inputs', 'configurations'],
     'all interleavings of mutation and positional access, all indices and slices, all sizes, segment counts and load factors',
     'The positional index is maintained incrementally and rebuilt lazily; tests interleave few shapes of mutation with few index reads and small fixed slices.',
     [L],
     [('Jenks index', f'{L}:SortedList._pos,_loc,_build_index'), ('incremental index updates', f'{L}:_expand,_delete'), ('slice paths', f'{L}:__getitem__,__delitem__'), ('pop fast paths', f'{L}:pop')],
     [('_index', 'tree of pairwise segment-length sums', L), ('_offset', 'start of the leaf row', L)],
     ['results of __getitem__, __delitem__, pop'])

prop('C03', 'Searching by value gives the exact ranks, counts and membership',
     'bisect_left, bisect_right (and its alias bisect), count, index with any start and stop, and the in operator on a sorted list give exactly what the same question on a plain sorted Python list gives (bisect module, list.count, list.index), for stored and absent values, at every moment of any history. '
     'A value counts as present if and only if it equals a stored value.',
     ['histories', 'inputs', 'configurations'],
     'all histories, all probe values (present, absent, extreme, falsy, equal but of another type), all start/stop bounds including negative and out of range, runs of duplicates crossing segments',
     'Tests use a handful of lists without long duplicate runs across segments and few start/stop bounds.',
     [L],
     [('two-level bisect', f'{L}:bisect_left,bisect_right,__contains__'), ('rank through positional index', f'{L}:_loc'), ('count/index', f'{L}:count,index')],
     [('_maxes', 'largest value of each sublist', L), ('_index', 'tree of segment-length sums', L)],
     ['results of the lookup methods'])

prop('C04', 'Range and slice iterators yield exactly the requested stretch',
     'irange and islice (and irange_key where there is a key function) yield exactly the stored values between the given bounds, in ascending order or, with reverse=True, in descending order, for every combination of open, closed and missing bounds and of start and stop positions. '
     'Empty, inverted and out-of-range intervals yield nothing, and this holds for sorted lists, sorted dicts and sorted sets.',
     ['histories', 'inputs', 'configurations'],
     'all contents and segmentations, all bound pairs (stored, absent, falsy, inverted), the four inclusive flags, both directions',
     'Tests run a few ranges of consecutive integers; bounds falling between segments, inside duplicate runs or at falsy values are not covered.',
     [L, D, S],
     [('bound search', f'{L}:irange,irange_key'), ('position pairs', f'{L}:islice,_islice')],
     [('_lists', 'sorted sublists', L)],
     ['values yielded by irange, irange_key, islice, iter, reversed'])

prop('C05', 'Key-ordered lists order by key but identify values by equality',
     'A sorted list with a key function orders and searches by the key alone, while membership, count, index, remove and discard act only on a stored value equal to the argument, choosing the first such value and never another value that merely has the same key. '
     'bisect_key_left, bisect_key_right, bisect_key, and their value-based forms give the ranks of the key among the stored keys, and values need neither be orderable nor hashable.',
     ['histories', 'inputs', 'configurations'],
     'all key functions (including constant, many-to-one, order-reversing ones and ones with composite or custom keys), all histories, equal-key runs crossing segments',
     'Tests use two key functions on small integers, for which equal keys with unequal values across segment borders barely occur.',
     [L],
     [('equal-key scan', f'{L}:SortedKeyList.__contains__,discard,remove,count,index'), ('parallel key lists', f'{L}:SortedKeyList.add,_delete,_expand,update'), ('key bisect', f'{L}:bisect_key_left,bisect_key_right')],
     [('_keys', 'keys parallel to the sublists', L), ('_maxes', 'largest key of each sublist', L)],
     ['results of the SortedKeyList API'])

prop('C06', 'Equal-ordered values stay in insertion order',
     'Among values that compare equal (or, with a key function, have equal keys), iteration order is the order in which they were inserted, whether they came one at a time, in small or large bulk updates, or in the constructor. '
     'Later operations - removals of other values, copying, pickling, load-factor resets - never reorder or exchange them; in a sorted dict the same holds for keys with equal key-function values.',
     ['histories', 'inputs', 'configurations'],
     'all mixes of single and bulk insertion, all tie patterns, all segmentations',
     'The guarantee (release 2.3.0) is tested on one example of a large update; ties across splits, merges and mixed insertion paths are not.',
     [L, D],
     [('insert right of equals', f'{L}:add'), ('stable sort in bulk update', f'{L}:update'), ('dict insertion order on rebuild', f'{D}:update')],
     [('_lists', 'sorted sublists', L)],
     ['identity of iterated objects'])

prop('C07', 'A sorted dict is a dict whose order is the sorted order of its keys',
     'Under any history, every mapping operation of a sorted dict (get, set, delete, pop with and without default, setdefault, update from mappings, pairs and keywords, |, |=, reflected |, fromkeys, clear, in, len, ==, __missing__ hooks) returns, raises and leaves stored exactly what the same operation on a built-in dict would. '
     'Iterating it or its views always visits exactly the stored keys, each once, in ascending (key-function) order.',
     ['histories', 'inputs', 'configurations'],
     'all histories of mapping operations, all key types, key functions, values (including None and other falsy ones) and argument forms, all size ratios between dict and update',
     'Tests exercise each method on a small dict; the bulk-versus-single update switch and the agreement of dict and key list over long histories are sampled by one stress test with integer keys.',
     [D, L],
     [('dict + key list kept in step', f'{D}:__setitem__,__delitem__,pop,popitem,setdefault,update,clear'), ('merge operators', f'{D}:__or__,__ror__,__ior__')],
     [('_list', 'sorted list of the keys', D), ('dict storage', 'the items', D)],
     ['results of the mapping API and iteration order'])

prop('C08', 'Sorted dict positions and views always mirror the current items',
     'Keys, items and values views taken at any time, and the position-based methods of a sorted dict (peekitem, popitem(i), index, bisect family), always reflect the current items in key order: lengths, membership, indexing, slicing, count, index, reverse iteration, set operations (where the members involved can be ordered) and comparisons equal those of the corresponding plain list or set of keys, items or values. '
     'Deleting an index or slice through a view removes exactly those items from the dict.',
     ['histories', 'inputs', 'configurations'],
     'all histories of mutation with views and bound methods held from before, all indices, slices and operand types',
     'Tests query freshly made views on static small dicts; views held across histories and deletions by slice are not examined.',
     [D],
     [('view indexing', f'{D}:SortedKeysView,SortedItemsView,SortedValuesView.__getitem__'), ('view deletion', f'{D}:_view_delitem'), ('re-exposed list methods', f'{D}:__init__'), ('peek/pop', f'{D}:peekitem,popitem')],
     [('_mapping', 'the viewed sorted dict', D), ('_list', 'sorted list of keys', D)],
     ['results of the view and position API'])

prop('C09', 'A sorted set implements exact set algebra',
     'Union, intersection, difference and symmetric difference - as methods with any number of iterables, operators, reflected operators and in-place forms - as well as add, discard, remove, clear, in, len, isdisjoint, issubset and issuperset on a sorted set leave and return exactly the members that a built-in set given the same values would; the operators accept any iterable, like the methods. '
     'Members that stay are the same objects: merging in or subtracting equal values never exchanges a member the receiver already had. '
     'In-place forms modify and return the same object and others leave it unchanged.',
     ['histories', 'inputs', 'configurations'],
     'all histories, all operand kinds (sets, frozensets, sorted sets, dict views, lists, generators, the set itself), all size ratios between set and operand',
     'Tests use one pair of small overlapping ranges per operation, so size-dependent code paths and operand kinds are hardly combined.',
     [S],
     [('set operations', f'{S}:difference,intersection,symmetric_difference,union,update and *_update'), ('bulk/single switch', f'{S}:update,difference_update'), ('new sets', f'{S}:_fromset')],
     [('_set', 'hash set of the values', S)],
     ['membership and return values'])

prop('C10', 'A sorted set is at all times a duplicate-free ordered sequence of its members',
     'After any history, iterating a sorted set visits each member exactly once in ascending (key) order, and indexing, slicing, reversed, pop(i), deletion by index or slice, index, count, bisect methods, irange and islice all describe that same sequence. '
     'Membership, length and order never disagree, including through methods of the set obtained before the latest changes.',
     ['histories', 'inputs', 'configurations'],
     'all histories mixing set operations and positional operations, all key functions, load factors and sizes',
     'Membership and order live in two structures updated by separate statements; tests check their agreement after single operations on small ranges of integers.',
     [S, L],
     [('paired updates', f'{S}:add,discard,pop,remove,__delitem__,clear'), ('rebuild of the list', f'{S}:update,intersection_update,difference_update,symmetric_difference_update'), ('re-exposed list methods', f'{S}:__init__')],
     [('_set', 'hash set of the values', S), ('_list', 'sorted list of the values', S)],
     ['results of the sequence API against membership'])

prop('C11', 'A failing operation never corrupts a container',
     'When an operation raises because a given value cannot be hashed, compared with stored values or mapped by the key function, an argument iterable raises part-way, or an argument has the wrong shape, the container stays fully usable: order, membership, length, positions and lookups all still agree with one another. '
     'No previously stored value or item is lost or altered (unless the operation was itself removing or overwriting it) and nothing appears that the call did not offer; single-value operations have no effect at all when they fail, and the exception raised by the value, key function or iterable comes out of the operation.',
     ['fault_sequences', 'histories', 'inputs'],
     'every failing argument position, every failing comparison partner, every mutating operation, any prior history',
     'No existing test makes an insertion or update fail part-way and looks at the container afterwards.',
     [L, D, S],
     [('validate before mutate', f'{L}:add,update'), ('paired updates', f'{S}:add,update,symmetric_difference_update'), ('paired updates', f'{D}:__setitem__,setdefault,update')],
     [('_lists/_maxes/_len', 'list structure', L), ('_set/_list', 'set structure', S), ('dict/_list', 'dict structure', D)],
     ['all read access after a caught exception'])

prop('C12', 'Copies and round trips reproduce the container',
     'copy(), copy.copy, copy.deepcopy, every pickle protocol and, where the contents have evaluable reprs and there is no key function, eval(repr(x)) give an object of the same class with equal contents in the same order and the same key function. '
     'The result works fully and is independent: later changes to either never show in the other, shallow copies share the value objects and deep copies do not, and objects a deep-copied or pickled container shares with other parts of the same structure stay shared. '
     '(A sorted set promises no order among members of equal key; containers holding themselves are not meant.)',
     ['histories', 'inputs', 'configurations'],
     'all container classes and subclasses, all contents and histories before the copy, all pickle protocols, any later history on either side',
     'Tests round-trip one container per class with the default protocol and only compare equality directly afterwards.',
     [L, D, S],
     [('reduce', f'{L},{D},{S}:__reduce__'), ('copy', f'{L},{D},{S}:copy'), ('repr', f'{L},{D},{S}:__repr__')],
     [('cached bound methods', 'per-instance references to internal list/set methods', f'{D},{S}:__init__')],
     ['the reproduced object, and both objects under later histories'])

prop('C13', 'Operations never alter operands nor share storage with results',
     'An operation that returns a new container, list or iterator leaves the receiver unchanged, every operation, in-place ones included, leaves its arguments unchanged, and later changes to the receiver, the result, an operand or a returned list never show through in the others. '
     'Arguments that alias the receiver - itself, its views, or lazy iterators and generators over it - act as if fully read before the operation began.',
     ['inputs', 'histories'],
     'all operations and operators of all three containers, all operand kinds including self-aliasing ones, all segment counts (in particular a single segment)',
     'Tests look at the result of an operation, hardly ever at its operands afterwards, and do not pass a container to itself.',
     [L, D, S],
     [('fresh accumulator in concatenation', f'{L}:__add__,__mul__,__getitem__,_reset'), ('materialise first', f'{L}:update, {S}:update,difference_update'), ('copying', f'{S}:copy,_fromset; {D}:__or__')],
     [('_lists', 'sublists that must not leak', L)],
     ['operands and results after the operation and after later mutation'])

prop('C14', 'Comparison operators follow sequence, subset and mapping semantics',
     'Between a sorted list and any sequence, ==, !=, <, <=, >, >= give the lexicographic answer the corresponding Python lists give; between a sorted set and any set they give the subset/superset answer; a sorted dict equals a mapping exactly when they hold the same items, whatever the orders. '
     'Comparison with objects of unrelated types is unequal for == and a TypeError for ordering, and the two directions of a comparison always agree.',
     ['inputs', 'configurations'],
     'all pairs of contents (prefixes, equal, differing in one place, empty, different lengths), all operand types, both directions',
     'Tests compare a few fixed small containers per operator.',
     [L, S, D],
     [('sequence comparison', f'{L}:__make_cmp'), ('set comparison', f'{S}:__make_cmp'), ('dict equality', f'{D}: inherited from dict')],
     [],
     ['results of the six comparison operators'])

prop('C15', 'Lookups and single updates stay logarithmic and segments stay balanced',
     'On a container of n values, adding, removing, discarding, finding, ranking or counting one value makes O(log n) comparisons (plus one per value of equal key when there is a key function) and a constant number of key-function calls; positional reads make no comparison and no size-proportional allocation or traversal once the positional index exists, which single additions and removals keep up to date unless a segment splits or merges; starting an iteration, over everything or a range, costs no more than that. '
     'A bulk update of k values makes O((k) log (n+k)) comparisons, dict and set lookups by hash make no ordering comparison, and no internal segment grows past twice the load factor nor, the last one excepted, stays under half of it.',
     ['histories', 'inputs', 'configurations'],
     'all histories, sizes and load factors, ascending, descending, random and duplicate-heavy input',
     'Tests check results, never the work done; a linear scan, a needless rebuild or a lost split passes all of them.',
     [L, D, S],
     [('two-level bisect', f'{L}:add,bisect_left,bisect_right,__contains__,irange'), ('split and merge', f'{L}:_expand,_delete'), ('incremental positional index', f'{L}:_pos,_loc,_build_index'), ('bulk switch', f'{L}:update')],
     [('_load', 'load factor', L), ('_lists', 'segments', L), ('_index', 'positional index', L)],
     ['counts of comparisons, key calls, interpreter steps and allocated bytes per operation'])

prop('C16', 'Removed values are released and dropped containers are reclaimed at once',
     'A container holds references to exactly the values (keys, and key-function results) it stores: once a value has been removed by any operation, or replaced, the container no longer keeps it alive, and values still stored stay alive. '
     'Dropping the last reference to a container, whatever was done with it before (short of the deprecated iloc, documented to cache a view inside the dict), frees it and its contents immediately by reference counting, without the cyclic garbage collector.',
     ['histories', 'inputs'],
     'all removal paths (by value, index, slice, set operation, clear, update, reset) over all histories, all container classes',
     'No test looks at object lifetime; a stale reference in an internal index or a self-reference in a cached method changes no result.',
     [L, D, S],
     [('maxes refreshed on delete', f'{L}:_delete'), ('cached methods bound to inner objects, not to self', f'{D}:__init__, {S}:__init__'), ('clear', f'{L},{D},{S}:clear')],
     [('_maxes', 'largest value of each sublist', L), ('_keys', 'keys', L)],
     ['weak references to values, keys and containers'])

prop('C17', 'The load factor never affects results',
     'The load factor, set through a reset at any moment or by a subclass default, only tunes performance: two containers driven by the same history under different load factors and reset moments return the same result from every operation and hold the same contents in the same order. '
     'Resetting changes neither contents nor order and leaves the container fully functional.',
     ['histories', 'configurations'],
     'all load factors >= 4, all moments of reset, all histories, all container classes',
     'Tests reset fresh containers to one fixed load factor each and never compare load factors with one another.',
     [L, D, S],
     [('reset', f'{L}:_reset'), ('default load factor', f'{L}:DEFAULT_LOAD_FACTOR'), ('split/merge thresholds', f'{L}:_expand,_delete,update')],
     [('_load', 'load factor', L)],
     ['lock-step comparison of all results'])

prop('C18', 'The built-in consistency check accepts good and rejects corrupted state',
     'The documented self-check of every container passes silently, with no side effect, in every state reachable through the public API. '
     'It raises AssertionError when the container has been corrupted: stored values or keys changed so that they are out of order, items put into or taken from only one of the two underlying structures, or its length, segment, maximum, key or position bookkeeping damaged.',
     ['histories', 'inputs'],
     'all reachable states, all kinds of corruption at all positions',
     'Tests call the check on sound containers and on a couple of hand-made corruptions.',
     [L, D, S],
     [('_check', f'{L}:SortedList._check,SortedKeyList._check'), ('_check', f'{D}:_check'), ('_check', f'{S}:_check')],
     [('_lists,_maxes,_keys,_index,_len,_load', 'checked bookkeeping', L)],
     ['outcome of _check() on sound and on damaged containers'])

prop('C19', 'Impossible requests raise the documented error and change nothing',
     'Removing or indexing an absent value, key or position raises exactly the documented exception (ValueError for lists, KeyError for sets and dicts, IndexError for positions, KeyError for popitem on an empty dict), discard and pop with default do not raise, and the position-assigning list methods (item assignment, append, extend, insert, reverse) always raise NotImplementedError. '
     'A key argument to a non-key list subclass is a TypeError, unhashable keys and members are a TypeError, an operator given an operand it cannot work with is a TypeError, and none of these failing calls alters the container.',
     ['inputs', 'histories'],
     'all absent values and keys (smaller, larger, between, equal key but unequal value), all out-of-range positions, all container states including empty and single-valued',
     'Tests try a few absent values on a few containers and rarely inspect the container after the error.',
     [L, D, S],
     [('error paths', f'{L}:remove,index,pop,_pos,__setitem__,append,extend,insert,reverse'), ('error paths', f'{D}:__delitem__,pop,popitem,peekitem'), ('error paths', f'{S}:remove,pop,__delitem__')],
     [],
     ['exception types and contents afterwards'])

prop('C20', 'Derived containers keep the class and the key function',
     'A container derived from another one by copying, concatenation, repetition (from either side), set operators and methods (from either side), dict merging or unpickling has the same class, including user subclasses, and the same key function, and is ordered by it. '
     'Constructing a sorted list with a key function gives a key-ordered list, the key attribute reports that function, and values that are only orderable through the key function work in every such operation.',
     ['inputs', 'configurations', 'histories'],
     'all operators in both operand orders, all key functions, all classes and subclasses',
     'Tests check contents of a few results; class and key function of results, and reflected operators with a key function, are not checked.',
     [L, D, S],
     [('self.__class__(values, key=self._key)', f'{L}:SortedKeyList.__add__,__mul__,copy'), ('_fromset', f'{S}:_fromset'), ('self.__class__(self._key, items)', f'{D}:copy,__or__,__ror__'), ('key dispatch', f'{L}:SortedList.__new__')],
     [('_key', 'key function', f'{L},{D},{S}')],
     ['type, key and order of results'])

prop('C21', 'Observable state depends only on contents, not on history or hashing',
     'Two containers of the same class and key function that hold the same values or items, with no ties in the ordering, are indistinguishable through the public API: iteration, repr, positions, ranges, comparison results and the further effect of any operation are the same, whichever histories led there. '
     'In particular nothing observable depends on hash values, hash randomisation or insertion order.',
     ['histories', 'configurations'],
     'all pairs of histories with the same outcome, all hash seeds, all container classes',
     'The test suite runs each history once, under one fixed hash seed.',
     [L, D, S],
     [('order comes from the sorted list only', f'{D}:__iter__,keys,items,values; {S}:__iter__,__getitem__,pop')],
     [('_list', 'sorted list beside the hash structure', f'{D},{S}')],
     ['transcripts of pairs of containers and of processes with different hash seeds'])

prop('C22', 'Iterators are independent of each other and undisturbed by reads',
     'Any number of iterators over one unchanged container - forward, reversed, over a range of values, keys or positions, over views - can be advanced in any interleaving, with any reads, copies, comparisons and look-ups in between: each yields exactly the stored objects of its range in its order, once each, and then stays exhausted. '
     'Reading never changes what the container holds, and an iterator keeps working when the container itself is no longer referenced.',
     ['schedules', 'histories', 'inputs'],
     'all interleavings of any number of iterators of all kinds with all read-only operations, on containers of any history',
     'Tests exhaust one iterator at a time with nothing in between.',
     [L, D, S],
     [('lazy iterators', f'{L}:__iter__,__reversed__,islice,irange,_islice'), ('lazily built index', f'{L}:_pos,_loc,_build_index'), ('view iterators', f'{D}:SortedKeysView,SortedItemsView,SortedValuesView')],
     [('_index', 'positional index built by reads', L)],
     ['objects yielded by every step of every iterator, and contents before and after'])

prop('C23', 'The text form shows the whole contents, also of self-containing containers',
     'repr of a container shows its class name, the repr of every current item in order and, if there is one, the key function, in the documented constructor form, after any history; str and format agree with it, and views show their items likewise. '
     'A container that directly or indirectly contains itself shows that occurrence as "..." and nothing else so - a container merely occurring several times is shown in full each time; an element repr that raises, or repr running in another thread, leaves later text forms unaffected.',
     ['histories', 'inputs', 'schedules'],
     'all contents and histories, all graphs of containers referring to each other, element reprs that raise, concurrent repr of one container',
     'Tests compare repr of a few flat containers and one self-reference per class.',
     [L, D, S],
     [('recursive_repr guarded', f'{L}:SortedList.__repr__,SortedKeyList.__repr__'), ('__repr__', f'{D}:__repr__'), ('__repr__', f'{S}:__repr__')],
     [],
     ['text of repr, str and format'])

prop('C24', 'Memory stays proportional to the contents',
     'The memory a container holds, beyond its values, is within a constant per value it currently stores (plus its hash table, for sets and dicts), whatever was done with it before: work repeated on it - growing and shrinking, reads, failing calls, resets - does not accumulate memory, removals give segment storage back, and clear leaves next to nothing.',
     ['histories'],
     'all histories, all container classes, all load factors',
     'No test measures memory; a log of operations, a spare segment kept, or an index never dropped changes no result.',
     [L, D, S],
     [('segments merged', f'{L}:_delete'), ('index rebuilt or dropped', f'{L}:_build_index,_expand,_delete'), ('clear', f'{L},{D},{S}:clear')],
     [('_lists,_maxes,_keys,_index', 'list storage', L)],
     ['allocator read-outs between phases'])

prop('C25', 'Language and standard library see the sorted contents',
     'A sorted list, set or dict handed to the constructs of the language and to the standard library - unpacking, matching, truth value, constructors and joins, keyword calls, itertools, heapq, bisect, random, json, ChainMap, ... - behaves as a plain list of its contents, or a dict built in sorted order, would. '
     'The containers are instances of the abstract base classes they implement (MutableSequence; MutableSet and Sequence; MutableMapping and dict), are unhashable, and are false exactly when empty.',
     ['inputs', 'histories'],
     'all contents and histories, all consumers that use the sequence, set or mapping protocols',
     'Tests call methods directly and do not hand the containers to other code.',
     [L, D, S],
     [('sequence protocol', f'{L}:__iter__,__len__,__getitem__,__reversed__,__contains__'), ('mapping protocol', f'{D}:__iter__,keys,__getitem__'), ('set protocol', f'{S}:__iter__,__len__,__contains__')],
     [],
     ['results of the consumers'])

prop('C26', 'Reads may overlap in threads and be interrupted',
     'As long as nothing modifies a container, any operations that only read it or derive new containers from it - look-ups, positions, ranges, counts, iteration, comparison, copies, set algebra, text form, pickling - may run in several threads at the same time, switching anywhere: each returns what it would return alone. '
     'Likewise a read interrupted at any point by an asynchronous exception (KeyboardInterrupt, a timeout) leaves the container with the same contents in the same order and fully working.',
     ['schedules', 'crash_points', 'histories'],
     'all read-only operations on all containers in all states (positional index built or not), all interleavings of reading threads at instruction granularity, all points of interruption',
     'No test uses threads or interrupts an operation; the windows are a few instructions wide.',
     [L, D, S],
     [('index built lazily by reads', f'{L}:_build_index'), ('index used by reads', f'{L}:_pos,_loc')],
     [('_index, _offset', 'positional index, written by reads', L)],
     ['results of reads, and the container through every access path afterwards'])

prop('C27', 'Containers are independent of one another',
     'What an operation returns, and what it does to its container, never depends on containers that are neither its receiver nor among its arguments, and never touches them: '
     'several containers - of the same class, of different classes, with or without keys - may be used side by side, inside one another\'s key functions, comparisons, hashes and argument iterators, '
     'or modified in different threads at the same time (each container by one thread), and every operation returns and does what it would alone.',
     ['schedules', 'histories', 'inputs'],
     'all operations, reading and modifying, on all pairs of distinct containers of all classes; all interleavings of threads at instruction granularity, all nestings of one container\'s operations inside the callbacks of another\'s',
     'Every test works on one container at a time in one thread; scratch space shared by accident (a default argument, a class attribute, a module global) shows only when two containers are at work at once.',
     [L, D, S],
     [('bulk construction and rebuilding', f'{L}:update,_expand,_delete'), ('in-place set operations', f'{S}:SortedSet'), ('no state outside instances', f'{L}:SortedList.__init__')],
     [('_lists, _maxes, _index, _offset, _load', 'per-instance state', L)],
     ['results of every operation, and contents of every container afterwards'])

path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(path, 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
print(len(P), 'properties')
