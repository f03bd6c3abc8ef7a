#!/usr/bin/env python3
"""Single source for /verif/properties.jsonl (run by hand when the list changes)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

prop("C01", "Refused memory is reported as an error, never an abort or panic",
 "Every operation of the crate whose signature returns a result with an allocation error returns that error when any one of the memory requests it makes is refused (or when the requested size overflows); it never aborts the process, panics, hangs or carries on as if it had succeeded. When no request is refused and the size is representable, the same call succeeds.",
 ["fault_sequences", "inputs"],
 "for every fallible operation, every small starting state, every position k in the operation's sequence of memory requests (only the k-th refused, and all from the k-th on refused), and every overflowing size",
 "The unit tests only ask for absurd sizes (usize::MAX), so only the very first request of a handful of operations is ever refused; later requests (second allocation of an Rc, an inner clone, a tree split, a rehash) are never refused.",
 ["src/vec.rs", "src/boxed.rs", "src/rc.rs", "src/arc.rs", "src/hashmap.rs", "src/format.rs", "src/btree/map.rs", "src/btree/set.rs", "src/btree/node.rs"],
 [("reserve before infallible std call", "src/vec.rs impl FallibleVec for Vec"), ("box through try_reserve_exact", "src/boxed.rs FallibleBox::try_new"), ("node allocation through FallibleBox", "src/btree/node.rs")],
 observe=["return value of each call", "process exit status", "global allocator calls"])

prop("C02", "A failed vector operation leaves the vectors as they were",
 "When a growing operation on a vector (push, insert, append, reserve, resize, extend, with or without give-back) reports that memory could not be obtained, every vector involved still holds exactly the elements it held before, in the same order, and the give-back forms return the very element that was passed in. When cloning of an element fails half-way the vector holds its old elements followed by a prefix of the new ones, and it can be used normally afterwards.",
 ["fault_sequences", "inputs", "histories"],
 "for every vector length and spare capacity up to the bound, every operation and argument, every failing memory request and every failing element clone, followed by every further operation",
 "No test looks at a vector after a failed call, and no test makes an element clone fail.",
 ["src/vec.rs"],
 [("reserve-then-mutate order", "src/vec.rs FallibleVec for Vec"), ("length published per written element", "src/vec.rs try_extend_from_slice_no_copy, try_extend_with")],
 state=[("len/capacity", "published length and spare room", "alloc::vec::Vec")],
 observe=["elements and length after Err", "returned element"])

prop("C03", "Fallible vector operations mean what their std counterparts mean",
 "Whenever a vector operation succeeds, the resulting contents, length, order and returned values are those of the standard library operation of the same name applied to the same arguments, for Vec and for the TryVec wrapper alike (push, insert, append, resize in its three forms, extend, truncating resize, clear, pop, clone, concat, conversions, iteration, comparison, write).",
 ["histories", "inputs"],
 "for every sequence of operations up to the bounded depth, over every small length/capacity/content state and every argument including the boundary positions (0, len, capacity)",
 "Each test runs one operation on one hand-picked vector; the interplay of spare capacity, zero-length arguments and previous operations is not covered, and several operations (insert, append, resize_no_copy, resize_with, concat, give-back, write) have no test at all.",
 ["src/vec.rs"],
 [("delegation to alloc::vec::Vec", "src/vec.rs"), ("hand written extend/truncate loops", "src/vec.rs TryExtend, Truncate, try_extend_from_slice_no_copy")],
 observe=["contents and length after each step", "return values"])

prop("C04", "Reservations hold and growth is bounded",
 "After a successful reservation of n more elements (reserve, with-capacity, resize or read reservation), adding n elements makes no further memory request; operations that fit in the present capacity make none either; and a run of single pushes makes a number of requests logarithmic in the number pushed.",
 ["histories", "inputs"],
 "for every starting length/capacity up to the bound, every n, every way of adding the n elements afterwards, several element sizes including zero-sized ones",
 "Tests compare a capacity number once; none counts the memory requests made after a reservation, which is what a caller who must not fail later relies on.",
 ["src/vec.rs", "src/hashmap.rs", "src/format.rs"],
 [("needs_to_grow", "src/vec.rs"), ("try_with_capacity", "src/vec.rs"), ("reserve", "src/hashmap.rs")],
 observe=["global allocator call counts"])

prop("C05", "Every element is dropped exactly once and all memory is returned",
 "In every history of successful and failing operations on vectors, boxes, shared pointers and hash maps, each element handed to the crate or cloned by it is destroyed exactly once or handed back to the caller, and once the containers are gone every block of memory obtained has been released exactly once with the size and alignment it was requested with.",
 ["histories", "fault_sequences"],
 "for every operation sequence up to the bounded depth and every single failing memory request or failing clone within it",
 "Tests use plain integers and never count destructions or outstanding memory; an element forgotten or destroyed twice on an error path changes nothing they look at.",
 ["src/vec.rs", "src/boxed.rs", "src/rc.rs", "src/arc.rs", "src/hashmap.rs", "src/try_clone.rs"],
 [("ptr::write + set_len loops", "src/vec.rs"), ("ManuallyDrop of the boxed slice", "src/boxed.rs"), ("reverse truncation", "src/vec.rs Truncate")],
 observe=["element destructor calls", "allocator block ledger"])

prop("C06", "BTreeMap behaves as a sorted map after every history",
 "After any sequence of insertions, removals, entry-style updates and clears, the B-tree map and set report exactly the contents, order, length, membership, lookups and previous values that an ideal sorted map would, whatever arrangement of nodes the history has produced; which of two equal keys is kept follows the standard library's rule for each operation.",
 ["histories", "inputs"],
 "for every reachable arrangement of tree nodes up to the bounded size (found by breadth-first search over insert/remove at every rank), every next operation at every rank, and for three-level trees with every combination of inner-node fill",
 "The doc tests use maps of at most a few keys, i.e. a single leaf; splitting, merging and stealing between nodes, and the inner-node variants of these, are never executed.",
 ["src/btree/map.rs", "src/btree/node.rs", "src/btree/search.rs", "src/btree/set.rs"],
 [("insert with node split", "src/btree/node.rs Handle::insert/split"), ("remove with merge/steal", "src/btree/map.rs remove_kv, handle_underfull_node"), ("parent links", "src/btree/node.rs correct_parent_link")],
 state=[("node fill and height", "tree shape", "src/btree/node.rs"), ("length", "cached element count", "src/btree/map.rs")],
 observe=["get/len/iter/range results", "returned previous values"])

prop("C07", "A failed B-tree insertion changes nothing",
 "When an insertion into a B-tree map or set (directly, through an entry, or by set replacement) or a split or clone of it reports that memory could not be obtained, the map still holds exactly the entries and length it had, stays fully usable, and the rejected key and value are destroyed once; repeating the call with memory available succeeds with the normal outcome.",
 ["fault_sequences", "histories"],
 "for every reachable arrangement of nodes up to the bounded size and chosen three- and four-level trees with full nodes on the insertion path, every insertion position, and every failing memory request of the insertion (leaf split, inner split, new root)",
 "No test makes a B-tree allocation fail; an insertion that splits several levels makes several requests and any of them may be refused after others succeeded.",
 ["src/btree/map.rs", "src/btree/node.rs", "src/btree/set.rs"],
 [("VacantEntry::try_insert", "src/btree/map.rs"), ("split", "src/btree/node.rs"), ("push_level", "src/btree/node.rs"), ("ensure_root_is_owned", "src/btree/map.rs")],
 state=[("length", "cached element count", "src/btree/map.rs")],
 observe=["contents, len and iteration after Err", "later operations"])

prop("C08", "Appending and splitting B-trees move every entry exactly once",
 "Appending one map or set to another yields the union in which the appended entry wins on equal keys and leaves the other empty; splitting at a key leaves exactly the smaller keys in place and returns exactly the keys not smaller. Both results have the right length and keep behaving as sorted maps under further operations.",
 ["inputs", "histories"],
 "for every reachable arrangement of nodes up to the bounded size and three/four-level trees, every split position (present and absent keys), every interleaving of two small key sets, all size combinations around node boundaries, followed by every single further operation",
 "One doc test each with a handful of keys: the bulk move of half a tree, the repair of the cut borders and the recount of the shorter side are not exercised.",
 ["src/btree/map.rs", "src/btree/node.rs", "src/btree/set.rs"],
 [("from_sorted_iter, fix_right_edge", "src/btree/map.rs"), ("split_off, fix_left_border, fix_right_border, recalc_length", "src/btree/map.rs"), ("move_suffix, bulk_steal_left/right", "src/btree/node.rs")],
 observe=["contents and len of both maps", "later operations"])

prop("C09", "B-tree iterators and ranges yield exactly the entries asked for",
 "For any map or set and any pair of bounds, iteration (shared, mutable, by value, keys, values, ranges) yields exactly the entries within the bounds, each once, in order, whatever mixture of front and back steps is used, never yields again after the end, reports exact remaining counts where it reports counts, and writes through mutable iteration reach exactly the visited entries.",
 ["inputs", "histories"],
 "for every reachable arrangement of nodes up to the bounded size and selected deeper trees, every pair of bounds (included, excluded, unbounded; on keys and in gaps), every pair (i taken from the front, j taken from the back)",
 "Doc tests iterate small single-leaf maps forwards; bounds that fall on inner-node keys, meeting iterators and node boundaries are not covered.",
 ["src/btree/map.rs", "src/btree/node.rs", "src/btree/search.rs", "src/btree/set.rs"],
 [("range_search", "src/btree/map.rs"), ("next_unchecked / next_back_unchecked", "src/btree/map.rs"), ("IntoIter with deallocate_and_ascend", "src/btree/map.rs")],
 observe=["items yielded by each iterator", "size_hint/len"])

prop("C10", "B-trees stay balanced and small",
 "After any history, looking a key up costs a number of comparisons logarithmic in the number of entries, and the memory held is proportional to the number of entries (removed entries give their memory back); an insertion makes at most one memory request per tree level plus one, and removal and lookup make none.",
 ["histories"],
 "for every reachable arrangement of nodes up to the bounded size, every rank, including the halves produced by splitting and the results of appending",
 "Nothing in the tests measures comparisons or memory; a tree that stops merging or rebalancing still answers every query correctly.",
 ["src/btree/map.rs", "src/btree/node.rs"],
 [("handle_underfull_node", "src/btree/map.rs"), ("merge, steal_*, bulk_steal_*", "src/btree/node.rs"), ("fix_top", "src/btree/map.rs")],
 observe=["key comparisons per operation", "allocator live blocks and requests"])

prop("C11", "Set algebra on B-tree sets is exact",
 "Union, intersection, difference and symmetric difference (as iterators and as operators), and the subset, superset and disjointness tests, give exactly the mathematical result in ascending order for any two sets, irrespective of their relative sizes, with size hints that bracket the true remaining count, and cloned iterators continue identically.",
 ["inputs"],
 "for every pair of subsets of a small universe and, across the size ratios at which the algorithm switches strategy, for every small set against large sets, at every iteration step",
 "One doc test per operation with about three elements; the search strategy used for very different sizes is reached only by sets more than 16 times apart.",
 ["src/btree/set.rs"],
 [("ITER_PERFORMANCE_TIPPING_SIZE_DIFF strategy switch", "src/btree/set.rs"), ("cmp_opt merge", "src/btree/set.rs")],
 observe=["iterator output", "boolean results", "size_hint"])

prop("C12", "B-trees drop each entry once and free every node",
 "In every history of B-tree operations, including failed ones and iterators abandoned at any point, each key and value is destroyed exactly once or handed to the caller, and when the maps are gone every node has been released exactly once with the size it was requested with.",
 ["histories", "fault_sequences"],
 "for every reachable arrangement of nodes up to the bounded size: dropping, clearing, consuming i entries from the front and j from the back before abandoning the iterator, splitting, appending, cloning, replacing and removing, each with every failing memory request",
 "Tests use integers and string slices and never observe destruction or memory; leaks and double frees are invisible to them.",
 ["src/btree/map.rs", "src/btree/node.rs"],
 [("Drop via IntoIter", "src/btree/map.rs"), ("deallocate_and_ascend, pop_level, merge deallocation", "src/btree/node.rs")],
 observe=["destructor calls", "allocator block ledger"])

prop("C13", "try_clone yields an equal independent copy or an error",
 "Cloning any supported value (integers, booleans, options, boxes, vectors, hash maps, B-tree maps, shared pointers, nested combinations) yields a value equal to the source and sharing no storage with it (shared pointers: sharing exactly the same allocation), and the source is unchanged; if any element clone or memory request fails, the call returns the error, nothing partially built survives, and the source is unchanged.",
 ["inputs", "fault_sequences"],
 "for every small value of every supported shape, every primitive value (8/16-bit exhaustively, boundary values otherwise), every failing memory request and every failing element clone",
 "Tests clone one vector of integers successfully and one absurdly long vector; nested values, partial failures and independence are not looked at.",
 ["src/try_clone.rs", "src/vec.rs", "src/boxed.rs", "src/arc.rs", "src/hashmap.rs", "src/btree/map.rs"],
 [("TryClone impls", "src/try_clone.rs and container modules"), ("clone_subtree", "src/btree/map.rs")],
 observe=["clone and source contents", "addresses", "allocator ledger"])

prop("C14", "TryHashMap is a map, and a failed insertion changes nothing",
 "After any sequence of insertions, removals and clones the hash map answers lookups, length and iteration like an ideal map (insertion returns the previous value, the original key object is kept), for any hash function, including one that maps every key to the same value; an insertion that reports an allocation error leaves the map exactly as it was and still usable.",
 ["histories", "fault_sequences", "configurations"],
 "for every operation sequence up to the bounded depth over a small colliding key set, with growth thresholds crossed, with every memory request refused in turn, for both the std-backed and the hashbrown-backed build",
 "The only test asks for an impossible capacity; insert, remove, get, iteration and cloning are untested, as is any failure in the middle of growth.",
 ["src/hashmap.rs"],
 [("reserve before insert", "src/hashmap.rs TryHashMap::insert"), ("map_err to TryReserveError", "src/hashmap.rs")],
 observe=["get/len/iter results", "return values"])

prop("C15", "Bounded reads take at most the limit and only the reserved memory",
 "A bounded read appends to the buffer exactly the bytes the source delivered, up to the limit, after what the buffer already held, and returns their number; it asks for memory only once, up front, for the limit, consumes nothing from the source if that is refused, never takes more than the limit from the source, and passes source errors on without losing the bytes already appended.",
 ["inputs", "fault_sequences", "configurations"],
 "for every script of source answers up to the bounded length (short reads of every size, interruptions, errors, early end), every limit and every initial buffer length and capacity",
 "Tests read five bytes from a slice that always delivers everything; short reads, interrupted reads, errors and pre-filled buffers are not covered.",
 ["src/vec.rs"],
 [("reserve(limit) then take(limit).read_to_end", "src/vec.rs std_io::try_read_up_to"), ("Take::limit", "src/vec.rs std_io::TryRead")],
 observe=["buffer contents", "bytes consumed from source", "allocator calls"])

prop("C16", "Fallible formatting equals format! and allocates once up front",
 "Fallible formatting returns exactly the text that ordinary formatting would produce for the same arguments; when the text fits the stated maximum capacity the only memory request made is the initial one, and if that is refused the call returns an error without evaluating the formatting of the arguments.",
 ["inputs", "fault_sequences"],
 "for every capacity up to the bound (0, short, exact, larger), every sequence of pieces written by an argument up to the bounded length including multi-byte characters, and every failing memory request within the stated capacity",
 "Three one-to-three character examples are tested, always successful and always fitting.",
 ["src/format.rs"],
 [("try_with_capacity then write_fmt", "src/format.rs try_format")],
 observe=["returned string", "allocator calls"])

prop("C17", "Fallible boxes and shared pointers own their value properly",
 "A fallibly created box, Rc or Arc holds exactly the value passed in (for any size and alignment, including zero), is unique when created, gives the value back or destroys it exactly once, survives a raw-pointer round trip, and releases its memory with the layout it was requested with; on failure the value is destroyed exactly once.",
 ["inputs", "fault_sequences"],
 "for every combination of element size and alignment in the bounded grid, every way of disposing of the pointer, every sharing sequence up to the bounded depth and every failing memory request",
 "Tests box one integer, one unit and one empty struct; layout, destruction and failure are not observed, and the Rc/Arc tests do not call the crate at all.",
 ["src/boxed.rs", "src/rc.rs", "src/arc.rs"],
 [("Vec::into_boxed_slice to Box<T> cast", "src/boxed.rs"), ("Rc::from(Box)", "src/rc.rs"), ("Arc::try_new", "src/arc.rs")],
 observe=["value read back", "allocator layouts", "reference counts"])

prop("C18", "Misbehaving caller code cannot break memory safety",
 "If caller-supplied code (comparison, hashing, cloning, element generation, iteration, entry closure, destructor, reader, formatter) panics at any point of an operation, or a comparison gives arbitrary inconsistent answers, then once the panic is caught no element is destroyed twice or used after destruction, no memory is corrupted, and the containers involved can still be used and dropped without such effects (leaking is allowed).",
 ["fault_sequences", "inputs"],
 "for every operation and starting state within the bound, every callback invocation index as the panic point, every sequence of comparison answers up to the bounded length, followed by every further operation and by dropping",
 "No test panics inside a callback or compares inconsistently; these paths run only when the caller misbehaves, yet safe code must stay memory safe.",
 ["src/vec.rs", "src/btree/map.rs", "src/btree/set.rs", "src/btree/node.rs", "src/hashmap.rs"],
 [("Truncate::truncate", "src/vec.rs"), ("try_extend_with", "src/vec.rs"), ("append/from_sorted_iter, split_off", "src/btree/map.rs")],
 observe=["destructor ledger", "allocator ledger", "process exit status"])

prop("C19", "Equality, order, hashing and printing depend on contents only",
 "Two B-tree maps or sets with the same entries compare equal, hash alike and print alike however they were built, and two with different entries compare in the lexicographic order of their entries; the same holds for the equality and printing of fallible vectors and hash maps.",
 ["histories", "inputs"],
 "for every pair of arrangements of nodes holding the same keys within the bound, and every pair of small contents",
 "Tests compare only values built the same way; arrangements reached by different histories are never compared.",
 ["src/btree/map.rs", "src/btree/set.rs", "src/vec.rs", "src/hashmap.rs"],
 [("PartialEq/Ord/Hash via iteration", "src/btree/map.rs")],
 observe=["==, cmp, hash, Debug output"])

prop("C20", "Fallible collecting keeps every item in order or reports failure",
 "Fallibly collecting an iterator yields exactly the iterator's items in order whatever the iterator says about its length, polls it no further after its end, and when memory is refused returns the error, stops polling and destroys every item already taken exactly once.",
 ["inputs", "fault_sequences"],
 "for every iterator length up to the bound, every honest or lying size hint, every failing memory request, sized and zero-sized items",
 "Fallible collecting has no test at all.",
 ["src/vec.rs"],
 [("TryFromIterator for Vec, TryCollect", "src/vec.rs")],
 observe=["collected items", "polls", "destructor ledger"])

prop("C21", "Containers work for every element size and alignment",
 "Boxes, vectors and B-trees behave identically for element types of any size and alignment, including zero-sized, over-aligned and very large ones: same results, correctly aligned references, and no crash or corruption in any operation, including on empty containers.",
 ["configurations", "histories"],
 "for every element type in a grid of sizes and alignments (0 to several hundred bytes, alignment 1 to 128) as key and as value, every operation of a bounded history set crossing node boundaries",
 "Tests use machine integers; the special treatment of the shared empty root and of zero-sized or over-aligned types is never executed.",
 ["src/btree/node.rs", "src/btree/map.rs", "src/boxed.rs", "src/vec.rs"],
 [("shared EMPTY_ROOT_NODE and into_key_slice", "src/btree/node.rs"), ("FallibleBox for ZST", "src/boxed.rs")],
 observe=["contents", "reference alignment", "process exit status"])

prop("C22", "Try types offer no infallible allocating trait",
 "The fallible wrapper types implement no standard trait through which an allocation could fail without being reported (cloning, extending, conversion from or collection of iterators).",
 ["programs"],
 "for every program that can name the types",
 "A trait implementation added by mistake makes more programs compile; no test can fail because of it.",
 ["src/lib.rs", "src/vec.rs", "src/boxed.rs", "src/hashmap.rs"],
 [("absence of impls", "crate documentation in src/lib.rs")])

out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P))
