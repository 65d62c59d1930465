#!/usr/bin/env python3
"""Source of properties.jsonl (run it to regenerate)."""
import json, os
SEQ = ["include/sfl/vector.hpp","include/sfl/small_vector.hpp","include/sfl/static_vector.hpp","include/sfl/compact_vector.hpp","include/sfl/devector.hpp","include/sfl/segmented_vector.hpp","include/sfl/segmented_devector.hpp"]
ORD = ["include/sfl/%s_flat_%s.hpp"%(a,b) for a in("small","static") for b in("set","map","multiset","multimap")]
UNO = ["include/sfl/%s_unordered_flat_%s.hpp"%(a,b) for a in("small","static") for b in("set","map","multiset","multimap")]
PRIV=["include/sfl/private.hpp"]
ALL=SEQ+ORD+UNO+PRIV
HEAP=[f for f in SEQ+ORD+UNO if "static" not in f]
P=[]
def p(id,title,statement,over,text,why,files,mechanism,state=None):
    a={"files":files,"mechanism":[{"name":mechanism,"where":", ".join(files[:3])+(" and the other listed headers" if len(files)>3 else "")}]}
    if state: a["state"]=state
    P.append(dict(id=id,title=title,statement=statement,quantifier={"over":over,"text":text},why_tests_cant=why,anchors=a))
NOEXC="The tests replay a fixed list of calls with element types whose every operation is noexcept, so no exception path, no interleaving of operations and only a handful of sizes is ever executed."
p("C01","Sequence containers behave as an abstract sequence over any history",
 "After any history of constructor, assignment, insertion, erasure, resize, capacity, swap and access calls, every sequence container (vector, small_vector, static_vector, compact_vector, devector, segmented_vector, segmented_devector) holds exactly the elements, in the order, that the same calls produce on an abstract sequence. Every accessor, iterator (forward, reverse, random access arithmetic), position/index conversion, comparison and returned iterator, reference or count agrees with that sequence. Containers not named by a call are unaffected by it.",
 ["histories","programs","inputs","configurations"],
 "Every finite history of public calls over several containers of one type, for every storage state reachable (internal/heap storage, partly filled segments, free space at front/back), element type (copyable, move-only, throwing moves) and allocator configuration.",
 "The branches taken depend on the storage state left behind by earlier calls (free space at each end, segment boundaries, internal vs heap storage); tests start each check from one freshly built state.",
 SEQ+PRIV,"Hand-written shifting/reallocation algorithms per storage state; the container's elements are what begin()..end() visits.")
p("C02","Ordered flat sets and maps stay sorted, unique and refine their model",
 "After any history of calls, every ordered flat set, map, multiset and multimap holds exactly the keys and mapped values that the same calls produce on an abstract sorted (multi)map under the container's own comparator, visited in sorted order and without equivalent keys where keys are unique. Lookup, bounds, counts, hinted and unhinted insertion, insert_or_assign, try_emplace, operator[], at, erasure and comparison return what that model returns, whatever the hint and for heterogeneous as for homogeneous keys. Copy, move and swap carry the comparator along with the elements.",
 ["histories","programs","inputs","configurations"],
 "Every finite history of public calls over several containers, for every hint position, comparator object, number of elements relative to N and internal/heap storage.",
 "Tests insert a short fixed series of keys with mostly one hint and one stateless comparator; order corruption needs particular hint/equal-key/storage combinations.",
 ORD+PRIV,"Binary search by the stored comparator plus positional insertion; sortedness of data() is the invariant everything else relies on.")
p("C03","Unordered flat sets and maps refine their abstract (multi)set",
 "After any history of calls, every unordered flat set, map, multiset and multimap holds exactly the keys and mapped values the same calls produce on an abstract unordered (multi)map under the container's own key equality, with no two equal keys where keys are unique. Lookup, count, insertion, insert_or_assign, try_emplace, operator[], at, erasure and equality return what that model returns, and an erase loop driven by returned iterators visits every remaining element exactly once.",
 ["histories","programs","inputs","configurations"],
 "Every finite history of public calls over several containers, for every erased position and range, every number of elements relative to N and storage state.",
 "Erasure reorders elements, so results depend on the whole history; tests check one erase at a time from a fresh container.",
 UNO+PRIV,"Linear search by the stored key equality; append on insert, fill-the-hole-from-the-back on erase.")
p("C04","Every element is constructed and destroyed exactly once",
 "Whatever the history of calls and wherever an exception interrupts it, no container constructs over a living element, destroys, reads or assigns an element that is not alive, relocates an element bypassing its constructors, or forgets to destroy one. When all containers are gone no element is left alive, and at any quiet moment the living elements are exactly those in the containers.",
 ["crash_points","fault_sequences","histories","programs"],
 "Every history of public calls and every choice of the call to element, comparator, iterator or allocator code that throws (any one, or every one until a chosen point).",
 NOEXC,
 ALL,"Scope guards and catch blocks around partially shifted or partially constructed ranges.")
p("C05","Allocator use is balanced, matched and follows propagation rules",
 "Every block obtained from an allocator is given back exactly once, to an equal allocator, with the same pointer and count, with or without failures in between, and elements are constructed and destroyed through the allocator and stay inside the blocks obtained. After copy and move construction, assignment and swap, get_allocator() is the allocator the propagation traits prescribe.",
 ["configurations","crash_points","fault_sequences","histories"],
 "Every combination of propagation traits, equal/unequal allocator identities and fancy pointers, over every history of calls and failure points.",
 "Tests compare allocation counts at the end of a fixed script under noexcept elements; unequal allocators combined with free front space, empty or moved-from containers and mid-operation failures are never reached.",
 HEAP+PRIV,"allocate/deallocate/construct_at_a/destroy_at_a wrappers, reset/assign_move/assign_copy/initialize_move/swap in every heap-capable container.")
p("C06","reserve and shrink_to_fit have the documented strong guarantee",
 "When reserve, reserve_front, reserve_back or shrink_to_fit exits by an exception (allocation failure, failing element copy or move, or length error) and the element type is nothrow-movable or copyable, the container is unchanged: same elements at the same addresses, same size, and (contiguous containers) same capacity; a segmented container that fails to shrink may already have released unused segments. When such a call succeeds it changes neither the elements nor their order and the requested capacity is available.",
 ["crash_points","fault_sequences","histories"],
 "Every container state and requested capacity, every failing allocation or element operation during the call.",
 NOEXC,
 HEAP+PRIV,"Documented under 'If an exception is thrown' of these functions; build new storage aside, then swap in.")
p("C07","A failed end insertion leaves the container unchanged",
 "If inserting one element at an end (push_back, emplace_back, push_front, emplace_front), or into an unordered flat container, exits by an exception, the container has the same elements in the same order as before and remains usable, provided the element type is nothrow-movable, or (all but devector, which shifts elements in place) it is copyable, so that elements are relocated by copying.",
 ["crash_points","fault_sequences","histories"],
 "Every container state, and every failing allocation, element construction, element copy or callback during the call.",
 NOEXC,
 SEQ+UNO+PRIV,"Construct the new element first, relocate with move_if_noexcept, publish pointers last.")
p("C08","After any failure a container is valid and fully usable",
 "When any operation exits by an exception, the exception that was raised is the one that reaches the caller, every container involved is still valid (its size, iterators and capacity are consistent, all its elements are alive and were put there by the caller, ordered flat containers are sorted, unique-key containers have unique keys) and every later operation works normally once failures stop. The validity of ordering and uniqueness is claimed when element moves do not throw.",
 ["crash_points","fault_sequences","histories"],
 "Every history of calls and every sequence of failures (allocation, element copy/move/construct/assign, comparator, key equality, input iterator, predicate), single, repeated or persistent for several calls.",
 NOEXC,
 ALL,"Two-phase shifting code, clear-on-failure assignment, fallback to internal storage when allocation fails.")
p("C09","References and iterators stay valid as documented",
 "References and pointers to elements of segmented_vector and segmented_devector stay valid and keep naming the same elements across growth at the ends, reserve, shrink_to_fit, swap and move of the container; in the contiguous containers an operation that does not change the capacity leaves elements before the point of insertion or erasure where they were, and swap or allocator-preserving move of heap storage leaves all elements where they were (segmented containers: when the allocators are equal). In containers that grow at one end erasure never moves elements before the erased position.",
 ["histories","programs","configurations"],
 "Every history of calls; the addresses of all elements are compared before and after every call, successful or failed.",
 "Stability is a relation between two states of the same execution; tests almost never keep a reference across a call and never across chains of operations.",
 SEQ+ORD+UNO+PRIV,"Segment tables are reallocated but segments are not; in-place insertion when capacity suffices.")
p("C10","Arguments may refer to elements of the container itself",
 "push_back, push_front, emplace, emplace_back, emplace_front, insert (single value, n copies), resize with a value, and hinted or unhinted insertion into flat containers give the right result when the argument is a reference to an element of the same container, whether or not the call reallocates or shifts that element.",
 ["inputs","histories","programs"],
 "Every operation of that list, every position of the aliased element relative to the position of insertion, every storage state.",
 "Needs the aliased element to be moved by the particular branch taken; tests use external values almost everywhere.",
 SEQ+ORD+UNO+PRIV,"Construct the new value before elements are shifted, or keep a temporary copy.")
p("C11","Capacity promises: no allocation where none is allowed",
 "Static containers never touch dynamic memory; small containers do not allocate while the number of elements stays within N; an operation that fits into the capacity reported beforehand (available, available_front, available_back, after reserve) succeeds without allocating even when memory is exhausted. clear() keeps the capacity, capacity is never below size, and compact_vector's capacity equals its size.",
 ["histories","fault_sequences","configurations"],
 "Every container state and every operation, with memory exhausted from a chosen point on.",
 "Tests check capacity() after a few calls, never that allocation is not attempted, and never run with exhausted memory.",
 ALL,"Capacity comparison before growth; internal storage selection in small containers.")
p("C12","Exceeding max_size or the valid index range is reported, with no effect",
 "An operation that would make a container exceed max_size() throws std::length_error and (except for single-pass ranges, whose length is unknown) leaves the container unchanged, and one that would not exceed it never reports a length error; at() throws std::out_of_range exactly when the index or key is absent. Capacity never exceeds max_size().",
 ["inputs","histories","configurations"],
 "Every operation that adds elements or capacity, every size near max_size(), allocators with a small max_size.",
 "With the default allocator max_size is astronomically large, so no test ever gets near it.",
 HEAP+PRIV,"check_size / calculate_new_capacity / grow computations near the limit.")
p("C13","Operations that promise not to throw do not, under total failure",
 "Destruction, clear, pop_back, pop_front, erase with nothrow-movable elements, shrinking resize, swap and move of heap storage, moved-from destruction and all accessors complete normally even if every allocation, element copy or construction attempted meanwhile would fail.",
 ["fault_sequences","histories"],
 "Every container state reached by any history (including by failed operations), with every fault point armed during the call.",
 NOEXC,
 ALL,"noexcept member functions and functions that only destroy or relocate elements.")
p("C14","Without exceptions the library aborts on errors and otherwise behaves the same",
 "Built with SFL_NO_EXCEPTIONS, every history of calls has exactly the same observable results, element operations and allocator calls as the ordinary build, except that a call which would have thrown length_error or out_of_range terminates by abort.",
 ["histories","configurations","inputs"],
 "Every history of calls in both build modes.",
 "The SFL_NO_EXCEPTIONS branch is compiled by no test that compares the two modes.",
 ALL,"SFL_TRY/SFL_CATCH/SFL_RETHROW macros and the throw_* helpers.")
p("C15","Single-pass and forward ranges are consumed exactly once and in order",
 "Constructing, assigning or inserting from an iterator range takes every item of the range exactly once and in order, reads each item of a single-pass input once, and never reads or advances a single-pass input beyond its end, wherever the stream ends. If the stream fails part-way the container is valid and the items taken so far are not duplicated.",
 ["inputs","crash_points","fault_sequences"],
 "Every iterator category (input, forward, random access, move iterators), every length relative to size and capacity, end of stream or failure at every step.",
 "Tests use one short input range per call; over-reading or double reading is invisible with vector iterators.",
 ALL,"Separate overloads for exactly-input and forward iterators in assign/insert/initialize.")
p("C16","Callbacks get living values, the right number of times, without hidden copies",
 "Comparators, key equality, predicates and equality operators are only given living, not moved-from values; erase_if applies its predicate exactly once to each element; lookup never constructs, copies, moves or allocates anything, for heterogeneous keys too; try_emplace and insertion of an existing key leave the container's elements untouched.",
 ["histories","programs","inputs"],
 "Every history of calls, every key present or absent, every comparator and predicate.",
 "Tests look at results, not at what user callbacks were handed.",
 ORD+UNO+SEQ+PRIV,"std::lower_bound/find loops with the stored functors, transparent overloads, erase_if loops.")
p("C17","Concurrent const use and independent containers do not interfere",
 "Const member functions of one container may run concurrently, interleaved at any point, each giving the result it would give alone and changing no byte of the container; operations on different containers of the same type interleaved at any point give each the result it would have alone.",
 ["schedules","histories"],
 "Every interleaving, at each call into user code and at each basic block of library code, of several tasks that read one container or each mutate their own.",
 "No test has more than one task; hidden shared or mutable state shows only under particular interleavings.",
 ALL,"No mutable members, function-local statics or shared scratch state in any container.")
p("C18","Copy, move and swap conserve elements between containers",
 "Copying leaves the source unchanged and yields an equal container; moving delivers exactly the source's elements in order and leaves the source valid (assignable, clearable, destructible, refillable); swap exchanges contents exactly; self-copy, self-swap leave the container unchanged, for every pair of storage states and allocators. Heap storage taken over by move or swap is transferred without touching any element.",
 ["histories","configurations","fault_sequences"],
 "Every pair of storage states (internal/heap, empty, moved-from, full), allocator equality and propagation traits, over any history.",
 "Tests try one pair of sizes per allocator type from fresh containers and rarely use the moved-from object again.",
 ALL,"initialize_copy/initialize_move/assign_copy/assign_move/swap case analysis on storage kind and allocator equality.")
p("C19","No call touches memory the containers do not own",
 "Whatever the history of calls and wherever an exception interrupts it, library code reads and writes only the container objects it was called on, storage currently allocated through their allocators and what the caller passed in: never beyond the end or before the beginning of a block, never a block already given back, and never by way of arithmetic the language leaves undefined (null or misaligned access, overflow, reaching unreachable code).",
 ["histories","programs","fault_sequences","configurations"],
 "Every history of calls, every size from empty to several hundred elements, every failure point.",
 "An out-of-bounds read whose result is not used changes no result; it is visible only when the memory next to the block cannot be read, which no test arranges.",
 ALL,"Pointer and segment-table arithmetic of the shifting, growing and iterator code.")
p("C20","Calls stay within their documented complexity",
 "In every reachable state a call does no more work - elements constructed or assigned, keys or elements compared, allocations made - than its documented complexity allows, up to a constant factor: appending (and prepending, in the two-ended containers) any number of elements is linear overall in element operations, logarithmic in allocations and linear in memory obtained; insertion and erasure in the middle cost the elements given or removed plus those behind the position (in the two-ended containers: on the nearer side), also for ranges, single-pass ones included; lookup in the ordered flat containers is logarithmic and in the unordered ones linear; erasure in the unordered ones moves no more elements than it removes; pop, clear, access and swap of heap storage touch no element; sequences of different sizes are unequal without comparing an element.",
 ["histories","programs","configurations","fault_sequences"],
 "Every history of calls, every size from empty to several hundred elements, every storage state, policy and position, with failures injected. Not claimed: bulk construction and insertion of the ordered flat containers beyond one-at-a-time cost, single-pass ranges given to compact_vector, and the standard algorithms.",
 "A unit test checks results; a quadratic path gives the same results and shows only as work done in particular states (sizes, free room at either end, position).",
 ALL,"Growth policies (calculate_new_capacity, grow_storage*), the choice of the side to shift, lower_bound/find, swap-with-last erasure.")
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P), max(len(x["title"]) for x in P))
