#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so the text is reviewable)."""
import json
T="tpp/detail/swiss_table.hpp"; D="tpp/detail/dense_table.hpp"; C="tpp/detail/table_common.hpp"; U="tpp/detail/utility.hpp"
W=["tpp/sparse_map.hpp","tpp/sparse_set.hpp","tpp/stable_map.hpp","tpp/stable_set.hpp","tpp/dense_map.hpp","tpp/dense_set.hpp"]
M=["tpp/dense_multimap.hpp","tpp/dense_multiset.hpp"]
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=None)))
TESTS="The unit tests replay a few fixed std::string/int sequences with std::allocator and std::hash; "
p("C01","Every container behaves as an associative container after any history",
 "After any sequence of operations - including operations that failed because an allocation, hash, comparison or element constructor threw - find, contains, at, size, iteration and every return value agree with a plain associative model: each stored element is visited exactly once and found by its key, and nothing else is found. Every overload of an operation (element, convertible value, other key type, hint, list, range, node) has the same effect. This holds for every hash function, however badly it collides, and wherever the allocator happens to place memory.",
 ["histories","fault_sequences","configurations"],"all operation histories over several containers of one type, all hash functions (constant, equal low bits, equal high bits, identity, mixed), all heap placements and contents of fresh memory, faults at any user callback",
 TESTS+"they never reach tombstone reuse, in-place rehash, colliding probes, dense chain surgery or the state left by a failed call.",
 [T,D,C]+W+M,[("probe and control bytes",T+": find_node, find_available, set_metadata"),("in-place rehash of tombstones",T+": rehash_deleted"),("chain update on swap-with-last erase",D+": erase_node, move_chain")],
 [("control bytes","which slots are empty, deleted or hold an element with a given hash fragment",T),("sparse chains","bucket heads and next indices",D)],["public API of each container"])
p("C02","Ordered containers preserve insertion order through everything",
 "An ordered container always iterates (forwards and backwards, and via front/back) in the order in which its elements were first inserted: rehashing, growth, erasing or replacing elements, failed operations, copying, moving and swapping never reorder, lose or repeat elements, merged elements are appended in their source order, and an insertion with a hint places the new element next to the hint.",
 ["histories","fault_sequences","configurations"],"all histories and fault points on the six ordered containers, all heap placements (links are relative addresses, so the distance between containers, buffers and nodes matters)",
 TESTS+"no test erases and re-inserts until nodes are relocated, swaps or assigns ordered tables in all emptiness combinations, or fails an operation half way.",
 [C,T,D]+W,[("relative circular links",C+": ordered_link"),("relinking on relocation and erase",T+": insert_link, erase_node, do_rehash, rehash_deleted"),("dense relink",D+": commit_node, erase_node, copy_data")],
 [("header link","head of the insertion order list, stored in the container object",C)],["begin/end/front/back and bidirectional iteration of ordered_* containers"])
p("C03","Stable containers never move or invalidate elements that are not erased",
 "A reference or pointer to an element of a stable (or ordered stable) container stays valid and keeps denoting the same element until that element is erased or its container destroyed: through growth, rehashing, erasure of other elements, failed operations, swap, move between equal allocators, node extraction, re-insertion and merge.",
 ["histories","fault_sequences"],"all histories and fault points on the four stable containers with references held across every operation",
 TESTS+"none holds references across rehash, swap, move, extraction and failures.",
 [T,C,"tpp/stable_map.hpp","tpp/stable_set.hpp"],[("elements in individually allocated nodes",C+": stable_node")],[("node pointer","owner of one heap element",C)],["addresses and contents of held references"])
p("C04","Multi-key containers keep all keys of an element unique and consistent",
 "In a multi-key container every element is reachable through each of its keys and every key of every index denotes at most one element: an insertion conflicting on any key changes nothing and yields an existing conflicting element, and erasing an element through any key, iterator or range removes it from every index at once.",
 ["histories","fault_sequences"],"all histories over two- and three-key sets and maps, including conflicts on any subset of keys, colliding hashes between indices and failed operations",
 TESTS+"the multi-key tests are a handful of inserts and finds; conflicts on different elements, erase by iterator and chain surgery with several indices are not run.",
 [D,"tpp/detail/multikey.hpp"]+M,[("per-key chains",D+": find_node, emplace_node, erase_node, move_chain")],[("per-key next indices","one chain per key index through the dense array",D)],["find/contains/at/erase for each key index"])
p("C05","Erasing while iterating visits and erases exactly the intended elements",
 "Erasing by key, iterator or range and erase_if remove exactly the selected elements and leave all others intact; the returned iterator continues the traversal so that a loop erasing some elements still visits every element exactly once. A predicate, hash or comparison that throws leaves a consistent container with only already selected elements removed.",
 ["histories","fault_sequences","configurations"],"all histories, all choices of erased elements (first, last, moved-last, adjacent, all), all traversal orders, predicates throwing at any call",
 TESTS+"erase is tested on short fixed sequences; the element that is relocated into the erased slot, erased ranges and erase_if across the relocated tail are not covered.",
 [T,D]+W+M,[("erase and successor",T+": erase_node, do_erase"),("swap-with-last erase",D+": erase_node"),("erase_if","free functions in each wrapper header")],(),["erase return values, erase_if count, traversal"])
p("C06","Copies, moves, assignments and swaps transfer exactly the contents",
 "Copying yields an equal, independent container (same elements, order, hash and comparison function) and leaves the source untouched; moving transfers the contents and leaves the source valid and fully usable; assignment replaces whatever the target held, in every combination of sizes, capacities and emptiness; swap exchanges both sides completely. Self-assignment and self-swap change nothing.",
 ["histories","fault_sequences","configurations"],"all pairs of prior histories (never used, cleared, grown then shrunk, full of tombstones, moved-from), all operations afterwards on both sides, failures during the copy",
 TESTS+"copies are taken of freshly filled tables only; target/source histories with different capacities or stale buffers are not combined.",
 [T,D,C]+W+M,[("buffer copy / steal / element-wise move",T+": copy_data, move_data, swap_buffers"),("dense copy / move",D+": copy_data, move_data, swap_buffers")],(),["contents of both containers after the operation and after further use"])
p("C07","Node handles and merge conserve elements",
 "Extracting an element, inserting a node handle, assigning through it, swapping, moving or dropping handles and merging containers (also with other hash and comparison types) neither lose, duplicate, copy nor alter elements: each element is at every moment in exactly one container or handle, a rejected node is handed back, keys already present stay where they were, the target keeps its hash function, comparison and allocator, and a failure in the middle leaves every element in one of the two containers.",
 ["histories","fault_sequences"],"all histories over several stable containers and node handles, with allocation, hash and comparison failures during insertion and merge, merges between containers with different hash state",
 TESTS+"extraction and merge are tested once on two or three elements without failures or conflicts in varied positions.",
 [T,C,"tpp/stable_map.hpp","tpp/stable_set.hpp"],[("extract / insert_node / merge",T+": do_extract, insert_node, insert_or_assign_node, merge"),("node handle",C+": stable_node::extracted_type")],(),["contents of containers and handles; element lifetimes"])
p("C08","Capacity guarantees, bounded memory and termination under churn",
 "After reserve(n) the container reaches n elements without growing again, rehash(n) provides at least n buckets without changing the contents, and requests that cannot be met fail cleanly. Any insert/erase churn with a bounded number of live elements runs for ever in bounded memory, and every operation terminates within a bounded number of steps, whatever the hash function. After every insertion size() is at most capacity(), and in dense tables the load factor is at most the maximum load factor set before; capacity(), max_size(), load_factor() and max_bucket_count() agree with size() and bucket_count().",
 ["histories","configurations","fault_sequences"],"all churn histories, all reserve/rehash sizes including zero and impossible ones, all bucket-count constructor arguments, all max-load-factor settings of dense tables, adversarial hashes",
 TESTS+"none churns, so tombstone accumulation, missing empty slots (an endless probe) and reserve off-by-ones at capacity boundaries stay unseen.",
 [T,D],[("growth accounting",T+": m_num_empty, capacity_to_max_size, size_to_min_capacity, align_capacity"),("tombstone reclamation",T+": rehash_deleted"),("load factor",D+": reserve, rehash, maybe_rehash, maybe_resize")],[("remaining empty slots","how many never-used slots may still be filled",T)],["bucket_count, outstanding memory, step counts"])
p("C09","A failed insertion or replacement of one element has no effect",
 "If inserting, emplacing, replacing, assigning, extracting or erasing a single element is aborted by an exception from the allocator, hash, comparison or an element constructor, the container (contents, order, mapped values, and addresses in stable tables) is as it was before the call, arguments not yet consumed stay intact, and the same call succeeds when repeated without the fault.",
 ["fault_sequences","histories"],"every fault point (n-th allocation, n-th hash, n-th comparison, n-th element copy or construction) inside every single-element operation, in every reachable container state",
 "No test injects any failure.",
 [T,D,C,U],[("construct before publish",T+": emplace_node, do_emplace"),("transactional growth",T+": swiss_table_buffer::resize; "+D+": resize_data"),("construct before commit",D+": push_node, commit_node")],(),["full state before and after the failed call"])
p("C10","Failures never leak, double-free or corrupt",
 "Whatever fails during construction, range insertion, copying, assignment, merging, rehashing or any other operation, every element is destroyed exactly once and never used outside its lifetime, all memory is returned to its allocator, source containers are unchanged unless being moved from, and the affected container remains valid, holding only genuine old or new elements.",
 ["fault_sequences","histories"],"every fault point inside every operation including constructors and bulk operations, followed by arbitrary further use and destruction",
 "No test injects any failure or counts object lifetimes.",
 [T,D,C,U],[("buffer ownership",T+": swiss_table_buffer"),("buffer reallocation",U+": realloc_buffer"),("copy into fresh buffers",T+": copy_data; "+D+": copy_data")],(),["element lifetime registry and simulated heap"])
p("C11","Operations that need no memory succeed when memory is exhausted",
 "While the allocator refuses every request, lookups, iteration, erasure, clear, swap, move construction and assignment between equal allocators, node extraction, replacing existing elements in place and insertions covered by an earlier reserve still succeed with their full effect, and operations that do need memory fail with the allocator's exception and no other consequence; when memory returns the container works on.",
 ["fault_sequences","histories"],"all histories with memory running out and coming back at arbitrary points, all containers and table fill states including tombstone-full tables",
 "No test limits memory.",
 [T,D,C],[("erase without allocation",T+": do_erase; "+D+": erase_node"),("moves steal buffers",T+": move_from; "+D+": move_from")],(),["outcome of each operation under an exhausted simulated heap"])
p("C12","Allocators are used by the rules and propagate as declared",
 "Every block is returned exactly once, with its original size, to an allocator equal to the one that provided it, and nothing else is ever returned; copy, move and swap propagate allocators exactly as their traits and select_on_container_copy_construction say; with unequal non-propagating allocators elements are transferred one by one and end up in memory of the target's allocator, node handles release to their own allocator.",
 ["configurations","histories","fault_sequences"],"all combinations of propagation traits and allocator equality, all histories mixing containers of different allocators, allocation failures",
 TESTS+"always-equal allocators hide every mistake.",
 [T,D,C,U],[("buffer allocator handling",T+": swiss_table_buffer copy/move/swap"),("dense allocator handling",D+": operator=, swap")],(),["ownership ledger of the simulated heap, get_allocator()"])
p("C13","Concurrent read-only use of one container is free of data races",
 "Any number of threads may at the same time use only const operations (lookup, iteration, comparison, copying from it, size and capacity queries) on one container: no memory shared between them is written and every thread sees the same results as when running alone.",
 ["schedules","histories"],"all interleavings of memory accesses of 2-4 reader threads after any history (including failed operations, moves and swaps)",
 "The tests are single-threaded; thread schedules are not sampled at all.",
 [T,D,C]+W+M,[("const operations do not mutate",T+": find_node; "+D+": find_node")],(),["every memory access of every thread, result of each read"])
p("C14","Distinct containers share no hidden state",
 "Operations on distinct containers (each used by its own thread, with its own allocator) do not interfere: no memory is shared between them, whether never-allocated, moved-from, swapped or copied, and each behaves exactly as if it were the only one.",
 ["schedules","histories"],"all interleavings of memory accesses of 2-4 writer threads each owning its containers, after containers were copied, moved or swapped between owners",
 "The tests are single-threaded and use one container at a time.",
 [T,D,C],[("per-object buffers, header links and sentinels",T+": swiss_table_buffer; "+D+": buffers")],(),["every memory access of every thread, final contents"])
p("C15","Observable behaviour is the same in every build configuration",
 "On every supported instruction set (SSE2, SSSE3, NEON, none) and compiler, with separate or combined internal buffers, with debug assertions on or off and under C++17 or C++20, the same history of operations and faults produces the same observable results (contents, return values, insertion order, failures).",
 ["configurations","histories"],"all histories executed in lock-step by SSE2, SSSE3, NEON (emulated), TPP_NO_SIMD, combined-buffer, debug, release and other-compiler (emulated) builds",
 "The tests build one compiler with one option set; the portable 8-byte group code and the combined buffer never run.",
 [T,"tpp/detail/arch.hpp","tpp/detail/define.hpp",U],[("group matching variants",T+": meta_block"),("buffer variants",T+": swiss_table_buffer<..., true/false>")],(),["API-level event log of each build"])
p("C16","Arguments may refer to the container's own elements",
 "Calling insert, emplace, try_emplace, insert_or_assign, operator[] or erase with arguments that refer to keys or values stored in the same container behaves as if the arguments had been copied first, even when the call grows, rehashes or erases.",
 ["histories","configurations"],"all aliased calls at every fill state (growth, tombstone reclamation, in-place replacement), all heap placements including immediate reuse of freed memory",
 TESTS+"aliased arguments only break when the call happens to reallocate.",
 [T,D,C],[("argument use versus relocation",T+": emplace_node; "+D+": maybe_resize, do_insert"),("replace in place",C+": packed_node::replace, stable_node::replace")],(),["contents after the call"])
p("C17","Equality depends only on contents, not on history",
 "Two containers compare equal exactly when they hold the same elements (same keys with equal mapped values), no matter how each got there: different insertion orders, erasures, capacities, rehashes, hash state, copies or moves; comparison never modifies either side. References to the elements of packed maps compare and order like the key/value pairs they denote.",
 ["histories","configurations"],"all pairs of histories leading to equal or nearly equal contents",
 TESTS+"equality is checked on freshly built tables.",
 [T,D]+W+M,[("permutation comparison","operator== of each wrapper header")],(),["operator== and operator!="])
p("C18","Compile-time interface compatibility with the standard containers",
 "Type aliases, overload sets, deduction guides and iterator categories allow the containers to be used where std::unordered_map or std::unordered_set source code is compiled.",
 ["programs"],"all client programs",
 "Tests instantiate a fraction of the interface.",W+M,[("wrapper classes","tpp/*.hpp")])
p("C19","Expected constant-time lookups, insertions and erasures",
 "For a hash function that distributes well, lookups of present and absent keys, insertions and erasures take on average a number of steps bounded by a constant that depends neither on the number of elements nor on the history (growth, churn that leaves erased slots behind, failed insertions, copies, reserve, rehash). For insertions the average is amortised over the growth they cause; erasures are meant while the container is not nearly empty compared to its bucket count, because they return the next element.",
 ["histories","inputs","fault_sequences"],"all container kinds, up to a quarter of a million elements, all sequences of filling, erasing, churn, copying, assigning, moving, reserving, rehashing and clearing, with a failing allocation, copy, hash or comparison somewhere",
 TESTS+"none looks at how long an operation takes, and degradation shows only in large tables after particular histories.",
 [T,D],[("probing and growth policy",T+": bucket_probe, find_node, rehash_deleted, capacity_to_max_size"),("chains and load factor",D+": find_node, maybe_rehash, maybe_resize")],(),["instrumented steps (edges) per call"])
p("C20","Caller-owned arguments are never modified unless given away",
 "An argument passed as an lvalue (key, mapped value, element, source range or initializer list) keeps its value whatever the operation does: succeeds, finds the key already present or is aborted by an exception. try_emplace and operator[] leave even an argument passed as an rvalue untouched when the key is already present, so it can be used again. An rvalue that is consumed is moved from: no copy of it is made. Operations that only rearrange elements (growth, erase, swap, move, node transfer, merge) never copy them.",
 ["inputs","histories","fault_sequences"],"every inserting, replacing, subscripting and erasing operation, arguments as constant lvalues, mutable lvalues and rvalues, keys present and absent, faults at any user callback, after any history",
 TESTS+"arguments are temporaries or literals, so an argument that was consumed by mistake is never looked at again.",
 [T,D]+W+M,[("argument forwarding","wrapper overloads of insert, emplace, try_emplace, insert_or_assign, emplace_or_replace, operator[]"),("construction from forwarded arguments",C+": construct, replace")],(),["the caller's objects after the call"])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P), [ (x["id"],len(x["title"])) for x in P if len(x["title"])>80])
