#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the list stays reviewable)."""
import json, os
S = "include/boost/segmented_tree/seq.hpp"
P = []
def prop(id, title, statement, over, qtext, why, mech, state=None, observe=None):
    assert len(title) <= 80, title
    a = {"files": [S], "mechanism": [{"name": n, "where": f"{S}: {w}"} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": f"{S}: {w}"} for n, m, w in state]
    a["observe_at"] = observe or ["public API of boost::segmented_tree::seq"]
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

TREE = ("node", "balanced tree node: parent link, index in parent, number of entries, per entry subtree size and pointer", "struct node")
ROOT = ("seq_data", "root pointer, element count and height of the tree", "class seq data_")

prop("C01", "Inserting one element puts it at the position and shifts the rest",
 "insert(pos, value), emplace(pos, args...), push_back/emplace_back and push_front/emplace_front change the sequence to exactly the old elements with the new one placed before pos, all other elements keeping their values and relative order, and size grows by one. The returned iterator refers to the new element and is usable exactly as if it had been obtained by nth(pos).",
 ["inputs", "histories", "configurations"],
 "every sequence reachable by any history, every position (end included), every value, every segment and node capacity",
 "Splits at leaf, inner and root level depend on occupancy at several levels at once; the tests insert a few hundred values in six fixed patterns at two capacities and never reach most split cases on trees of height four and more.",
 [("insert_single_* split chain", "insert_single_segment, insert_single_leaf, insert_single_branch"),
  ("element moves between and inside segments", "construct_single, construct_range_single*, assign_forward_*, assign_backward_*"),
  ("size propagation", "update_sizes, increment_sizes")], [TREE, ROOT])
prop("C02", "Erasing one element removes exactly it and keeps all others in order",
 "erase(pos), pop_back and pop_front change the sequence to exactly the old elements without the one at pos, all others keeping their values and relative order, and size shrinks by one. The returned iterator refers to the element that followed (or is end()) and is usable exactly as if obtained by nth(pos).",
 ["inputs", "histories", "configurations"],
 "every sequence reachable by any history, every position, every segment and node capacity",
 "Which of steal-from-previous, steal-from-next, merge-left, merge-right or root collapse happens at each level depends on the occupancy of neighbours at all levels; tests erase in a handful of orders from trees of one size.",
 [("erase_single_* rebalance chain", "erase_single_segment, erase_single_leaf, erase_single_branch"),
  ("element moves", "assign_forward_*, assign_backward_*, construct_range_*")], [TREE, ROOT])
prop("C03", "Constructors, assign, range insert and erase, and resize match a sequence",
 "The constructors, assign and operator=, insert of a count, a range or an initializer list, erase of a range, resize with and without a value, and clear leave exactly the sequence that the same call leaves in a standard sequence container. insert and erase return an iterator to the first inserted element or to the element after the last erased one; this holds for single-pass input iterators too.",
 ["inputs", "histories"],
 "every sequence, every count and source range (empty ones included), every pair of positions, every category of source iterator",
 "The tests call these with a few lengths; off-by-one in the position after the loop, empty ranges and shrinking or growing assigns over any length are not enumerable by examples.",
 [("element-wise loops", "emplace_count, emplace_range, erase_range, assign_count, assign_range, resize_count"),
  ("constructors and operator=", "class seq public members")], [ROOT])
prop("C04", "Positional lookup returns the element at the position, or throws",
 "operator[], at, nth, front, back, begin, penultimate and end designate the element at the position they name (or one past the last), for the mutable and the constant overloads and the reversed ranges alike, and index_of and nth are inverse to each other. at throws out_of_range exactly when the position is not smaller than size().",
 ["inputs", "histories", "configurations"],
 "every reachable sequence, every position, every capacity and tree height",
 "Lookup descends by subtracting subtree sizes; tests look up positions in trees of at most a few hundred elements and of three heights.",
 [("descent by subtree size", "find_index_*, find_first_*, find_last_*, find_end_*"), ("range check", "at")], [TREE, ROOT])
prop("C05", "Iterator steps and jumps land on the element at the new position",
 "++, --, +=, -=, + and - by any signed distance that stays between begin() and end(), and indexing an iterator by such a distance, give an iterator that designates the same element as nth at the resulting position. Any sequence of such steps that arrives at a position gives iterators that are interchangeable for every later operation.",
 ["inputs", "histories", "configurations"],
 "every reachable sequence, every start position including end(), every distance, every mix of steps and jumps",
 "The climb over node borders depends on the position inside all ancestors; tests step over trees with one node capacity and small height and jump from few positions.",
 [("step", "move_next_iterator, move_prev_iterator"), ("jump", "move_iterator_count, move_next_*_count, move_prev_*_count")],
 [("iterator_data", "element pointer, index and length in segment, leaf and index in leaf, position", "struct iterator_data")])
prop("C06", "Iterator comparison and difference agree with positions",
 "For any two valid iterators into one container, const or not, a - b equals index_of(a) - index_of(b), and ==, !=, <, <=, >, >= order them as their positions; converting an iterator to const_iterator keeps its position.",
 ["inputs", "histories"],
 "every pair of valid iterators into one container, however each was obtained",
 "Comparison relies on every operation that makes or moves an iterator keeping its stored position exact; tests compare few pairs.",
 [("comparison", "iterator_t operators"), ("stored position", "iterator_data::pos, difference")], None)
prop("C07", "Segment traversal visits every element once, in order, as documented",
 "For a valid iterator the segment begin and end pointers delimit contiguous memory that holds the sequence elements around it in order, with the current element at its own offset. Moving after or before a segment, with and without a count, goes to the position the documentation names, so walking segment by segment in either direction visits each element exactly once.",
 ["inputs", "histories", "configurations"],
 "every reachable sequence, every valid iterator position, every count for which the target is in range",
 "Segment borders differ with every history of inserts and erases; tests walk one forward loop and no backward counted move.",
 [("segment moves", "move_after_segment, move_before_segment and the counted forms"),
  ("segment pointers", "first_element, current_element, last_element")], None)
prop("C08", "The tree stays balanced: logarithmic height and half-full nodes",
 "After every operation all elements are at the same depth, every node and segment except the root is at least half full and never over-full, and every node records exactly how many elements each of its subtrees holds. Hence the height grows only logarithmically with size() and single-element operations and lookups visit a logarithmic number of nodes.",
 ["histories", "inputs", "configurations"],
 "every history of operations, every segment and node capacity (odd, even, minimal)",
 "The tests only check results and sizes, so a tree that degenerates while still giving right answers passes; the occupancy invariant quantifies over all histories and capacities.",
 [("split halves", "insert_single_segment/leaf/branch"), ("merge and redistribute", "erase_single_segment/leaf/branch"),
  ("sizes", "update_sizes, increment_sizes, decrement_sizes")], [TREE, ROOT], ["internal structure reached through iterators' leaf entries", "segment lengths and number of allocated nodes"])
prop("C09", "Every allocation and element is released exactly once, nothing out of bounds",
 "Over any history that ends with destruction, each segment and node allocated is deallocated exactly once with the matching type and count, deallocation is never asked for memory that was not allocated, and each constructed element is destroyed exactly once. No operation reads, writes, moves from or destroys an element slot that holds no live element, constructs over a live one, or touches memory outside its own segments and nodes; an empty container owns no memory.",
 ["histories", "inputs", "configurations", "fault_sequences"],
 "every history of operations, every element type (trivial or not), every capacity, with and without failures",
 "The tests use trivially destructible integers and the default allocator, and so never observe a leak, a double destroy, or a null deallocation.",
 [("release", "purge_*, destroy_*, deallocate_*"), ("allocation chain", "alloc_nodes_single"), ("in-place moves", "erase_single_*, insert_single_*")], [TREE, ROOT],
 ["calls on the allocator", "element special member functions"])
prop("C10", "Single-element insert, emplace and push are all-or-nothing on failure",
 "If an allocation at any depth or the construction of the new element throws during insert, emplace, push_back or push_front of one element, the exception reaches the caller, the sequence is unchanged, earlier iterators to it stay valid, and nothing is leaked. single-element erase and pops never throw for elements whose moves do not throw.",
 ["fault_sequences", "histories", "inputs"],
 "every reachable sequence and position, every allocation or construction as the failing one (element moves assumed not to throw)",
 "A split allocates one node per full level; tests never make an allocation fail.",
 [("all nodes allocated before the tree is touched", "alloc_nodes_single"), ("value materialised first", "emplace_single")], [TREE, ROOT])
prop("C11", "A failure inside a multi-element operation leaves a valid container",
 "If an allocation, an element operation or a source iterator throws during a constructor, assign, copy, range or count insert, or resize, the exception reaches the caller, the container that remains is fully usable, and nothing is leaked or destroyed twice; range and count inserts leave a prefix of the new elements in place and keep all old ones in order. resize to a count without a value leaves the sequence unchanged on failure, as documented.",
 ["fault_sequences", "histories", "inputs"],
 "every multi-element operation, every element index and allocation as the failing one",
 "Tests never throw from an allocator, an element or an iterator.",
 [("constructors purge on failure", "seq constructors, purge"), ("per-element strong step", "emplace_count, emplace_range, assign_*, resize_count")], [ROOT])
prop("C12", "Move and swap hand over the elements whole and leave valid containers",
 "Move construction, move assignment with equal or propagating allocators, and swap hand the stored elements over without copying, moving or relocating them, so iterators and references follow the elements to their new container. The moved-from container is empty and usable, swap exchanges both sequences completely, and copy assignment from itself leaves the sequence as it was.",
 ["histories", "inputs", "configurations"],
 "every pair of sequences (empty included), every allocator propagation setting, equal and unequal allocators",
 "Tests use one stateless allocator; ownership transfer with the target non-empty, with unequal allocators, or with itself is not sampled.",
 [("ownership transfer", "steal, move constructor, move_assign, swap")], [ROOT])
prop("C13", "Each container frees with its own allocator and propagates it as its traits say",
 "Every block is deallocated, and every element constructed and destroyed, through an allocator equal to the one that allocated it. The container's allocator after copy and move construction, assignment and swap is the one the allocator's propagation traits and select_on_container_copy_construction prescribe, and move operations between unequal non-propagating allocators transfer the elements one by one.",
 ["configurations", "histories"],
 "every combination of the propagation traits and of equal and unequal allocators, every pair of contents",
 "Tests only use the default allocator, whose instances are all equal.",
 [("propagation", "copy_assign_alloc, move_assign_alloc, move_assign, swap_allocator"), ("stored allocators", "get_element_allocator, get_node_allocator")], [ROOT],
 ["calls on stateful allocators"])
prop("C14", "splice and merge transfer the elements between containers",
 "splice moves the designated elements of the other container before pos in their order and removes exactly these from the other container, working also for element types that can only be moved and for containers with different allocators, after which the elements lie in memory of their new container's allocator. merge of two sorted containers gives the stable sorted merge of both, own elements first among equals, and leaves the other empty.",
 ["inputs", "histories"],
 "every pair of distinct sequences, every position and subrange, every comparison that is a strict weak order",
 "Tests splice a few literal lists of copyable integers and cannot tell a move from a copy.",
 [("splice", "splice overloads"), ("merge", "merge overloads")], None)
prop("C15", "remove, remove_if, unique, reverse and sort do what their names say",
 "remove and remove_if erase exactly the matching elements and keep the others in order; unique keeps the first of each run of equivalent neighbours; reverse reverses; sort gives the stably sorted permutation. Size, structure and later operations agree with the new sequence.",
 ["inputs", "histories"],
 "every sequence, every predicate or comparison that meets its requirements",
 "Tests use one literal list each.",
 [("algorithms over iterators then erase of the tail", "remove, remove_if, unique, reverse, sort")], None)
prop("C16", "Relational operators compare the sequences element by element",
 "==, !=, <, <=, > and >= between two containers give the result of comparing their sequences for equality and lexicographically, whatever their tree shapes.",
 ["inputs", "histories"],
 "every pair of sequences, of equal or different lengths and shapes",
 "Tests compare a few short literals of the same shape.",
 [("comparison", "friend operators of seq")], None)
prop("C17", "Arguments may refer to elements of the container itself",
 "insert of one value or a count of a value, push_back, push_front, emplace, resize with a value, assign with a value and remove give the same result when the value passed is a reference to an element of the same container as when it is a separate object with that value.",
 ["inputs", "histories"],
 "every reachable sequence, every position, every element as the argument, every count",
 "Tests never pass an element of the container to one of its own operations, and whether it breaks depends on where the element moves.",
 [("value materialised before the tree changes", "emplace_single, emplace_count, assign_count, resize_count, remove")], None)
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
