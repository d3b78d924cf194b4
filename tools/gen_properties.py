#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place where the property texts live)."""
import json, os
B="include/boost/circular_buffer/base.hpp"; D="include/boost/circular_buffer/details.hpp"
S="include/boost/circular_buffer/space_optimized.hpp"; G="include/boost/circular_buffer/debug.hpp"
H="include/boost/circular_buffer.hpp"; Q="doc/circular_buffer.qbk"
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,observe,state=None):
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qtext),
      why_tests_cant=why,anchors=dict(files=files,state=state or [],
      mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None)))
ANY="every reachable container state (capacity, size, physical start offset, wrapped or not), every argument value the documented preconditions allow, and every element type"
p("C01","Every element is constructed once, used only while alive, destroyed once",
  "Whenever an operation of either container returns normally, the objects alive in its storage are exactly the elements of its sequence: no operation reads, assigns or destroys storage that holds no live element, constructs over a live element, or leaves an element behind that is no longer part of the sequence. Destroying the container destroys every remaining element exactly once. Temporaries an operation creates are destroyed before it returns.",
  ["inputs","histories"],ANY,
  "The suite samples a few dozen (capacity,size,offset,n) combinations with a counted element type; the boundary between raw and live slots moves with the four-way position of the ring and with n relative to the reserve, for all sizes.",
  [B,D,S],[("construct_or_replace / is_uninitialized decide construct versus assign per slot",B),("destroy_content, destroy_item, erase/rerase tail destruction",B),("uninitialized_copy / move / fill helpers",D)],
  ["calls of element constructors, assignments and destructors"],
  [dict(name="m_first,m_last,m_size",meaning="which slots hold live elements",where=B)])
p("C02","Any exception leaves a valid container and leaks nothing",
  "If an element's constructor or assignment, an iterator of a source range, or the allocator throws anywhere inside any operation, the operation propagates the exception and every container involved stays valid: its elements are exactly the live objects in its storage, its size does not exceed its capacity, and it can be used and destroyed. No object constructed by the interrupted operation and no memory block is leaked, destroyed twice or released twice. A constructor that throws leaves no live element and no allocated block behind.",
  ["inputs","fault_sequences","histories"],"every throwing operation at every one of its throw points, from "+ANY,
  "exception_safety_test only throws a handful of times from small hand-picked buffers; each of the loops can be interrupted at any iteration, in every relative position of gap, seam and insertion point.",
  [B,D,S],[("BOOST_TRY/BOOST_CATCH blocks in insert_item, insert_n, rinsert_impl, rinsert_n, push_front_impl, linearize, set_capacity, assign_n, constructors",B),("rollback loops of the uninitialized_* helpers",D)],
  ["state of the container and of its storage when the exception leaves the operation"])
p("C03","Operations documented as strongly exception safe change nothing on failure",
  "When an operation documented with the strong guarantee (set_capacity, rset_capacity, copy assignment and at() of both buffers) fails because of a throwing copy or allocation, the container afterwards holds the same elements with the same values at the same addresses, and has the same capacity and size as before the call. The same holds for push_back and push_front into a buffer that is not full when constructing the new element fails. (For a move that can throw and no copy to fall back on nothing is promised.)",
  ["inputs","fault_sequences"],"each such operation at each throw point from "+ANY,
  "Tests check a few states after one injected failure and compare sizes, not every element and slot.",
  [B,D],[("new block is filled before the old one is touched (reset, assign_n)",B),("uninitialized_move_if_noexcept falls back to copying when a move may throw",D)],["container contents and addresses after the failed call"])
p("C04","Memory blocks are released exactly once, with their size, to their allocator",
  "Every block the containers obtain is returned exactly once, with the pointer and element count it was requested with, through an allocator equal to the one it came from, and only when it holds no live element. No operation touches a block after returning it, and no block survives the containers, including after swap, move and failed operations.",
  ["inputs","histories","fault_sequences"],"every operation, two-container operations included, normal and exceptional exits, from "+ANY+"; allocators with distinguishable instances",
  "Default std::allocator ignores the size argument and instance, so the suite cannot notice a wrong size or instance; leaks only show on paths the tests happen to run.",
  [B,S],[("allocate/deallocate/destroy/reset/initialize_buffer",B),("swap_allocator exchanges allocators together with the storage",B)],["allocate/deallocate calls"])
p("C05","Plain buffer storage is fixed except in capacity-changing operations",
  "After construction, the plain circular buffer obtains or releases memory, or changes its capacity, only in set_capacity, rset_capacity, resize, rresize (growing past the capacity), assign, assignment and swap/move. Push, pop, insert, rinsert, erase, rerase, clear, rotate, linearize and all accessors never allocate, never release and keep the capacity, whatever the arguments. An assign or copy to a container of equal requested capacity that is documented to reuse the storage does so.",
  ["inputs","histories"],"every operation on every call path, from "+ANY,
  "A test can only observe that the allocations it ran did not happen.",
  [B],[("only allocate() reaches the allocator; its callers are the listed operations",B)],["allocator calls reachable from each public operation; capacity before and after"])
p("C06","Operations documented not to throw cannot throw or terminate",
  "swap, move construction, move assignment, destruction, clear, pop_back, pop_front, size/capacity queries, begin/end, element access within range, array_one/array_two and iterator arithmetic let no exception escape and never reach std::terminate, for element types whose destructor does not throw, even if every other operation of the element type and the allocator may throw. erase, rerase, erase_begin, erase_end, rotate and capacity changes do not throw when element move/copy and allocation do not. The noexcept declarations of the interface agree with that.",
  ["inputs","programs"],"every call path of the listed operations, for element types with potentially throwing copy, move, assignment and default construction",
  "Tests instantiate the interface with types that rarely throw; absence of a throwing call on every path is not observable by running some paths.",
  [B,D,S],[("noexcept specifications; only pointer arithmetic and destruction on these paths",B)],["exceptional exits of each operation"])
p("C07","push and pop act at the right end and a full buffer overwrites the opposite end",
  "push_back/push_front append or prepend exactly the given value; if the buffer is full they drop exactly the element at the opposite end and keep the relative order and values of all others; if the capacity is zero nothing happens. pop_back/pop_front remove exactly the last/first element and leave all the others unchanged.",
  ["inputs","histories"],"all capacities, sizes and physical offsets",
  "Unit tests push a few values into small buffers; the physical layout decides which slot is overwritten.",
  [B],[("push_back_impl, push_front_impl, pop_back, pop_front, increment, decrement",B)],["sequence of elements, size()"])
p("C08","insert and rinsert place the new items and drop the right elements when full",
  "insert puts the items before the given position, in order, and when the buffer overflows drops elements from the beginning; rinsert does the same but drops from the end; items that could only overwrite themselves are dropped exactly as documented, so that the result is the documented suffix (insert) or prefix (rinsert) of the conceptual unbounded result. All other elements keep value and order, the returned iterator designates the (first) inserted element or the documented position, and the size becomes min(capacity, size+n).",
  ["inputs","histories"],"all capacities, sizes, offsets, positions and item counts, single item, n copies, forward and input ranges",
  "The case split (position vs seam vs gap vs amount of overflow) has dozens of regimes, each holding for unboundedly many sizes; the suite checks a few points in some of them.",
  [B],[("insert_item, insert_n, rinsert_impl, rinsert_n",B)],["sequence of elements, returned iterator, size()"])
p("C09","erase, rerase and clear remove exactly the requested elements",
  "erase and rerase (single element and range), erase_begin, erase_end and clear remove exactly the designated elements; all the other elements keep their values and relative order, the returned iterator designates the element following the removed range (or, for rerase, preceding it; end()/begin() when there is none), and the capacity does not change.",
  ["inputs","histories"],"all capacities, sizes, offsets and ranges, scalar and class element types",
  "Same as insertion: the shift loop runs across the seam in only some layouts.",
  [B],[("erase, rerase, erase_begin, erase_end, destroy_content",B)],["sequence of elements, returned iterator, size()"])
p("C10","Construction and assignment yield the documented contents and capacity",
  "Each constructor and assign overload produces exactly the documented sequence: n copies, or the elements of the source range in order, reduced to the last capacity() ones when the range is longer than the requested capacity, with the documented capacity. Copy construction and assignment reproduce the source's elements and capacity and leave the source unchanged; move construction and assignment transfer them and leave the source empty. Self-assignment changes nothing.",
  ["inputs","histories"],"all sizes, capacities, offsets of source and target, forward and input ranges",
  "Only small fixed ranges are tested, mostly from unwrapped sources.",
  [B,D],[("initialize, initialize_buffer, assign_n, reset, uninitialized_copy",B)],["sequence of elements, size(), capacity()"])
p("C11","set_capacity, rset_capacity, resize and rresize keep the documented elements",
  "set_capacity keeps the first and rset_capacity the last min(size, new capacity) elements in order and sets the capacity exactly; resize keeps the first and rresize the last min(size, n) elements, adds copies of the item at the end (resize) or the front (rresize) to reach exactly n elements, and raises the capacity to n only when n exceeds it.",
  ["inputs","histories"],"all capacities, sizes, offsets and new sizes",
  "A few fixed numbers are tested.",
  [B,D],[("set_capacity, rset_capacity, resize, rresize, reset",B)],["sequence of elements, size(), capacity()"])
p("C12","The raw storage views describe the sequence; rotate and linearize preserve it",
  "array_one followed by array_two always covers exactly the elements in order, inside the allocated block; is_linearized of a non-empty buffer is true exactly when all elements are contiguous from begin. linearize returns a pointer to the first of size() contiguous elements (null if empty), keeps size and capacity, and touches nothing when the elements are contiguous already. rotate(p) on a full buffer makes p's element first without moving any element, and in general yields the rotated sequence.",
  ["inputs","histories"],"all capacities, sizes, offsets and rotation points",
  "The linearised tests use a handful of layouts.",
  [B],[("array_one, array_two, linearize, is_linearized, rotate",B)],["returned pointers and lengths, sequence of elements"])
p("C13","All ways of accessing an element agree and stay inside the live elements",
  "For every i < size(): operator[](i), at(i), begin()+i, the reverse iterators and front()/back() refer to the same i-th element, which is alive and inside the buffer; const and non-const versions agree. at(i) throws std::out_of_range for every i >= size(), and never otherwise. size, empty, full, reserve and capacity are consistent with each other.",
  ["inputs","histories"],"all capacities, sizes, offsets and indexes (including huge ones)",
  "The wrap arithmetic is exercised at a few offsets only.",
  [B,D],[("add/sub/check_position, iterator::operator*",B)],["references returned"])
p("C14","Iterator arithmetic obeys the random access laws across the seam",
  "For positions i, j in [0, size()], (begin()+i)+(j-i) == begin()+j, (begin()+j)-(begin()+i) == j-i, ++ and -- move by one, +=, -=, + and - with positive and negative distances agree, and <, <=, >, >=, ==, != order iterators as their positions do; begin()+size() == end() and dereferencing position i yields the i-th element. This holds for const and non-const iterators mixed.",
  ["inputs","histories"],"all capacities, sizes, offsets and pairs of positions",
  "Tests walk over a few small buffers.",
  [D],[("iterator operators, linearize_pointer, add/sub",D)],["results of iterator expressions"])
p("C15","Const operations have no side effects and containers share no hidden state",
  "A const operation on a container (queries, element access, iteration, comparison, copying from it) writes nothing: neither the container, its elements nor any static or global variable, so that concurrent readers and operations on distinct containers cannot race. The containers keep no mutable state outside the object and its own block.",
  ["schedules","programs"],"every const operation and every store it can reach",
  "Data races cannot be excluded by running single threaded tests; there is no threaded test.",
  [B,D,S],[("const member functions; no statics",B)],["stores reachable from const operations; global variables"])
p("C16","Operations documented as constant time contain no size-dependent work",
  "push_back, push_front, pop_back, pop_front, swap, move construction and move assignment onto an empty target, element access, size queries, begin/end, array_one/array_two, iterator arithmetic and comparison, and rotate of a full buffer, perform a number of steps and element operations bounded by a constant independent of size and capacity. For scalar element types this also holds for clear, erase_begin and erase_end of the plain buffer.",
  ["inputs","histories"],"every path of the listed operations",
  "Timing is not tested at all; a hidden linear step changes no result.",
  [B,D],[("straight line code on these paths",B)],["loops and element operations reachable from each operation"])
p("C17","Space optimized storage stays between size, minimum and capacity",
  "After every operation of the space optimized buffer, size() <= internal capacity, internal capacity <= capacity().capacity(), and size() <= capacity().capacity(); the internal capacity does not fall below capacity().min_capacity() as a result of removals or capacity changes (copies and moved-from buffers excepted), and removals give memory back so that at most about four times the size (or the minimum) is kept. capacity() reports exactly what was last requested, and full()/reserve() are computed from it.",
  ["inputs","histories"],"all capacity controls, sizes, internal capacities and offsets, for every operation",
  "The tests look at the internal capacity in a handful of scenarios.",
  [S],[("check_low_capacity, check_high_capacity, ensure_reserve, adjust_min_capacity, init_capacity",S)],["size(), capacity(), internal capacity"])
p("C18","The space optimized buffer behaves like a plain buffer of its full capacity",
  "Every push, pop, insert, rinsert, erase, rerase, clear, resize, rresize, set_capacity, rset_capacity and assign of the space optimized buffer gives the same sequence of elements, size and returned position as the same operation on a plain circular buffer whose capacity is capacity().capacity(), whatever the internal capacity and however it grows or shrinks on the way.",
  ["inputs","histories"],"all capacity controls, sizes, internal capacities, offsets and arguments",
  "Growth and shrink decisions depend on internal capacity that tests do not vary systematically.",
  [S],[("check_low_capacity before / check_high_capacity after the inherited operation, index arithmetic around reallocation",S)],["sequence of elements, returned iterator, size()"])
p("C19","Elements are moved exactly when that is safe, and move-only types work",
  "Existing elements are relocated with a move only if the element's move cannot throw or it is not copyable, and copied otherwise (insertions of n copies and of forward ranges may always copy); an element passed as an rvalue is moved into the buffer and never copied, an lvalue argument and the elements of a source range are never modified. Types that can be moved but not copied can be pushed, popped, inserted, erased, linearized and resized in capacity.",
  ["inputs","programs"],"every operation for the four combinations of copyable / nothrow movable element types",
  "Tests count moves in a few scenarios; whether a copy or a move is selected is decided per instantiation.",
  [B,D],[("boost::move_if_noexcept, uninitialized_move_if_noexcept tag dispatch, rvalue overloads",B)],["element copy and move operations executed"])
p("C20","Single-pass input ranges are read exactly once, in order, by every operation",
  "Every operation that accepts an input iterator range dereferences each position at most once and in order, never reads a position after advancing past it and never compares or reads beyond the end. Construct and assign consume the whole range and use its elements as the documentation says for a range of that length.",
  ["inputs"],"all single-pass ranges of any length, from every container state",
  "The suite's input iterators wrap multi-pass containers, so reading twice goes unnoticed.",
  [B,S],[("input_iterator_tag overloads of initialize, assign, insert, rinsert; init_capacity",B)],["dereferences and increments of the source iterator"])
p("C21","Arguments may refer to an element of the same container",
  "push_back, push_front, insert, rinsert, resize and rresize behave as if the argument had been copied first when it is a reference to an element of the container itself (where the documentation does not exclude it); in particular they never read an element that has already been destroyed, relocated or overwritten.",
  ["inputs","histories"],"all states and every element as argument",
  "No test passes a reference into the buffer.",
  [B,S],[("order of reading the argument and overwriting / reallocating",B)],["value stored"])
p("C22","Elements and memory are handled only through the allocator",
  "Elements in the container's storage are constructed and destroyed only through the allocator (its construct and destroy when it provides them), memory is obtained and released only through the allocator's allocate and deallocate and never through global new/delete/malloc, and pointers to the storage are kept in the allocator's pointer type so that allocators with fancy pointers can be used. A container constructed, copied or moved with an allocator uses that allocator instance.",
  ["programs","inputs"],"every operation, for minimal, stateful and fancy-pointer allocators",
  "One test allocator with construct counts exists for a few operations; nothing proves the absence of a bypass.",
  [B,D],[("boost::allocator_construct / allocator_destroy / allocate / deallocate, allocator_pointer typedefs",B)],["callees reachable from each operation"])
p("C23","Debug support never changes behaviour and its assertions accept every valid use",
  "With the debug support enabled, every operation gives the same results as without it; no assertion of the library fails for a call that respects the documented preconditions, and iterators that the documentation keeps valid are still accepted. Invalidated iterators are never dereferenced by the debug bookkeeping itself after their destruction: the registry contains exactly the live, valid iterators.",
  ["inputs","histories","configurations"],"all container states and valid calls, both configurations",
  "Only sampled calls run under debug support.",
  [G,B,D],[("debug_iterator_registry, debug_iterator_base, BOOST_CB_ASSERT conditions",G)],["assertion failures, contents"])
p("C24","The interface is const-correct and obeys container and iterator type rules",
  "The public types, member signatures and conversions of both containers are the documented ones: iterator converts to const_iterator and not back, a const container gives no mutable access to its elements, iterators are random access, moves and swaps are noexcept, explicit constructors are not implicit, the space optimized buffer does not convert to the plain buffer, and the interface compiles for copy-only, move-only and non-default-constructible element types to the documented extent. Programs that violate const-correctness or mix iterators of different containers types do not compile.",
  ["programs","configurations"],"every program using the interface, C++11 to C++23, with and without debug support",
  "A test that must not compile cannot be a unit test; most positive signatures are never checked.",
  [B,D,S,"include/boost/circular_buffer_fwd.hpp"],[("class definitions",B)],["type checking of client programs"])
p("C25","Comparison operators and swap are consistent with the element sequences",
  "==, !=, <, <=, >, >= compare the sequences of elements (size and element-wise equality, or lexicographically), never depending on capacity or physical layout, are mutually consistent, and access only existing elements. swap exchanges contents, capacities and allocators of two buffers completely, without touching any element, and swapping twice or with itself restores the state.",
  ["inputs","histories"],"all pairs of container states",
  "A few pairs are compared, never with differing layouts systematically.",
  [B,S],[("operator==, operator<, swap",B)],["results, state of both containers"])
p("C26","Impossible sizes are rejected with length_error before anything changes",
  "A capacity request above max_size() throws std::length_error without allocating and without changing the elements (a space optimized resize may have raised its logical capacity), max_size() never exceeds what the difference type can represent, and no size computation wraps around to request or use a smaller block than needed.",
  ["inputs"],"all size arguments up to the maximum of size_type",
  "Huge arguments are hardly tested because most cannot be allocated.",
  [B,S],[("allocate() check against max_size()",B),("check_low_capacity growth arithmetic",S)],["exception type, allocate arguments"])
p("C27","Operations move no element they do not need to move",
  "push, pop, erase_end, erase_begin, insertion at end(), rinsert at begin() and erase of the last or rerase of the first element leave every element that stays in the plain buffer in place (same address, not assigned, moved or swapped), so references to them stay valid; erase touches only elements behind, and rerase only elements before, the removed range; insert touches no surviving element before the position and rinsert none after it. rotate touches only the shorter side, resize within the capacity none that stays, linearize of contiguous elements and a change to the same capacity none at all.",
  ["inputs","histories"],"all states and positions",
  "Address stability is not tested.",
  [B],[("shift loops run from the position to one end only",B)],["element operations and addresses"])
p("C28","Space optimized pushes and pops relocate elements in amortised constant time",
  "Any sequence of n single pushes and pops at the ends of a space optimized buffer relocates O(n) elements in total (plus O(initial size) once): growing and shrinking of the internal storage never follow each other so closely that each operation, or each of a few operations in turn, relocates the whole sequence. Single insertions and erasures reallocate no more often than that. A push or pop that does not exchange the storage leaves every element that stays in the buffer untouched.",
  ["histories"],"all operation sequences from every reachable state, for every capacity and minimum capacity",
  "Needs an argument over whole histories: oscillation appears only for particular relations of size, internal capacity and minimum capacity.",
  [S],[("ensure_reserve, check_low_capacity, high_capacity: growth by doubling, shrinking below a third",S)],["number of elements relocated by each operation"])
p("C29","linearize keeps the elements in order",
  "After linearize() the sequence of element values is the same as before.",
  ["inputs","histories"],"all layouts",
  "A few layouts are tested; the cycle-leader loop's behaviour depends on the arithmetic of offset and capacity.",
  [B],[("linearize",B)],["sequence of elements"])
p("C30","A mutex protected bounded buffer delivers every item exactly once, in order",
  "The documented producer/consumer bounded buffer built on the container hands each produced item to exactly one consumer in production order, without losing or duplicating any, and both sides eventually proceed.",
  ["schedules"],"all schedules of producers and consumers",
  "The example is not part of the test suite.",
  ["example/bounded_buffer_comparison.cpp",Q],[("condition variables around push_front and pop",  "example/bounded_buffer_comparison.cpp")],["items consumed"])
p("C31","Debug support stops every documented misuse before it does damage",
  "With debug support enabled, every call that breaks a documented precondition ends in a failing assertion of the library: access, removal or iteration outside the sequence, reversed ranges, a count larger than the capacity, and any use (dereference, movement, comparison, position argument) of a singular, invalidated or foreign iterator or of one that outlives its container. Before the assertion the call touches no dead element and no storage that is not the container's. The call never returns normally.",
  ["inputs","histories"],"every documented misuse with arguments over the whole range of their type, from every container state",
  "The suite runs without debug support except for a few dereferences of invalid iterators, and a test cannot run past an assertion.",
  [G,D,B],[("BOOST_CB_ASSERT in every public operation",B),("is_valid, iterator registry, BOOST_CB_IS_CONVERTIBLE checks in the iterator",D),("debug_iterator_registry",G)],["where each such call ends"])
p("C32","Operations do no more work than their documented linear complexity",
  "The number of element constructions, assignments, destructions and comparisons, and of loop steps, of every operation is bounded by a small constant times the documented quantity: the distance from the position to the end (insert, erase) or from the beginning (rinsert, rerase) plus the number of items, the size for clear, linearize, copying and comparison, min(m, n) for rotate, the new size or capacity and the old size for resize, set_capacity and assignment, and nothing proportional to sizes for moves and swap. For the space optimized buffer the size may be added. Inserting a range element by element, so that elements are shifted once per item, breaks it.",
  ["inputs"],"all sizes, positions, counts and layouts; all iterator categories of ranges",
  "Tests check results, not the work done; quadratic work shows only in the number of operations.",
  [B,S,D],[("insert_n, rinsert_n, insert_item: one shift per call",B),("erase, rerase: one pass",B),("uninitialized_copy and friends",D)],["number of element operations"])
p("C33","Debug support fills memory that holds no element with 0xcc",
  "With debug support enabled, memory the container has just obtained is filled with the byte 0xcc, and so is the slot of every element that has been destroyed: after every operation that returns normally each slot of the storage that holds no element contains 0xcc in every byte. The fill never touches a live element and never reaches outside the block.",
  ["inputs"],"all states, arguments and element types, with debug support",
  "Tests look at a few bytes of a fresh buffer at most; which slots are free, and what they hold, depends on the layout and the history.",
  [B,G],[("allocate fills the new block",B),("destroy_item fills the slot of the element",B),("do_fill_uninitialized_memory",G)],["bytes of the storage that hold no element"])
p("C34","The headers compile in every configuration and can be included anywhere",
  "Every operation of both containers compiles in every C++ version from C++03 to C++23, with debug support on or off, with assertions disabled or redirected, and with exceptions or run-time type information switched off. circular_buffer.hpp and circular_buffer_fwd.hpp can each be included alone, in any order, repeatedly, in several translation units of one program, and where min and max are macros. They leave no macro behind outside the prefixes BOOST_CB_ and BOOST_CIRCULAR_BUFFER, and put no name into the global namespace.",
  ["programs","configurations"],"all operations, C++03 to C++23, two compilers, all combinations of the switches above",
  "The tests are built once, in one language version, one translation unit each, with exceptions on.",
  [B,D,S,G,"include/boost/circular_buffer.hpp","include/boost/circular_buffer_fwd.hpp"],[("every function template of the headers",B),("#define and #undef of the library's macros","include/boost/circular_buffer.hpp"),("BOOST_TRY / BOOST_CATCH / boost::throw_exception instead of the language's own",B)],["type checking and linking of client programs"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
print(len(P))
