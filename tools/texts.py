def fill(prop, F):
    SR, MR, ME, AL, CO, R = (F[k] for k in ("SR", "MR", "ME", "AL", "CO", "R"))
    UNB = ("the headers under memory/ have tests that the build never compiles; "
           "those sample a few fixed buffers and request sequences")

    # ------------------------------------------------------------ the pool
    prop("M01", "Pool memory is inside the buffer and never handed out twice",
         "Every non-null pointer a simple_resource serves from its own buffer "
         "denotes size bytes that lie wholly inside the managed blocks of the "
         "buffer and overlap no allocation that is still live. This holds after "
         "any history of allocate, deallocate and release, for every size "
         "(including sizes near the maximum of size_t) and alignment.",
         ["inputs", "histories"],
         "every buffer address and length, every request size and power-of-two "
         "alignment, every history of operations",
         "histories times 64-bit sizes and alignments; " + UNB, [SR],
         [("first fit over the region list", "allocate_impl"),
          ("region bookkeeping", "allocate_blocks, allocate_*matched, "
           "deallocate_blocks, merge_adjacent_blocks")])
    prop("M02", "Pool memory has the requested alignment",
         "Every non-null pointer returned by simple_resource::allocate is a "
         "multiple of the requested power-of-two alignment, whatever the "
         "alignment of the buffer and whatever was allocated before; memory "
         "served from the buffer starts at a multiple of the block size. When "
         "the request goes to the upstream, the upstream is asked for at least "
         "the requested alignment.",
         ["inputs", "histories", "configurations"],
         "every buffer address, every power-of-two alignment up to 2^63, every "
         "history", "alignments far above the buffer's own; " + UNB, [SR, CO],
         [("skip to the aligned address", "allocate_impl, skip_to_align"),
          ("alignment filter", "max_alignment_inside_block")])
    prop("M03", "Pool bookkeeping is exact and freed neighbours coalesce",
         "After every operation busy_count() is the number of live allocations "
         "served from the buffer, free_count() the number of maximal free "
         "ranges, and walking the regions with block_size()/in_use() yields "
         "exactly the live allocations and the maximal free ranges between them, "
         "covering all blocks. In particular two adjacent free ranges never stay "
         "separate, in whatever order neighbours are returned, and returning "
         "everything leaves one free range of all blocks.",
         ["histories", "inputs"],
         "every history of allocations and deallocations, every order of "
         "returning",
         "the order of allocations and deallocations is unbounded; " + UNB, [SR],
         [("coalescing", "merge_adjacent_blocks"), ("counters",
          "allocate_*matched, deallocate_blocks")])
    prop("M04", "A request that fits a free range of the pool is served from it",
         "If some maximal free range of blocks starts at an address with the "
         "requested alignment and is at least as long as the requested size, "
         "simple_resource::allocate serves the request from the buffer: it does "
         "not fail and does not ask the upstream. Memory once returned is "
         "available again, including to requests as large as the whole buffer "
         "when everything has been returned.",
         ["histories", "inputs"],
         "every layout of live allocations, every size, every alignment that "
         "the position of the buffer guarantees",
         "needs all layouts and all request sizes; " + UNB, [SR, CO],
         [("first fit", "allocate_impl"), ("alignment filter",
          "max_alignment_inside_block")],
         "Alignments above lowbit(data())+size()-1 are outside the claim.")
    prop("M05", "release() takes everything back",
         "After release() a simple_resource has no live allocation and exactly "
         "one free range of all its blocks (none if it manages no blocks), "
         "whatever was allocated and in whatever layout, so that a request for "
         "the whole buffer succeeds at data(); it may be called at any time, "
         "repeatedly, and on a resource without blocks.",
         ["histories"], "every layout of live allocations",
         "depends on the layout at the time of the call; " + UNB, [SR],
         [("walk that frees", "release, apply")])
    prop("M06", "Misuse of the pool is detected, not absorbed",
         "Deallocating a non-null pointer that lies inside the managed blocks "
         "but is not the start of a live allocation (never allocated, already "
         "returned, or interior), or one that is not aligned to the block size, "
         "aborts; without an upstream so does any pointer outside the managed "
         "blocks. Destroying a simple_resource with live allocations aborts; "
         "deallocating a null pointer does nothing. All this holds with NDEBUG "
         "too.",
         ["inputs", "histories"],
         "every pointer value, every layout of live allocations",
         "every 64-bit pointer value in every layout; " + UNB, [SR, CO],
         [("UTILS_ABORT_IF checks", "deallocate_impl, deallocate_blocks, "
           "~simple_resource")])
    prop("M07", "The pool delegates to its upstream and returns memory to it",
         "When a request cannot be served from the buffer and there is an "
         "upstream, the upstream is asked exactly once, for at least the "
         "requested size, and its answer (null included) is returned unchanged; "
         "without an upstream the result is null. Memory obtained from the "
         "upstream is given back to the upstream exactly once and buffer memory "
         "never is; a request of 0 bytes yields null without asking anyone.",
         ["inputs", "histories", "fault_sequences"],
         "every request, every layout, every answer of the upstream",
         "the upstream's answers and the layouts are unbounded; " + UNB, [SR],
         [("fallback", "allocate_impl, deallocate_impl")])
    prop("M08", "A pool can be built over any buffer",
         "For any buffer (null, empty, unaligned, too short for one block, "
         "longer than the maximum) construction succeeds without touching the "
         "buffer; size() is the number of whole blocks after aligning the start "
         "up to the block size, capped at the maximum block count, times the "
         "block size, and data() is that aligned start or null if there is no "
         "block. A new resource has one free range of all blocks or none, and "
         "uses the given upstream or else the default resource current at its "
         "construction.",
         ["inputs", "configurations"],
         "every buffer address and length, both kinds of upstream, all "
         "constructors, block counts at the limits of the index type",
         "addresses and lengths are 64-bit; " + UNB, [SR],
         [("alignment and block count", "details::origin_and_block_count"),
          ("index type", "simple_resource::BIndex")])

    # ------------------------------------------------------- monotonic
    prop("M10", "Monotonic memory is aligned, in the buffer, and never reused",
         "Every pointer monotonic_buffer_resource serves from its buffer has "
         "the requested alignment and denotes size bytes that lie wholly inside "
         "the buffer, behind everything handed out since construction or the "
         "last release(). deallocate() never makes memory available again; a "
         "request is never served by wrapping around the address space.",
         ["inputs", "histories"],
         "every buffer, number of bytes used, size and power-of-two alignment",
         "64-bit sizes and alignments near the ends; " + UNB, [MR, CO],
         [("bump pointer", "allocate_impl")],
         "Memory of the upstream is passed on; by design it is never returned.")
    prop("M11", "The monotonic resource serves what fits and delegates the rest",
         "A request that fits behind everything handed out before, after "
         "aligning, is served from the buffer; any other is passed once to the "
         "upstream with at least the requested size and alignment, and its answer "
         "is returned unchanged, or null without an upstream; 0 bytes yield null and ask no "
         "one. release() makes the whole buffer available again; data() and "
         "size() are the buffer's (null and 0 when either is), whatever "
         "happened.",
         ["inputs", "histories"],
         "every buffer, number of bytes used, size and power-of-two alignment",
         "64-bit sizes and alignments near the ends; " + UNB, [MR],
         [("bump pointer", "allocate_impl, release")])

    # ------------------------------------------------------- bits
    prop("B01", "ctz and clz count zeros for every value of every width",
         "For every non-zero value of every unsigned type, ctz is the index of "
         "the least significant set bit and clz the number of zero bits above "
         "the most significant one, with respect to the width of that type. The "
         "built-in and the hand-written implementation agree.",
         ["inputs"], "every non-zero 8, 16, 32 and 64-bit value",
         "tests walk single bits and a few patterns of 2^64 values",
         [R + "ctz.h", R + "clz.h", R + "details/cxz.h"],
         [("overloads", "ctz, clz, crafted_ctz, crafted_clz")])
    prop("B02", "Bit counts are exact for every value",
         "bits_count(v) and nbits_occupied(v) are the number of bits needed to "
         "represent v (0 for 0), for every value of every unsigned width; "
         "kNumBitsTable[b] is the number of set bits of b for every byte.",
         ["inputs"], "every 8, 16, 32 and 64-bit value",
         "2^64 values; the tests of these helpers are not built", [CO],
         [("loops", "bits_count, nbits_occupied, make_num_bits_table")])
    prop("B03", "Power-of-two, alignment and shift helpers are exact",
         "For every value and every power-of-two multiple or alignment, "
         "is_power_of_2, greatest_divisor_that_is_power_of_2, next_multiple_of, "
         "skip_to_align, is_aligned, shift_left and shift_right agree with their "
         "arithmetic definition (smallest multiple not below the value, its "
         "distance, divisibility, shift of a value of that type), without "
         "undefined behaviour, whenever the result is representable.",
         ["inputs"], "every value, multiple, alignment and shift amount of "
         "every integral type", "2^64 values times 64 alignments; the tests of "
         "these helpers are not built", [CO],
         [("helpers", "is_power_of_2 .. is_aligned, shift_left/right")])
    prop("B04", "max_alignment_inside_block is the largest sure alignment",
         "max_alignment_inside_block(a, n) is the largest power of two p such "
         "that every block of n bytes whose start is a multiple of the power of "
         "two a contains an address that is a multiple of p.",
         ["inputs"], "every power-of-two alignment and every size with a+n-1 "
         "representable", "2^64 sizes; the tests of this helper are not built",
         [CO], [("msb", "max_alignment_inside_block")])

    # ------------------------------------------------------- the rest of memory/
    prop("M09", "The resources never touch the memory they manage",
         "simple_resource and monotonic_buffer_resource neither read nor write "
         "a byte of their buffer or of upstream memory, in construction, "
         "allocate, deallocate, release or destruction. So whatever users keep "
         "in live allocations stays, and the buffer may be memory that cannot "
         "be accessed yet.",
         ["inputs", "histories"], "every buffer, every history",
         "a stray write shows only if the test happens to look at that byte; "
         + UNB, [SR, MR], [("bookkeeping outside of the buffer", "BlocksData, "
                            "monotonic_buffer_resource members")])
    prop("M12", "aligned_malloc and the system resource honour size and alignment",
         "aligned_malloc(size, alignment), and so the system resource, asks the "
         "operating system for at least size bytes with at least the power-of-two "
         "alignment, however small that is, and returns the memory obtained, or "
         "null (never an indeterminate pointer) when the operating system has "
         "none. What was obtained is given back to the operating system exactly "
         "once and unchanged.",
         ["inputs", "fault_sequences"],
         "every size and alignment, every outcome of the operating system",
         "failures of posix_memalign do not occur in tests; " + UNB, [ME],
         [("wrapper", "aligned_malloc, aligned_free, system_memory_resource")])
    prop("M13", "The null resource refuses everything; resources equal themselves",
         "null_memory_resource() returns null for every size and alignment and "
         "never calls the operating system; giving it any pointer back does "
         "nothing. The system and the null resource compare equal to themselves "
         "and different from each other.",
         ["inputs"], "every size, alignment and pointer",
         "any one pair of arguments proves little; " + UNB, [ME],
         [("null resource", "null_memory_resource"), ("comparison", "is_equal, "
           "operator==")])
    prop("M22", "memory_resource passes every request on unchanged, to its own implementation",
         "memory_resource::allocate(n, a), allocate(n), allocate<T>() and "
         "deallocate(p) call the implementation of exactly that resource once, "
         "with n and a (alignof(max_align_t), or T's size and alignment, by "
         "default) and p unchanged, and return its answer, wherever the "
         "memory_resource lies in the object. a == b is a.is_equal(b) and != its "
         "negation; the library's resources equal exactly themselves, and "
         "destroying a resource through memory_resource* destroys all of it.",
         ["inputs", "configurations"],
         "every size, alignment, answer and pointer, several resource classes",
         "any one request proves little; " + UNB, [ME, SR, MR],
         [("dispatch", "memory_resource::allocate, deallocate"),
          ("comparison", "operator==, operator!=, is_equal")])
    prop("M14", "One default resource, exchanged atomically, for the program",
         "All translation units see one system resource, one null resource and "
         "one default resource, which is initially the system resource and is "
         "what allocators and resources made without a resource use. "
         "set_default_resource returns the previous default, so that of any "
         "number of concurrent calls each previous default is returned to "
         "exactly one; a thread that gets a resource as the default sees what "
         "the thread that set it had done before, and first uses by several "
         "threads at once are free of data races.",
         ["schedules", "histories", "configurations"],
         "every history of changes by two translation units, every interleaving "
         "of concurrent changes",
         "interleavings, and the tests of the resources are single files; " + UNB,
         [ME, AL], [("singletons", "system_memory_resource(), "
                     "null_memory_resource()"), ("atomic exchange",
                     "default_resource, set_default_resource")],
         "Values are those of sequential consistency; orders too weak are found "
         "as data races.")
    prop("M15", "secure_zero_memory zeroes exactly the range, even if it is dead",
         "secure_zero_memory sets every byte of [p, p+n) to zero and no other, "
         "in constant evaluation and at run time, also when an optimising "
         "compiler can see that the memory is not read again. "
         "secure_zero_memory_safe does the same and returns 0, or does nothing "
         "and returns -1 for a null pointer and -2 for an empty range.",
         ["inputs", "configurations"], "every length, alignment and contents; "
         "optimised code", "no test can read memory after it was freed", [ME],
         [("volatile stores", "secure_zero_memory")])
    prop("M16", "memmove and memcpy copy exactly, overlapping or not",
         "memory::memmove(d, s, n) leaves in [d, d+n) what [s, s+n) held before, "
         "however the two overlap, changes nothing else and returns d; "
         "memory::memcpy does so for ranges that do not overlap, for every pair "
         "of byte-sized types and void. Both agree in constant evaluation and at "
         "run time.",
         ["inputs", "configurations"], "every pair of ranges, contents and "
         "length, both evaluation modes",
         "direction errors show only for particular overlaps; " + UNB, [ME],
         [("direction", "memmove"), ("loop", "memcpy")])
    prop("M17", "get_alignment is the exact alignment of a pointer",
         "get_alignment(p) is the largest power of two that divides the address "
         "p, for every non-null pointer value.",
         ["inputs"], "every non-null 64-bit address",
         "2^64 addresses, of which allocators return few", [ME],
         [("ctz of the address", "get_alignment")])
    prop("M18", "Allocators ask for enough memory for every count",
         "allocator<T>::allocate(n) and allocate_object<U>(n) ask their resource "
         "once for n*sizeof bytes with the type's alignment and return its "
         "answer, or return null without asking when n*sizeof is not "
         "representable. allocate_bytes passes size and alignment on "
         "(alignof(max_align_t) by default), and deallocation gives the pointer "
         "back to the same resource, once.",
         ["inputs"], "every 64-bit count, object types of several sizes and "
         "alignments", "overflowing counts are not tried; " + UNB, [AL],
         [("overflow check", "allocate, allocate_object"), ("pass on",
           "allocate_bytes, deallocate*")])
    prop("M19", "Allocators construct and destroy exactly one object, as given",
         "new_object constructs exactly one object, in memory of the right size "
         "and alignment, forwarding each argument as the caller gave it (lvalues "
         "as lvalues, rvalues moved from); when there is no memory it returns "
         "null and leaves the arguments alone. construct does the same in place; "
         "delete_object destroys the object once and returns its memory, and "
         "does nothing for null.",
         ["inputs", "fault_sequences"], "every argument value and category, "
         "memory available or not", "exhaustion is not tried; " + UNB, [AL],
         [("forwarding", "construct, new_object, delete_object")])
    prop("M20", "Allocators are equal exactly if their resources are",
         "Two allocators, of the same or of different value types, compare equal "
         "iff their resources do, symmetrically. A copy, also one converted to "
         "another value type, uses the resource of the original and is equal to "
         "it; an allocator made without a resource uses the current default.",
         ["configurations"], "every equality relation of three resources, four "
         "value types", "templates that no test instantiated did not compile",
         [AL], [("operators", "operator==, operator!=, converting constructor")])
    prop("M21", "Resources compose: pools over pools over a monotonic buffer",
         "In a chain of resources, and for a pool whose buffer is memory of "
         "another pool, every pointer obtained by any of them has the requested "
         "alignment, lies inside one of the buffers and overlaps nothing live "
         "anywhere in the chain. Every pointer can be given back to the resource "
         "it was obtained from in any order without an abort, after which all "
         "pools have one free range and no live allocation.",
         ["inputs", "histories", "configurations"],
         "every address of the arena, every size, several alignments and "
         "histories", "what one resource may ask of another shows only in "
         "combination; " + UNB, [SR, MR, AL],
         [("upstream requests", "simple_resource::allocate_impl, "
           "deallocate_impl"), ("typed requests", "allocator")],
         "Modest histories (up to 4 operations).")

    # ------------------------------------------------------- common.h
    prop("B05", "div and div_as are exact, at compile time and at run time",
         "div(a, b) is the quotient and remainder of a and b converted to their "
         "common type, and div_as<R> of a and b converted to R, for every pair "
         "of integral types and all operands with a representable result. "
         "Constant evaluation and run time agree, and quot * b + rem == a.",
         ["inputs", "configurations"], "every operand of every pair of ten "
         "integral types, both evaluation modes",
         "extreme values of mixed signedness; the tests of div are not built",
         [CO], [("two branches", "div, div_as")])
    prop("B07", "memvcmp tells whether all bytes have a value",
         "memvcmp(p, v, n) is true iff n > 0, p is not null and each of the n "
         "bytes at p equals v; it reads nothing outside [p, p+n) and writes "
         "nothing.",
         ["inputs"], "every contents and value, lengths up to 20",
         "contents that differ in one place only", [CO],
         [("overlapping memcmp", "memvcmp")])
    prop("B08", "Array helpers keep every element, in order",
         "concatenate_arrays yields the elements of its arguments in order "
         "(lvalues copied, rvalues moved); make_array, make_zero_array and "
         "sv_to_array yield the given, repeated, zero or selected values in "
         "every element, whatever the element type; is_equal compares the first "
         "k elements. make_array_from_range yields Begin, Begin+Step, ... up to "
         "End, also when one more step would leave the type's range.",
         ["inputs"], "every element value; array lengths 0 to 11",
         "the tests of these helpers are not built", [CO],
         [("pack expansions", "concatenate_arrays, make_array, "
           "make_array_from_range, is_equal")],
         "Ranges with Begin > End are not claimed.")
    prop("B09", "bit_cast and to_underlying preserve every value",
         "bit_cast<To>(x) has exactly the bytes of x, and casting back yields x, "
         "for every pair of trivially copyable types of one size; "
         "to_underlying(e) is the value of the enumerator in its underlying "
         "type, negative ones included.",
         ["inputs"], "every value of eight pairs of types and three enumerations",
         "2^64 values; the tests of these helpers are not built", [CO],
         [("memcpy", "bit_cast"), ("cast", "to_underlying")])
    prop("B10", "abort_if aborts exactly if its condition holds",
         "abort_if and UTILS_ABORT_IF abort iff the condition is true, with or "
         "without NDEBUG and a message, evaluate it exactly once and have no "
         "effect when it is false. UTILS_DEBUG_ABORT_IF does the same without "
         "NDEBUG and nothing with it.",
         ["inputs", "configurations"], "every value of the condition, with and "
         "without NDEBUG", "the tests never reach an abort", [CO],
         [("check", "abort_if, UTILS_ABORT_IF")])
    prop("B11", "for_each_arg and for_each_in_tuple visit each element once",
         "for_each_arg(f, args...) calls f exactly once for each argument, in "
         "order, with the argument's value category and without copying it; "
         "for_each_in_tuple does the same with the elements of a tuple.",
         ["inputs"], "every argument value, five value categories",
         "the tests of these helpers are not built", [CO],
         [("pack expansion", "for_each_arg, for_each_in_tuple")])
    prop("B12", "The integer type chosen for a width holds every value of it",
         "uint_from_nbits_t<N> is the smallest and fast_uint_from_nbits_t<N> "
         "some unsigned type that represents every value of N bits without "
         "loss, for N from 1 to 64; enum_properties' type and number of bits "
         "represent every enumerator up to Count, and sum_size is the sum of "
         "widths rounded up to bytes.",
         ["inputs", "configurations"], "every width, every value of that width",
         "boundary widths times all values", [CO],
         [("width selection", "uint_from_nbits, fast_uint_from_nbits, "
           "enum_properties, sum_size")])

    # ------------------------------------------------------- timer, pimpl, padding
    TI, FP, PC = R + "timer.h", R + "fast_pimpl.h", R + "padding_checker.h"
    prop("T01", "A timer's finish callback runs exactly once, from its last owner",
         "The callback given to a timer runs exactly once: when the timer that "
         "holds it, after any sequence of move constructions and assignments, is "
         "destroyed, and with that timer as argument; a moved-from timer runs "
         "nothing. The callable is stored intact (an rvalue is moved, an lvalue copied), survives moves bit for bit, "
         "and is destroyed once after the call.",
         ["histories", "inputs"], "every sequence of moves, assignments, resets "
         "and destructions; callables of six kinds",
         "the timer's tests are not built and check no call", [TI],
         [("storage", "timer constructor, copy"), ("hand over", "move "
           "constructor and assignment, ~timer")],
         "Callables must be relocatable bytewise; what assignment does to a "
         "callback still pending in the target is not claimed.")
    prop("T02", "A timer measures from its start or last reset",
         "start_tp() is the clock's reading at construction or at the last "
         "reset() and is kept by moves; leaked() is the time since then and "
         "leaked_sec, leaked_milli_sec, leaked_micro_sec and leaked_nano_sec are "
         "leaked() truncated to the unit of that name.",
         ["inputs"], "every clock reading", "real clocks give a test neither "
         "chosen nor large readings", [TI],
         [("elapsed time", "leaked*, reset, start_tp")])
    prop("F01", "fast_pimpl holds one value in place and forwards every operation",
         "The value of a fast_pimpl lies inside it and is reached by get() and "
         "->; constructing, copying, moving, assigning (from a pimpl, a value or "
         "itself) and destroying the pimpl performs exactly that one operation "
         "on the value, with arguments forwarded as given. The pimpl has the "
         "size and alignment of the value, copies are independent, and a "
         "default constructed one holds a value initialized value.",
         ["inputs", "histories"], "every contents; values of several sizes and "
         "alignments; every way to construct, then assign, then destroy",
         "the repository's only test constructs one pimpl", [FP],
         [("placement new", "constructors"), ("forwarding", "operator=, get, "
           "operator->, ~fast_pimpl")])
    prop("P01", "has_padding_v tells exactly whether bytes belong to no member",
         "For an aggregate of scalars, aggregates and std::arrays of them, "
         "has_padding_v<T> is false exactly if two objects with equal members "
         "always have equal bytes. It is true for every type that is not "
         "trivially copyable.",
         ["inputs", "configurations"], "about 200 aggregates, every value of "
         "the members and of the memory before",
         "a test states the expected answer by hand for a few types", [PC],
         [("sum of member sizes", "sum_size_of_all_members, has_padding_impl")],
         "The list of types is fixed; long double and classes with private "
         "members are outside (their own padding is not visible to the trait).")

    # ------------------------------------------------------- not applicable
    prop("N01", "Type and value lists satisfy their algebra",
         "type_list, value_list and cartesian_product (at, index_of, contains, "
         "count_of, concatenate, filter, exclude, sublist, min/max) satisfy the "
         "laws of finite sequences; values_in_range enumerates its range.",
         ["inputs"], "all lists", "infinitely many lists",
         [R + "type_list.h", R + "value_list.h", R + "cartesian_product.h", CO],
         [("pack expansions", "type_list, value_list, cartesian_product")],
         na="Template metaprograms: their inputs are template arguments and "
         "their results types, evaluated by the compiler; nothing of them is "
         "left in the intermediate representation and a template argument "
         "cannot be symbolic, so a solver could only confirm instances the "
         "compiler has already decided.")
    prop("N02", "Function traits and detectors answer for every signature",
         "function_traits, the CREATE_*_CHECKERS and detector report the "
         "qualifiers, argument and return types and the existence of members "
         "exactly, for every signature.",
         ["inputs"], "all signatures", "infinitely many signatures",
         [R + "function_traits.h", R + "detector.h"],
         [("partial specialisations", "function_traits, detector")],
         na="Pure type-level code (partial specialisations and SFINAE): no "
         "function is generated, so there is no code to execute symbolically, "
         "and signatures cannot be symbolic.")
