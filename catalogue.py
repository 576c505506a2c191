"""the properties, one entry each; mk.py turns this into properties.jsonl and MANIFEST.json"""
INC = "include/daw/"
P = []
NA = []


def prop(id, title, statement, quant, why, files, mech, **kw):
    P.append(dict(id=id, title=title, statement=statement, quant=quant, why=why,
                  files=[INC + f for f in files], mech=[(n, INC + w) for n, w in mech], **kw))


SV = ["daw_string_view.h"]
prop("P01", "Narrowing a string view cuts exactly at the documented place",
     "Removing, popping, resizing or taking a sub view of a string view yields exactly the documented part of its character range - counts are clipped to the size, "
     "searches cut at the first (or, from the back, last) delimiter, keep or drop it as asked, and leave the rest - and never reads or refers outside the original range.",
     "every size, every content, every count, every delimiter character, every delimiter string and every pure predicate",
     "The tests narrow a few literal strings; an off by one that only shows for an empty view, a missing delimiter, a delimiter at the last position or a count equal to the size is not sampled.",
     SV, [("remove_prefix / remove_suffix / pop_front / pop_back / substr", "daw_string_view.h"), ("pop_front_until / pop_back_until / try_pop_*", "daw_string_view.h")])
prop("P02", "String view searches report the first or last matching position",
     "Searching a string view for a character, a substring or a predicate reports a position inside the searched part that really matches, reports the first (or, for reverse searches, "
     "the last) such position, reports npos only when there is none, and never reads outside the two ranges.",
     "every view, needle, start position, character and pure predicate",
     "Whether the reported position is the first of all candidates is a statement about every position of every string; tests look at a dozen literals.",
     SV, [("find / rfind / search", "daw_string_view.h"), ("find_first_of_if / find_last_of_if / find_*_not_of", "daw_string_view.h")])
prop("P03", "A view that claims to be zero terminated is followed by a zero",
     "Whenever a string view says it is zero terminated, the character just behind its last one is zero; no operation on a view that does not know of a terminator ever makes the claim.",
     "every view, every narrowing, extending, copying and constructing operation, every count and character",
     "The mark is carried through every operation; one operation that keeps it while moving the end leads to reads past the end in C code only for particular inputs.",
     SV, [("is_zero_terminated / set_zero_terminated", "daw_string_view.h"), ("dec_back / inc_back / substr_unsafe", "daw_string_view.h")])
prop("P04", "String view comparison is decided by the characters",
     "Two string views compare equal exactly when they have the same size and the same characters, order by the first difference and then by size, the six operators agree with the three way "
     "comparison, and starts_with / ends_with hold exactly when the prefix / suffix of that size is equal.",
     "every pair of views of every size and content",
     "Tests compare a few literals; a comparison that ignores one position, or reads past the shorter view, passes them.",
     SV, [("compare / operator== / operator<=>", "daw_string_view.h"), ("starts_with / ends_with", "daw_string_view.h")])

PTR = ["daw_unique_ptr.h", "daw_maybe_unique_ptr.h", "daw_ref_counted_pointer.h", "daw_value_ptr.h"]
prop("P05", "Owning pointers destroy what they own exactly once",
     "unique_ptr, maybe_unique_ptr, rc_ptr and value_ptr destroy the object they own exactly once, when the last owner lets go of it, and never an object they do not own or were released from; copies, moves, "
     "assignments (to itself too), swap, reset and release leave both sides as documented. rc_ptr's count is the number of owners, value_ptr copies own an object of their own.",
     "every combination of empty, owning, borrowing and sharing operands of every operation",
     "A double or missing destruction only shows in particular states of the two operands, and often not even then without a sanitizer.",
     PTR, [("unique_ptr", "daw_unique_ptr.h"), ("maybe_unique_ptr", "daw_maybe_unique_ptr.h"), ("rc_ptr::reset", "daw_ref_counted_pointer.h"), ("value_ptr", "daw_value_ptr.h")])

prop("P06", "Scope guards and unique resources clean up exactly once",
     "A scope guard runs its handler exactly once when its scope is left, normally or by an exception, unless it was dismissed or moved from; on_exit_success and on_exit_fail run only on their way out. "
     "unique_resource releases the value it holds exactly once and never one it gave up, and the count of a countable resource is the number of its live objects.",
     "every way of leaving the scope (return, exception, run_now), every combination of engaged and empty operands",
     "A handler that runs twice or not at all needs an exception or a moved from guard at one particular place.",
     ["daw_scope_guard.h", "daw_unique_resource.h", "daw_countable_resource.h"],
     [("ScopeGuard", "daw_scope_guard.h"), ("unique_resource::reset / release", "daw_unique_resource.h"), ("countable_resource_t", "daw_countable_resource.h")], over=["inputs", "fault_sequences"])
prop("P07", "Files and mappings are released exactly once on every path",
     "memory_mapped_file and read_file close every descriptor, stream and mapping they obtained exactly once and nothing else, whichever system call fails; a failed open leaves an empty, unusable but "
     "safe object, and a file that could not be read whole is reported and never returned as if it was.",
     "every outcome of every open, lseek, mmap, file_size, fopen and fread, every file size, every sequence of two operations on a mapping",
     "Failing system calls and short reads are not produced by any test, and a leaked descriptor does not fail one.",
     ["daw_memory_mapped_file.h", "daw_read_file.h"],
     [("memory_mapped_file_t::open", "daw_memory_mapped_file.h"), ("read_file", "daw_read_file.h")], over=["inputs", "fault_sequences", "histories"])
prop("P08", "Spans, views and span writers refer to exactly the documented part",
     "Every operation of span, contiguous_view and view leaves the view - and gives the caller - exactly the documented sub range of the range it was built from; at, subspan and pop throw out_of_range exactly "
     "when there is no such element. Searching stops at the first match, comparison is the lexicographical order, and a span_writer writes exactly the elements it was given and never outside its span.",
     "every base range and length, every position, count and element, for mutable and const elements",
     "The tests use a handful of short ranges; clipping, counts at and past the size, and the const variants are hardly touched.",
     ["daw_span.h", "daw_contiguous_view.h", "daw_view.h", "daw_span_writer.h"],
     [("span::subspan", "daw_span.h"), ("contiguous_view::remove_prefix", "daw_contiguous_view.h"), ("view::pop_front", "daw_view.h"), ("span_writer::write", "daw_span_writer.h")], over=["inputs"])
prop("P09", "Every header stands alone and can be in any number of units",
     "Each header of the library compiles when it is the only thing a translation unit includes, may be included any number of times, and defines nothing that stops two translation units that both include it from linking. No template of it uses a macro whose header it does not include.",
     "every header, as the first or a repeated include of a translation unit",
     "Each test includes the headers in one order, most after others that supply what they miss, and is one translation unit; a header with a missing include or a strong definition passes them all.",
     ["daw_string_view.h", "pipelines/map.h", "daw_uint_buffer_ios.h"], [("all headers", "daw_string_view.h")], over=["programs", "configurations"],
     tech="static analysis: per header compile witness (the header alone, twice) and a symbol table rule on the IR it emits",
     note="Enumerates the headers of the tree on every run; each is compiled by clang 18 as C++23 as the only include, twice, and its bitcode is searched for strong external definitions; control headers of both kinds on every run. Nothing is run.")

prop("P10", "Throwing helpers throw the asked exception exactly when asked",
     "Every throw_on / dbg_throw_on / debug and precondition / postcondition helper throws an exception of exactly the type it was told to, built from the arguments it was given, when its condition says so, and otherwise does "
     "not throw and passes the tested value on unchanged; the checking helpers that end the program do so exactly when the check fails, and no_exception lets no exception out.",
     "every condition value, every tested value, every exception type and argument",
     "A test that never trips the helper does not see that it throws another type, or throws where it must not.",
     ["daw_exception.h"], [("throw_on_false / throw_on_true / throw_on_null", "daw_exception.h"), ("precondition_check", "daw_exception.h"), ("no_exception", "daw_exception.h")], over=["inputs", "fault_sequences"])
prop("P11", "Constrained values never hold a value that fails the constraint",
     "A natural_t is never zero (nor negative), a not_null is never null and a validated value always satisfies its validator, whatever value they are constructed or assigned from or computed with, also after an exception; an operation that would break this "
     "throws or ends the program instead, and one that would not gives the value of the underlying operation.",
     "every value and every pair of operands, for the operand types of the library",
     "The one operand pair whose difference, quotient or narrowing is zero is not among the sampled ones.",
     ["daw_natural.h", "daw_validated.h", "daw_not_null.h", "daw_contract.h"], [("natural_t operators", "daw_natural.h"), ("validated", "daw_validated.h"), ("not_null", "daw_not_null.h")], over=["inputs"])
prop("P12", "A stored callable is called once, with the arguments of the call",
     "Calling through function_ref, function_view, function, shared_function, a function_table entry, bind_front, bind_args_at, apply, invoke, overload or a lifted function calls the held callable exactly once with the given arguments in order "
     "and returns its result; an empty function throws bad_function_call. Owning wrappers copy, move and destroy what they hold exactly once, and a shared callable lives until its last owner, but not longer, lets go.",
     "every argument value, every kind of callable (object, function pointer, empty), every sequence of two assignments",
     "That a wrapper calls the previous target after an assignment, or copies an object bytewise, shows only for callables with state or ownership, which the tests do not use.",
     ["daw_function_ref.h", "daw_function_view.h", "daw_stack_function.h", "daw_shared_function.h", "daw_function_table.h", "daw_bind_front.h", "daw_bind_args_at.h", "daw_apply.h"],
     [("function_ref::operator()", "daw_function_ref.h"), ("function_storage", "daw_stack_function.h"), ("strong_release / weak_upgrade", "daw_shared_function.h"), ("apply_at_impl", "daw_function_table.h")], over=["inputs", "histories"])

prop("P13", "Bounded containers hold exactly the elements put into them",
     "bounded_vector, ring_adaptor, keep_n, unique_array and the fixed size arrays hold exactly the elements pushed, inserted or assigned and not yet removed, in order: size, indexing, iteration (also const and reverse), front, back, data, "
     "copy, swap, erase, resize and comparison all agree with that sequence. at and operations that do not fit throw and leave it unchanged; keep_n keeps the n best of everything it was offered.",
     "every element value and every position the live range can have in the storage of a container of capacity 4 (bounded_vector), 3 (ring_adaptor, keep_n); unique_array of every size",
     "The tests only fill the containers from the front; positions after pop_front, full containers and const iteration are never reached.",
     ["daw_bounded_vector.h", "daw_ring_adaptor.h", "daw_keep_n.h", "daw_unique_array.h", "daw_array.h", "daw_simple_array.h", "daw_bounded_array.h"],
     [("bounded_vector_t::push_front / erase / resize", "daw_bounded_vector.h"), ("ring_adaptor", "daw_ring_adaptor.h"), ("keep_n::insert", "daw_keep_n.h"), ("unique_array_t::at", "daw_unique_array.h")], over=["inputs", "histories"])
prop("P14", "Algorithms return the position, order or contents they promise",
     "The algorithms over ranges agree with their specification for every range: searches return the first position that qualifies and the end only if there is none, quantifiers and counts look at every element, bounds split the range, "
     "comparisons decide at the first difference, and copying, transforming, filling, removing, partitioning, rotating and reversing write exactly the elements promised, in order, and return the end of what they wrote. No element outside the given ranges is read or written.",
     "every length, with an arbitrary position watched (searches, quantifiers, copies, transformations, fills, removals); every arrangement of up to 5 elements (rotations, reversals, selections, intersections); every content",
     "The tests run each algorithm on one small fixed range; nothing covers empty ranges, matches at either end, targets at the end of the range or the comparison of the last elements.",
     ["daw_algorithm.h", "daw_algorithm_cx.h", "vector_algorithm.h", "algorithms/*.h"],
     [("algorithm::find_if / lower_bound / minmax_element / remove_if", "daw_algorithm.h"), ("rotate, nth_element, partition", "daw_algorithm_cx.h"), ("adjacent_find", "algorithms/daw_algorithm_adjacent_find.h")])
prop("P15", "Integers, bytes and bits come out as the numbers they stand for",
     "Comparing integers of different types gives the order of the numbers, in_range says exactly which values a type holds, byte order conversions and bit reversal move every byte and bit to its place, and the sized unsigned types compute what the integers they stand for do. "
     "A bitset changes exactly the bit it is told to, bit queues and streams hand out exactly the bits put in, in order, and ASCII classification and case changes are right for every character.",
     "every value of every pair of integer types listed in the drivers, every bit position and shift of the sized types, every split of a bit queue listed",
     "The tests compare a few constants; mixed signs at the limits, the upper half of a word, a full queue and the bits next to the changed one are not among them.",
     ["daw_int_cmp.h", "daw_bit.h", "daw_endian.h", "daw_integer_reverse.h", "daw_bitset.h", "daw_bit_queues.h", "daw_bit_stream.h", "daw_uint_types.h", "daw_math.h", "daw_ascii.h"],
     [("cmp_less / in_range", "daw_int_cmp.h"), ("basic_bit_queue", "daw_bit_queues.h"), ("swap_bytes", "daw_endian.h"), ("UInt64 operators", "daw_uint_types.h"), ("bitset::set / unset", "daw_bitset.h")], over=["inputs"])
prop("P16", "Sum types hold what was put in last, once, and say which it is",
     "optional, expected_t, union_pair, value_ptr, poly_value and poly_var hold exactly what was last stored: asking for it gives that value, or reports that there is none (or the exception stored instead), copies are independent, and what is held is destroyed exactly once, also when a copy throws. "
     "Comparisons agree with those of the values, with nothing before every value. Visiting a variant calls the visitor once, with the alternative that is held, and reports a variant without a value.",
     "every value and every sequence of two operations from every state; variants of 1 to 17, 20 and 33 alternatives in every state",
     "The tests never look at the empty or valueless states, at relations with nothing on either side, at copies that throw, nor at variants past the sizes of the first cases.",
     ["daw_optional.h", "daw_expected.h", "daw_visit.h", "daw_union_pair.h", "daw_poly_value.h", "daw_poly_var.h", "daw_value_ptr.h", "daw_variant_cast.h"],
     [("optional relations", "daw_optional.h"), ("expected_t::from_code / get", "daw_expected.h"), ("visit / visit_nt", "daw_visit.h"), ("union_pair_t::store_type0", "daw_union_pair.h"), ("value_ptr::operator=", "daw_value_ptr.h")], over=["inputs", "histories"])
prop("P17", "Iterator adaptors name the elements they promise and add up",
     "Stepping an iterator adaptor forward, back or by n and dereferencing it gives the element its description says (the n-th of the base, of the reverse, of the chunk, of the cycle, of the count, of both zipped ranges; the next that passes the filter), and it agrees with its own "
     "differences, comparisons, indexing and copies before and after post increments. Output adaptors store every value assigned exactly once, a checked iterator refuses what was asked to be checked, and counted ranges give every value in order and stop at the end.",
     "every position, distance and element of an arbitrary base range; ranges of every start, end and step the iota of the drivers takes",
     "The tests walk each iterator forward over one range; post increments, negative steps, differences, order and operations at the ends are not looked at.",
     ["iterator/*.h", "pipelines/iota.h"],
     [("circular_iterator / chunk_iterator / reverse_iterator", "iterator/daw_circular_iterator.h"), ("iota_iterator", "iterator/daw_iota_iterator.h"), ("find_iterator", "iterator/daw_find_iterator.h"), ("checked_iterator_proxy_t", "iterator/daw_checked_iterator_proxy.h")], over=["inputs"])
prop("P18", "Hashes are the published functions of the bytes, and only of them",
     "fnv1a_hash, generic_hash, metro::hash64 and siphash24 give, for every content, key and seed, the value their published definition gives for those bytes, whichever overload and character type names them, "
     "and read nothing outside the range (any length) or past the terminating zero.",
     "every byte content, key and seed; lengths 0 to 9 for fnv1a and generic, around every block boundary up to 96 for MetroHash64 and 0 to 23 for SipHash; every length for the reads",
     "The tests compare the hashes of one or two strings with each other; bytes above 127 and the lengths at the block boundaries are not among them.",
     ["daw_fnv1a_hash.h", "daw_generic_hash.h", "daw_metro_hash.h", "daw_sip_hash.h"],
     [("fnv1a_hash", "daw_fnv1a_hash.h"), ("generic_hash_t::append_hash", "daw_generic_hash.h"), ("metro::hash64", "daw_metro_hash.h"), ("siphash24", "daw_sip_hash.h")], over=["inputs"])
