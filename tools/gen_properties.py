#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/gen_properties.py)."""
import json, os
H = "include/embedded/"
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
      quantifier=dict(over=over, text=text), why_tests_cant=why,
      anchors=dict(files=[H+f if not f.startswith("scripts") else f for f in files],
        state=[dict(name=n, meaning=m, where=w) for n,m,w in state],
        mechanism=[dict(name=n, where=w) for n,w in mech],
        observe_at=list(observe), hook_needed=hook)))

ALLH = ["function.h","circular_buffer_adapter.h","detail/circular_buffer_adapter.h","varint.h","mutex.h","move_wrapper.h","typelist.h","type_traits.h","utility/integer_sequence.h","constexpr_math.h","signal/filter.h","signal/sos.h","signal/poly.h","signal/bessel.h","signal/butterworth.h","signal/chebyshev.h","signal/debug_filter_coefs.h"]

# ---------------------------------------------------------------- library-wide
prop("C01","Every header builds in every supported language configuration",
 "Every public header compiles on its own, and the whole public interface of the library can be instantiated and used, in C++11, 14, 17 and 20, with or without exceptions and RTTI, with asserts on or off, for 32- and 64-bit targets, with GCC and with Clang.",
 ["configurations"],"all combinations of compiler, language standard, exception/RTTI setting, NDEBUG and data model, and all public members of the templates",
 "The tests are built once, with g++ -std=gnu++17 and exceptions on; the C++11 fallbacks, the no-exception branches and members no test happens to call (templates are only checked when instantiated) are never compiled.",
 ALLH+["config.h","preprocessor.h","constexpr_math/functions.h","type_traits/is_invocable.h","variant.h"],
 [("feature macros","config.h LIBEMB_HAS_EXCEPTIONS / LIBEMB_HAS_RTTI"),("C++11 fallbacks","type_traits/*, utility/integer_sequence.h, constexpr_math/functions.h")],
 observe=["front ends of g++ and clang++"])
prop("C02","No dynamic memory allocation",
 "No operation of the library allocates or frees heap memory, directly or through anything it calls, whatever its arguments; only a user-supplied type or container may do so, and the exception object when an error is thrown.",
 ["inputs","configurations"],"every public operation, every path through it, every configuration",
 "The tests never count allocations, and an allocation on a rare path (large callable, wrap-around, error path) would not change any tested result.",
 ALLH,[("in-place storage","function.h storage_"),("placement new only","circular_buffer_adapter.h, function.h"),("value-semantic fixed-size vectors","constexpr_math/vector.h")],
 observe=["call graph of the compiled library code"])
prop("C03","Exceptions are raised only where documented; works without them",
 "The library itself throws in exactly two situations, calling an empty function wrapper (std::bad_function_call) and at() with an index out of range (std::out_of_range); it swallows no exception of user code. With exceptions and RTTI disabled nothing in the library needs their run-time support, and calling an empty function wrapper terminates the program.",
 ["inputs","configurations"],"every public operation and path, in builds with and without exceptions and RTTI",
 "Only the exceptions-on build is tested, and only a handful of throwing paths; the -fno-exceptions branches are never compiled by the test build.",
 ["config.h","function.h","circular_buffer_adapter.h","detail/circular_buffer_adapter.h","varint.h","mutex.h","move_wrapper.h"],
 [("conditional throw","function.h empty_call"),("conditional throw","circular_buffer_adapter.h at()")],
 observe=["call graph of the compiled library code"])
prop("C04","No hidden shared state: operations touch only their own objects",
 "The library keeps no writable state outside the objects the user creates: an operation modifies only the object it is called on and the memory or objects passed to it for modification. Distinct objects can therefore be used from different threads or interrupt handlers without synchronisation.",
 ["schedules","histories"],"every public operation, every interleaving of operations on distinct objects",
 "Hidden static state would only show under particular interleavings or histories; the tests are single-threaded.",
 ALLH,[("constant virtual tables","function.h empty_vtbl / typed_vtbl"),("per-instance filter state","signal/sos.h state_, signal/poly.h y_")],
 observe=["stores to global objects in the compiled library code"])

# ---------------------------------------------------------------- function
prop("F01","A wrapped callable is created once, moved correctly and destroyed exactly once",
 "Over any sequence of constructing, move-constructing, move-assigning, re-assigning, clearing and destroying function wrappers, every callable object that a wrapper creates is destroyed exactly once, at the address where it was created and never while still held. Moving a wrapper transfers the callable by exactly one move-construction into the destination followed by destruction of the source's, and assigning over a wrapper destroys the previously held callable.",
 ["histories","inputs"],"all sequences of wrapper operations over all pairs of (empty / holding type T / holding type U) states, including self-assignment",
 "tests/function.cpp is not part of the runnable baseline, and even it samples one move of one type; leaks and double destruction are invisible to value checks.",
 ["function.h"],[("type-erased move/destroy","function.h vtbl::vt_proc"),("assignment by destroy and re-create","function.h operator=(function&&)"),("destructor","function.h ~function")],
 state=[("vtbl_","identifies the held callable's type, or empty","function.h"),("storage_","bytes of the held callable","function.h")],
 observe=["constructor/destructor calls of the callable type"])
prop("F02","A wrapper is empty or holds a callable, and says which",
 "A wrapper tests true after being constructed or assigned from a callable or a non-null pointer to member, and false after default construction, construction or assignment from nullptr or a null pointer to member, and after having been moved from. Calling an empty wrapper throws std::bad_function_call (terminates without exceptions) and never runs any callable.",
 ["histories","inputs"],"all sequences of operations; all held types",
 "Existing runnable tests only call freshly constructed wrappers; moved-from and re-assigned states depend on history.",
 ["function.h"],[("empty vtable","function.h empty_vtbl"),("moved-from reset","function.h function(function&&)"),("null member pointers","function.h function(M C::*)")],
 state=[("vtbl_","empty or typed table","function.h")],observe=["operator bool","operator()"])
prop("F03","Calling a wrapper calls the held callable, once, with the caller's arguments",
 "Invoking a non-empty wrapper invokes exactly the callable most recently stored in it, exactly once, with the given arguments in order and its result returned unchanged: reference parameters refer to the caller's objects, by-value arguments are moved and never copied on the way. An exception thrown by the callable reaches the caller and leaves the wrapper holding the same callable.",
 ["inputs","histories"],"all argument and result types, all held callables, normal and exceptional return",
 "Tests call with a few int arguments; extra copies, swapped arguments of equal type or a lost reference need particular signatures to show.",
 ["function.h"],[("dispatch","function.h function_traits::operator(), vtbl::vt_call")],observe=["calls of the callable's operator()"])
prop("F04","Unfit callables are rejected at compile time; fitting ones live in the wrapper",
 "Wrapping a callable that is larger than the wrapper's capacity, needs stricter alignment, may throw when moved, or cannot be called with the wrapper's signature does not compile, while every other callable (function wrappers of other types excepted) that meets these limits is accepted. An accepted callable is stored entirely within the wrapper object, at an address aligned for it.",
 ["programs","inputs"],"all callable types, capacities and alignments",
 "A test suite contains only programs that compile; what must be rejected at compile time cannot be expressed as a passing run-time test.",
 ["function.h","type_traits/is_invocable.h"],[("static_asserts","function.h function(T&&)"),("SFINAE on invocability","function.h function(T&&), type_traits/is_invocable.h"),("aligned storage","function.h storage_")],
 observe=["compiler diagnostics","address of the stored callable"])
prop("F05","Function wrappers are move-only and const-correct",
 "A function wrapper can be moved without throwing but never copied. A wrapper with a const signature accepts only callables that can be called as const objects and always calls them as const; it can be called through a const reference, while a wrapper with a non-const signature cannot.",
 ["programs","inputs"],"all callable types, including those with distinct const and non-const call operators, and all contexts",
 "Ill-formed programs cannot be run-time tests, and no test uses a callable whose const and non-const call operators differ.",
 ["function.h"],[("deleted copy operations","function.h"),("const specialisation","function.h function_traits<R(Args...) const>")],observe=["compiler diagnostics","selected operator() overload"])

# ---------------------------------------------------------------- circular buffer
CB = ["circular_buffer_adapter.h","detail/circular_buffer_adapter.h"]
CBST=[("first_, last_","slots of the first element and one past the last","circular_buffer_adapter.h"),("size_","number of elements","circular_buffer_adapter.h"),("begin_, end_","the adapted memory","circular_buffer_adapter.h")]
prop("B01","The circular buffer behaves as a bounded double-ended queue",
 "For every capacity and every history of valid operations, push/emplace at either end adds one element at that end, pop_front/pop_back removes one or the given number of elements from that end, clear removes all, and every other element keeps its order. size, empty, full, remaining, capacity, front, back, operator[] and at report exactly the resulting sequence, and no internal assertion fires.",
 ["histories","inputs"],"every capacity, every position of the sequence in the buffer (wrapped or not), every valid operation sequence and count",
 "Tests use capacities 1..10 and a few positions; wrap-around behaviour depends on the exact combination of position, size, count and capacity.",
 CB,[("index arithmetic","circular_buffer_adapter.h add/sub/inc/dec/prev"),("element operations","circular_buffer_adapter.h push_*/emplace_*/pop_*/clear")],state=CBST,observe=["size()","operator[]","front()","back()","raw_index()"])
prop("B02","The circular buffer never touches memory outside the slots it may use",
 "No operation reads or writes memory outside the user's [data, data+capacity) range and the caller's own arguments. Adding elements writes only the free slots they go to, removing elements or inspecting the buffer modifies no element that stays, and constructing, moving or destroying the adapter itself touches no slot at all.",
 ["histories","inputs"],"every capacity, position, size and count; trivial and non-trivial element types",
 "An out-of-range or misplaced access depends on a particular combination of position, size and count, and may go unnoticed in a test that checks only values.",
 CB,[("wrap-around","circular_buffer_adapter.h inc/dec/add/sub, copy_in_impl, copy_out_impl")],state=CBST,observe=["memory accesses to the adapted range"])
prop("B03","Elements are constructed and destroyed exactly once, in their own slots",
 "For element types with non-trivial construction or destruction, each added element is constructed exactly once, directly in its slot from the caller's argument, and each removed element is destroyed exactly once: pop_front(n), pop_back(n) and clear destroy exactly the elements they remove, whether or not these wrap around. No element is ever copied, moved or assigned otherwise, and the adapter's own destruction destroys none.",
 ["histories","inputs"],"every capacity, position, size and count",
 "Tests track constructions for one buffer of 4 elements; a wrong slot or a missed destructor needs a particular wrap position and count.",
 CB,[("range destruction","circular_buffer_adapter.h destroy"),("placement construction","circular_buffer_adapter.h push_*/emplace_*")],state=CBST,observe=["constructor and destructor calls of the element type"])
prop("B04","A failed insertion leaves the buffer unchanged",
 "If constructing a new element throws in push_front, push_back, emplace_front or emplace_back, the exception reaches the caller and the buffer holds exactly the same elements in the same slots as before, with none of them destroyed or rewritten.",
 ["fault_sequences","histories"],"every insertion operation, every buffer state, every throwing constructor",
 "The throwing path is only sampled from a few states of one small buffer.",
 CB,[("construct before advancing","circular_buffer_adapter.h push_*/emplace_*")],state=CBST,observe=["buffer state after the exception"])
prop("B05","A buffer can be detached and re-attached to the same memory",
 "An adapter constructed on existing memory with the first index and element count taken from another adapter (raw_index of begin(), size()) represents the same sequence and behaves identically from then on, for index-based and pointer-based construction alike. raw_index(it) is the slot number of the element it refers to and, for end(), of the slot after the last element.",
 ["histories","crash_points"],"every state reachable by any history; every iterator position",
 "Tests re-attach once, in one state; the claim is about every state a history can reach.",
 CB,[("constructors from first index and count","circular_buffer_adapter.h constructors"),("raw_index","circular_buffer_adapter.h raw_index")],state=CBST,observe=["raw_index()","constructors"])
prop("B06","Iterators traverse the sequence in order with random access",
 "For every buffer state, begin()+i refers to the i-th element and begin()+size() equals end(); ++, --, +=, -=, +, -, [], * and -> move and refer consistently with that, the difference of two iterators is the difference of their positions, and ==, !=, <, <=, >, >= order iterators by position, for mutable and const iterators and mixtures, also in a full or wrapped buffer. Const and reverse iterators support the same operations without giving write access.",
 ["inputs","histories"],"every buffer state, every pair of positions and every offset",
 "Tests cover one 4-element buffer; const iterators are compared but never advanced or copied.",
 CB,[("iterator arithmetic","detail/circular_buffer_adapter.h operator+=/-=/++/--"),("logical index","circular_buffer_adapter.h index()")],state=CBST+[("it_","slot referred to; null for end","detail/circular_buffer_adapter.h")],observe=["iterator operators"])
prop("B07","Bulk copies equal element-by-element transfers, across the wrap",
 "copy_in_back/copy_in_front append/prepend count elements in order, copy_out_front/copy_out_back remove them in order into the destination, and copy_in/copy_out over an iterator range overwrite/read exactly that range, for every position, wrapped or not, and every count up to what fits. They transfer each element exactly once, touch nothing else, and leave positions and size as the same number of single pushes or pops would.",
 ["inputs","histories"],"every capacity, position, size, range and count",
 "Tests run one scripted sequence on a buffer of 10; segment splitting depends on how position, count and capacity line up.",
 CB,[("segment splitting","circular_buffer_adapter.h copy_in_impl / copy_out_impl"),("position update","circular_buffer_adapter.h copy_in_front/back, copy_out_front/back")],state=CBST,observe=["memcpy of segments","size()","raw_index()"])
prop("B08","at() checks its index",
 "at(i) throws std::out_of_range exactly when i is not less than size(), without touching the buffer, and otherwise returns a reference to the i-th element.",
 ["inputs","histories"],"every index value and every buffer state",
 "Tests try indices 0 and 1 on a buffer with 0 or 1 elements.",
 CB,[("range check","circular_buffer_adapter.h at()")],state=CBST,observe=["at()"])

# ---------------------------------------------------------------- varint
prop("V01","Encoding is the canonical minimal base-128 form",
 "For every value of every integer type, encode emits the value in 7-bit groups, least significant first, with the top bit set in every byte but the last, and no more bytes than necessary; signed values are first mapped by zig-zag. The bytes are the same for the bounded, unbounded and back-insert forms, and are emitted in order, each exactly once.",
 ["inputs"],"all values of all 8/16/32/64-bit signed and unsigned types",
 "Tests sample about a dozen values per type and only check the round trip.",
 ["varint.h"],[("encoder","varint.h encode_impl")],observe=["bytes written"])
prop("V02","size() is the exact encoded length",
 "varint::size(v) equals the number of bytes that encode produces for v, for every value of every integer type.",
 ["inputs"],"all values of all 8/16/32/64-bit signed and unsigned types",
 "Tests compare size for a handful of boundary values.",
 ["varint.h"],[("length computation","varint.h size")],observe=["size()"])
prop("V03","Encoding respects the end of the buffer",
 "encode(value, begin, end) never writes at or beyond end; it returns the end of the encoding when the whole encoding fits and begin when it does not, for every value and every buffer length including zero.",
 ["inputs"],"all values and all buffer lengths",
 "Tests try lengths 0 to 2 with a few values; an overrun by one byte would usually not be noticed.",
 ["varint.h"],[("end check before each byte","varint.h encode_impl check_iter")],observe=["bytes written","returned iterator"])
prop("V04","Decoding inverts encoding and rejects what it cannot represent",
 "decode reads only within [begin, end), stops after the first byte without the continuation bit and, if the 7-bit groups up to it (no more of them than the type's width needs) form a value of the target type, stores that value (zig-zag-decoded for signed types) and returns the position after it. It returns begin exactly when the buffer ends first or the encoding does not fit the target type's width.",
 ["inputs"],"all byte sequences of all lengths; all 8/16/32/64-bit signed and unsigned target types",
 "Tests decode only encodings the library produced plus three error cases; arbitrary, overlong and truncated input is unbounded.",
 ["varint.h"],[("decoder","varint.h decode"),("overflow check on the last group","varint.h decode")],observe=["decoded value","returned iterator"])
prop("V05","Zig-zag mapping is the documented bijection",
 "zig_zag_encode maps n >= 0 to 2n and n < 0 to -2n-1 for every value of every signed integer type, and zig_zag_decode is its exact inverse.",
 ["inputs"],"all values of all 8/16/32/64-bit types",
 "Tests sample a few values through encode/decode only, which would also accept another bijection.",
 ["varint.h"],[("transform","varint.h zig_zag_encode / zig_zag_decode")],observe=["zig_zag_encode","zig_zag_decode"])

# ---------------------------------------------------------------- small utilities
prop("L01","lock_guard holds the lock for exactly its lifetime",
 "Creating a lock_guard calls lock() on the given mutex exactly once before any code in its scope runs, and leaving the scope, normally, early or by an exception, calls unlock() on the same mutex exactly once. If lock() throws, unlock() is not called, and a guard can be neither copied nor moved.",
 ["schedules","histories","programs"],"all mutex types, all ways of leaving the scope",
 "The test has one scope left normally; exceptional exits, order relative to the guarded code and non-copyability are not exercised.",
 ["mutex.h"],[("constructor/destructor pair","mutex.h lock_guard")],state=[("m_","the guarded mutex","mutex.h")],observe=["lock()/unlock() calls"])
prop("M01","move_wrapper moves its value whenever it is copied or moved",
 "Constructing a move_wrapper moves the given value into it, and copying or moving a move_wrapper moves the contained value from the source exactly once and never copies it, also when the source is const and for move-only types. operator* and operator-> give access to the contained value itself, const access through a const wrapper, and destroying the wrapper destroys the value exactly once.",
 ["programs","histories"],"all value types and construction histories",
 "Tests use one move-only type; an extra move or a copy of a copyable type does not change the tested values.",
 ["move_wrapper.h"],[("copy constructor moves","move_wrapper.h")],state=[("val_","the contained value","move_wrapper.h")],observe=["constructor calls of the value type"])
prop("M02","move_wrapper never turns a throwing move into termination",
 "Constructing, copying or moving a move_wrapper is noexcept exactly when moving the contained type is noexcept; if moving the value throws, the exception reaches the caller.",
 ["programs","fault_sequences"],"all contained types, with every combination of throwing and non-throwing default and move constructors",
 "Tests use one type whose constructors do not throw.",
 ["move_wrapper.h"],[("conditional noexcept","move_wrapper.h")],observe=["noexcept operator","exception propagation"])
prop("T01","Integer sequences and ranges contain exactly the requested integers",
 "make_integer_sequence<T,N>, make_index_sequence<N> and index_sequence_for yield 0..N-1, and make_integer_range<T,B,E> and make_index_range<B,E> yield B..E-1, each once and in order, with the right value type and size(), for empty, single-element, negative and large ranges.",
 ["programs"],"all N, B <= E and integer types",
 "Tests name seven ranges, none of them from the make_integer_sequence family, and none long.",
 ["utility/integer_sequence.h"],[("recursive generation","utility/integer_sequence.h")],observe=["resulting types"])
prop("T02","Type traits agree with their standard counterparts",
 "conjunction has the value and base of std::conjunction, including its short-circuit and empty forms, and is_invocable_r answers as std::is_invocable_r does for every function object, argument list and result type, also with the library's own implementation used before C++17. typelist keeps its types in order through append and to.",
 ["programs","configurations"],"all types; both the fallback and the standard implementation",
 "The test build is C++17, where the fallback is not even compiled; conjunction has no test.",
 ["type_traits/conjunction.h","type_traits/is_invocable.h","typelist.h"],[("fallback trait","type_traits/is_invocable.h is_invocable_helper"),("short circuit","type_traits/conjunction.h")],observe=["trait values and types"])

# ---------------------------------------------------------------- constexpr math
prop("X01","Complex arithmetic obeys complex algebra",
 "Up to floating-point rounding, complex +, -, *, / (between complex numbers and with a real on the supported sides), negation, conj, norm, abs, distance, real, imag and exp compute the mathematical complex operation for all finite operands (non-zero divisors); is_real is true exactly for a zero imaginary part and == compares both parts.",
 ["inputs"],"all real and imaginary parts",
 "Tests check six literal values and never multiply, divide or exponentiate directly.",
 ["constexpr_math/complex.h"],[("operators","constexpr_math/complex.h")],observe=["operator results"])
prop("X02","Vector operations place every element correctly",
 "For every size, vector construction, conversion, create, full, zeros, ones, append, subvector, erase, swap and swappop yield exactly the documented elements of their inputs in the documented positions, and transform, reduce, prod, real/imag/norm/abs and the scalar +, -, *, / operators apply the operation to every element exactly once, with operands on the right side.",
 ["inputs"],"all element values, sizes and index arguments",
 "Tests check single examples of subvector, erase and swap; the rest is only exercised indirectly through particular filters.",
 ["constexpr_math/vector.h","constexpr_math/complex.h"],[("index-sequence expansion","constexpr_math/vector.h *_impl")],observe=["elements of results"])
prop("X03","Vector selection and ordering are correct for every ordering of elements",
 "argmin returns the index of the first element that no other element precedes, count the number of elements satisfying the predicate, sort a permutation of the input in non-descending predicate order, and == is true exactly when all elements compare equal, for every arrangement of values, ties included.",
 ["inputs"],"all element arrangements up to ordering, ties included",
 "Tests sort four literal vectors; a comparison slip shows only for particular arrangements.",
 ["constexpr_math/vector.h"],[("recursion","constexpr_math/vector.h detail::argmin/count/sort/compare")],observe=["argmin","count","sort","operator=="])
prop("X04","Convolution and polynomial expansion are exact",
 "convolve_full(a,b)[n] is the sum of a[m]*b[n-m] over all valid m, and poly(zeros) is the coefficient list, highest power first, of the monic polynomial with exactly those roots, up to rounding, for every length and all values, real or complex.",
 ["inputs"],"all element values, all lengths",
 "One 3x3 convolution is tested; poly only through whole filters.",
 ["constexpr_math/convolve.h","constexpr_math/poly.h"],[("recursive sums","constexpr_math/convolve.h convolve_single, constexpr_math/poly.h poly_rec")],observe=["result elements"])
prop("X05","The math functions mean the same whichever back end provides them",
 "Every function the constexpr math layer offers is available under the same name from both back ends (the compiler's library and the gcem library, which may offer more), each name refers to the mathematical function of that name, and min and max return the smaller and larger argument in every language standard; pi is the constant pi in every floating-point type.",
 ["configurations","inputs"],"both back ends, all language standards, all arguments",
 "Only the GCC back end in C++17 is ever compiled; half of the names are used by no test.",
 ["constexpr_math/functions.h","constexpr_math/constants.h"],[("using-declarations","constexpr_math/functions.h"),("C++11 min/max","constexpr_math/functions.h")],observe=["resolved callee of each name"])

# ---------------------------------------------------------------- signal
prop("S01","A polynomial filter realises its difference equation",
 "Starting from rest, the output of a polynomial filter instance satisfies a[0]*y[n] = sum b[k]*x[n-k] - sum a[k]*y[n-k] (k>=1, a[0]=1), with the coefficients its design reports, at every step and for every order and input sequence, up to rounding.",
 ["inputs","histories"],"all coefficient values, all input sequences of any length, every order",
 "Tests compare 50-sample impulse responses of particular filters; the claim is about all inputs, coefficients and orders.",
 ["signal/poly.h","signal/detail/filter.h"],[("transposed direct form II","signal/poly.h filter, signal/detail/filter.h poly_df2t_update")],state=[("y_","delay line","signal/poly.h")],observe=["instance operator()"])
prop("S02","A second-order-section filter realises the cascade of its sections",
 "Starting from rest, each section realises y[n] = b0*x[n]+b1*x[n-1]+b2*x[n-2]-a1*y[n-1]-a2*y[n-2] with the coefficients it reports, and an instance feeds every sample through all sections, each exactly once with its own state, so that its response is the product of the sections' responses, at every step and for every order and input, up to rounding.",
 ["inputs","histories"],"all coefficient values, all input sequences of any length, every number of sections",
 "Tests compare impulse responses of particular filters only.",
 ["signal/sos.h","signal/detail/filter.h"],[("section step","signal/sos.h sos_section::filter"),("chain","signal/detail/filter.h filter_chain")],state=[("state_","one y1,y2 pair per section","signal/sos.h")],observe=["instance operator()","state()"])
prop("S03","Turning poles and zeros into sections loses and duplicates nothing",
 "For every conjugate-symmetric set of zeros and poles of any order, the sections of an SOS design use each zero and each pole exactly once (padded with zeros at the origin for odd orders), always pairing complex ones with their conjugates so that all coefficients are real, and the product of the sections' gains is the design's gain: all in the first section, or spread evenly when distribution is requested.",
 ["inputs"],"all zero/pole positions and their relative order in magnitude and distance; both gain modes; odd and even orders",
 "The pairing decisions depend on relative distances; tests sample only designs of four families at a few cut-offs.",
 ["signal/sos.h","signal/detail/filter.h"],[("pairing","signal/detail/filter.h zpk_to_sos"),("ordering predicates","signal/detail/filter.h *_less"),("gain distribution","signal/sos.h build_sos")],observe=["section coefficients"])
prop("S04","Frequency transforms are exact: the digital filter is the transformed prototype",
 "For every prototype with conjugate-symmetric zeros and poles, cut-off f and sample rate fs, the lowpass design has the transfer function H(s) with s = (z-1)/(z+1)/tan(pi*f/fs) and the highpass design that with s = tan(pi*f/fs)*(z+1)/(z-1), gain included, up to rounding; polynomial and SOS forms both represent it.",
 ["inputs"],"all prototypes (numbers and positions of zeros and poles), cut-offs and sample rates",
 "Tests compare coefficients for a few cut-offs and rates of four families.",
 ["signal/filter.h","signal/detail/filter.h","signal/poly.h"],[("transforms","signal/detail/filter.h lowpass_zpk/highpass_zpk/bilinear_zpk/warp_frequency"),("composition","signal/filter.h lowpass/highpass"),("expansion","signal/poly.h constructor")],observe=["design coefficients"])
prop("S05","Butterworth and Chebyshev prototypes have their defining poles, zeros and gain",
 "For every order and every ripple or attenuation, the Butterworth, Chebyshev type 1 and type 2 prototypes have the poles, zeros and gain whose magnitude response is |H(jw)|^2 = 1/(1+w^(2N)), 1/(1+e^2*T_N(w)^2) and 1/(1+1/(e^2*T_N(1/w)^2)) respectively, with e^2 = 10^(r/10)-1 (inverse for type 2) and all poles in the left half plane, up to rounding.",
 ["inputs","configurations"],"every order, every ripple/attenuation value",
 "Tests sample orders and one or two ripple values per family.",
 ["signal/butterworth.h","signal/chebyshev.h","signal/detail/filter.h"],[("pole angles","signal/detail/filter.h theta"),("ripple","signal/chebyshev.h rf/mu"),("gain","signal/chebyshev.h gain")],observe=["spec().zpk()"])
prop("S06","The Bessel pole table is correct for every order",
 "For every order the library supports, the Bessel prototype has exactly that many poles, they are the roots of the reverse Bessel polynomial of that order scaled to unit product (phase-normalised), conjugate-symmetric and in the left half plane, to double precision, with no zeros and unit gain.",
 ["configurations"],"all supported orders (1 to 100)",
 "Tests use a few low orders; one wrong digit or sign in 5000 table rows would go unnoticed.",
 ["signal/detail/bessel_poles.h","signal/bessel.h"],[("table","signal/detail/bessel_poles.h"),("selection by order","signal/bessel.h poles()")],observe=["spec().poles()"])
prop("S07","Designs are compile-time constants and filtering uses only the sample type",
 "Every supported design (family, order, lowpass or highpass, polynomial or SOS, any gain mode, any standard from C++11) can be evaluated entirely at compile time with GCC, and running a filter performs only additions, subtractions and multiplications of its own sample type: no other arithmetic type, no division, no library call, no loop over unknown bounds.",
 ["configurations","programs"],"all families, orders, forms, sample types and language standards",
 "The test build evaluates designs in C++17 only, and no test can observe that run-time code is free of wider arithmetic or library calls.",
 ["signal/filter.h","signal/sos.h","signal/poly.h","signal/detail/filter.h","constexpr_math/functions.h"],[("constexpr throughout","signal/*, constexpr_math/*"),("sample-type arithmetic","signal/sos.h filter, signal/poly.h filter")],observe=["constant-evaluation","instructions of operator()"])
prop("S08","Filter instances start at rest and are independent of each other",
 "An instance created from a design starts with all-zero state, and filtering a sample changes only that instance's own state: neither the design nor any other instance, so any number of instances of one design can be interleaved. Copying an instance copies its state.",
 ["histories","schedules"],"all interleavings of any number of instances",
 "Tests run one instance at a time.",
 ["signal/sos.h","signal/poly.h"],[("per-instance state","signal/sos.h sos_instance::state_, signal/poly.h poly_instance::y_")],state=[("state_ / y_","filter memory","signal/sos.h, signal/poly.h")],observe=["memory written by operator()"])
prop("D01","Debug records describe the design and match the parser's layout",
 "A filter debug record starts with the documented 128-byte header (magic, total length, version, structure, value type, name padded or truncated with a terminating NUL) followed by the design's coefficients in order, for every design, value type and name length, and the layout and enumerator values are the ones scripts/parse-filter-coefs.py reads.",
 ["inputs","configurations"],"all designs, value types and names of any length",
 "The header is included by no test at all.",
 ["signal/debug_filter_coefs.h","signal/detail/debug_filter_coefs.h","scripts/parse-filter-coefs.py"],[("header constructor","signal/detail/debug_filter_coefs.h"),("reader","scripts/parse-filter-coefs.py parse")],observe=["bytes of the record"])

# ---------------------------------------------------------------- outside static analysis
prop("N01","Designed coefficients are accurate to a few units in the last place",
 "For every supported design, each computed coefficient differs from the exact real-arithmetic value by no more than a small multiple of the precision of the design type.",
 ["inputs"],"all designs, cut-offs, rates and ripples",
 "Tests compare with reference values at sampled parameters.",
 ["signal/detail/filter.h","constexpr_math/functions.h"],[("floating-point evaluation","signal/*, constexpr_math/*")],observe=["coefficients"])
prop("N02","Rounded filters stay stable",
 "After conversion of the coefficients to the sample type, every supported design's filter is stable: a bounded input produces a bounded output and the response to a finite input decays.",
 ["inputs","histories"],"all designs and sample types",
 "Stability depends on the rounded coefficient values of each design.",
 ["signal/sos.h","signal/poly.h"],[("coefficient conversion","signal/sos.h sos_section, signal/poly.h poly_design")],observe=["impulse response"])
prop("N03","Guarded code is mutually exclusive",
 "Code sections guarded by lock_guards on the same mutex never overlap in time, for any number of threads and any schedule.",
 ["schedules"],"all schedules",
 "Depends on the user's mutex type and on scheduling.",
 ["mutex.h"],[("lock/unlock pairing","mutex.h")],observe=["interleaving of guarded sections"])

out = os.path.join(os.path.dirname(__file__),"..","properties.jsonl")
with open(out,"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
print(len(P), [ (p["id"],len(p["title"])) for p in P if len(p["title"])>80])
