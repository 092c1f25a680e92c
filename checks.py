"""What is checked: one entry per property. gen.py writes properties.jsonl and MANIFEST.json from it."""

CHECKS = {}
NOT_APPLICABLE = []


def P(id, title, statement, over, text, why, files, mech, units, bounds, assumptions=(), **kw):
    CHECKS[id] = dict(title=title, statement=statement, over=over, text=text, why=why, files=files,
                      mech=[dict(name=n, where=w) for n, w in mech], units=units, bounds=bounds,
                      assumptions=list(assumptions), **kw)


MEM = "memory is modelled at LLVM IR level: allocation never fails, addresses of distinct objects are far apart"
CB, RCB, CONN = "nytl/callback.hpp", "nytl/recursiveCallback.hpp", "nytl/connection.hpp"

# ---- callbacks ------------------------------------------------------------------------------------
P("C01", "Callback calls run exactly the registered functions, in order",
  "Whatever top-level sequence of adding, removing, clearing, assigning and calling preceded, calling a callback (either kind) runs exactly the currently registered functions, each once, in registration order and with the caller's arguments, and returns their results in that order. "
  "Removing by id returns true exactly if that function was still registered and affects no other function; ids are never handed out twice.",
  ["histories", "inputs"], "all histories of add/+=/=, disconnect (any id handed out), clear and call up to the bound; all int arguments",
  "the tests run two or three fixed sequences; the property quantifies over every history and every choice of id",
  [CB, RCB, CONN], [("ordered subscription list, lookup by id", CB + ": add, call, disconnect, clear"), ("forward list with last iterator", RCB + ": emplace, call, disconnect, removeOld")],
  [dict(file="callback_top.cpp"), dict(file="callback_top.cpp", defs=["-DSX_LONG=1"], args=["--max-steps", "200000000"])],
  "histories of 4 (quick) / 6 (thorough) arbitrary operations followed by a call, for Callback and RecursiveCallback with void and int results and with plain and tracked ids; operation, target id and argument symbolic; plus disconnect of two arbitrary 64-bit id values among 4 / 6 functions; 70 (quick) or 300 (thorough) functions of which two at arbitrary chosen places are removed; ids after 40000 (thorough 70000) registrations; results of 8-bit, pointer and move-only types",
  [MEM])
P("C02", "Every function in a callback receives the caller's arguments",
  "Every function run by one callback call receives the values the caller passed: arguments taken by value arrive unchanged at every function, arguments taken by reference refer to the caller's own object, and nothing the caller passed as lvalue is moved from. This holds for call(), for the call operator, and for functions that additionally take their connection.",
  ["inputs", "configurations"], "all argument values, all numbers of registered functions up to the bound",
  "the tests pass ints to one or two functions; moved-from arguments only show with class types and several functions",
  [CB, RCB, CONN], [("argument forwarding to each function", CB + ": call; " + RCB + ": call, add(Connection overload)")],
  [dict(file="callback_args.cpp")], "1..3 (quick) / 1..5 (thorough) functions; by-value class, const and non-const reference, move-only and int parameters; argument values symbolic; argument types of 1 to 200 bytes", [MEM])
P("C03", "Re-entrant use of a recursive callback follows snapshot semantics",
  "A call of a recursive callback runs exactly the functions that were registered when that call started, in order and once each, also if they are removed while it runs; functions added while it runs are not run by it. "
  "This holds for every nesting: functions may add, remove (any function, also themselves through their connection), clear and call the callback again, a nested call does not run what was removed before it started, and after the outermost call exactly the functions not removed are registered.",
  ["histories"], "all trees of operations performed from within functions, up to the bound",
  "the tests contain a handful of nesting patterns; interplay of removal, addition and nested calls has too many orders to sample",
  [RCB], [("removal marked with the id of the current call; last subscription remembered at call start", RCB + ": call, disconnect, clear"), ("deferred removal", RCB + ": removeOld")],
  [dict(file="callback_reent.cpp"), dict(file="callback_reent.cpp", defs=["-DSX_LONG=1"], args=["--max-steps", "200000000", "--max-depth", "20000"])],
  "1..3 initial functions, up to 5 (quick) / 6 (thorough) arbitrary operations performed inside functions, nesting depth 3; all choices symbolic; one chain of 300 (thorough 1100) nested calls with a removal at an arbitrary one of chosen levels; 40000 (thorough 70000) calls before a removal inside a call", [MEM], budget=dict(quick=240, thorough=780))
P("C04", "Exceptions from callback functions propagate and leave the callback usable",
  "An exception thrown by a function reaches the caller of that (possibly nested) call unchanged, functions after the throwing one are not run by it, and the callback stays consistent: exactly the functions not removed remain registered and later calls run them in order. Removals made before the exception, at any nesting level, take effect.",
  ["fault_sequences", "histories"], "every function invocation as throwing point combined with all re-entrant operations up to the bound",
  "the tests throw at one fixed place",
  [CB, RCB, "nytl/scope.hpp"], [("iteration counter restored by a scope guard", RCB + ": call")],
  [dict(file="callback_reent.cpp", defs=["-DSX_THROW=1"])],
  "2..3 initial functions, up to 4 (quick) / 5 (thorough) arbitrary operations or throws inside functions, nested calls with and without handler; for Callback: any of 3 functions throws; exceptions of several types, ints and classes with state; nesting up to depth 4", [MEM, "standard exception objects carry no message in the encoding"])
P("C05", "Connection ids are notified once about removal and never used afterwards",
  "For any connection id type, the callback reports the removal of a function to its id exactly once: at the latest when no call is running any more, and never while the function may still be run. Before that it only ever sets ids to negative values, after it the id is not accessed any more, and ids of functions that stay registered are not touched.",
  ["histories"], "all histories and nested operation trees up to the bound, including destruction of the callback",
  "no test observes the id notifications; they depend on where in the list and at which nesting level the removal happens",
  [CB, RCB, "docs/callback.md"], [("id.set / id.removed calls", RCB + ": removeOld, disconnect, clear, destructor; " + CB + ": disconnect, clear, destructor")],
  [dict(file="callback_ids.cpp", defs=["-DSX_PART=5"])],
  "1..3 initial functions, up to 4 / 5 operations inside functions or 4 / 5 at top level, then destruction; operations include throwing functions and operations during unwinding", [MEM])
P("C06", "Tracked connections always know whether they are connected",
  "A connection with a tracked id, and every copy of it, reports to be connected exactly while its function is registered, whichever way it was removed: through any connection or id, by clear, from inside a function, or by destruction of the callback. Disconnecting a connection that is no longer connected has no effect, even after the callback is gone.",
  ["histories"], "all histories of operations through connections, copies, ids and the callback up to the bound, followed by destruction",
  "the tests check one disconnect and one destruction",
  [CONN, CB, RCB], [("id value shared between all copies", CONN + ": TrackedConnectionID"), ("guarded disconnect", CONN + ": ConnectionT::disconnect")],
  [dict(file="callback_ids.cpp", defs=["-DSX_PART=6"])], "1..3 initial functions, 3 / 4 operations at top level or inside functions, then destruction of the callback", [MEM])
P("C07", "A unique connection owns its function until it is released",
  "A function stays registered exactly as long as a unique connection owns it: destroying, disconnecting or overwriting the owner disconnects it exactly once, moving transfers the ownership and leaves the source empty, and releasing gives the connection back without disconnecting.",
  ["histories"], "all histories of construct, assign, move, disconnect, release and destroy over two owners up to the bound",
  "the tests move and destroy once each; double or missing disconnects show for particular sequences only",
  [CONN], [("disconnect in destructor and move assignment, emptied source", CONN + ": UniqueConnectionT")],
  [dict(file="callback_ids.cpp", defs=["-DSX_PART=7"])], "two owners, 3 / 4 arbitrary operations, with plain and tracked ids and a recording connectable; one owner on each real callback type", [MEM, "self move assignment is excluded"])
P("C08", "Registration rejects empty functions and fails without side effects",
  "Adding an empty function throws std::invalid_argument and an exception thrown while creating the id arrives unchanged; in both cases the registered functions stay as they were. Every successful registration appends one function and returns a connected connection with an id not used before.",
  ["histories", "fault_sequences"], "all histories of successful and failing registrations up to the bound",
  "the tests never register an empty function or use an id that throws",
  [CB, RCB], [("validation before any change", CB + ": add; " + RCB + ": add, emplace")],
  [dict(file="callback_ids.cpp", defs=["-DSX_PART=8"])], "3 / 4 registrations of every kind through add, += and =, a call after each", [MEM])

P("C46", "A failing allocation leaves callbacks intact",
  "If an allocation fails while a function is registered - directly or from inside a running function - std::bad_alloc reaches the caller and the registered functions, their order and the connections are what they were before (empty for assignment, which clears first); registering, removing and calling work afterwards. If a call cannot store results, its exception reaches the caller and no registration is lost. Nothing is leaked in any case.",
  ["fault_sequences", "histories"], "every allocation of every kind of registration and of calls as the failing one", "the tests never run out of memory",
  [CB, RCB], [("storing the function after the entry was made", RCB + ": add, emplace; " + CB + ": add; both: call")],
  [dict(file="callback_fault.cpp")], "up to 2 (registration) or 3 (call) functions registered before, one possibly removed; the 1st to 6th (quick) / 8th (thorough) allocation of the operation fails; from inside functions with a nested call, self removal and the exception caught inside or not", [MEM])

# ---- small utilities ------------------------------------------------------------------------------
P("C09", "Scope guards run their function exactly once, in the right cases",
  "A scope guard runs its function exactly once when its scope is left, unless it was unset: a ScopeGuard always, a SuccessGuard exactly if no exception leaves the scope, an ExceptionGuard exactly if one does - also when the scope is entered while another exception is being handled or is unwinding the stack. Guards run in reverse order of creation, do not change the exception that leaves the scope, and exceptions of the guard function do not leave the guard.",
  ["inputs", "fault_sequences"], "all ways to leave the scope, all combinations of unset guards, guards in normal code, in handlers and in destructors during unwinding",
  "the tests leave two scopes; the cases with an exception already in flight are not covered",
  ["nytl/scope.hpp"], [("uncaught exception count at construction", "nytl/scope.hpp: ScopeGuard, SuccessGuard, ExceptionGuard")],
  [dict(file="scope.cpp")], "up to 3 guards in one scope, left by falling through, return, or exception; in normal code, in a handler and in a destructor that runs during unwinding; guards on the heap that are made and destroyed with any of 0 to 2 exceptions in flight", [MEM])
P("C10", "Sub-views of a span stay inside the span and alias it",
  "For every span and every valid offset and count, first, last and subspan - fixed or dynamic - have exactly the requested size (the rest of the span for the dynamic_extent count), element i of the view is element offset + i of the span, and writing through the view changes exactly that element.",
  ["inputs"], "all offsets and counts valid for arrays up to the bound, all element values", "the tests take two views of a 3 element array",
  ["nytl/span.hpp"], [("pointer and size arithmetic", "nytl/span.hpp: first, last, subspan")],
  [dict(file="span.cpp", defs=["-DSX_PART=10"])], "arrays of 6 (quick) / 10 (thorough) elements, all offsets and counts, nested views; for arbitrary 64-bit sizes the pointer and size arithmetic", [MEM])
P("C11", "Span comparison is lexicographic and a total order",
  "For all spans of the same element type, == holds exactly if sizes and elements agree, < is the lexicographic order, and !=, >, <=, >= are consistent with them, whatever the extents and whatever the sizes of the two spans are. Comparing reads nothing outside the spans.",
  ["inputs"], "all pairs of spans with sizes up to the bound and arbitrary element values", "the tests compare one pair of equal spans",
  ["nytl/span.hpp"], [("element-wise comparison", "nytl/span.hpp: comparison operators")],
  [dict(file="span.cpp", defs=["-DSX_PART=11"])], "sizes 0..3 (quick) / 0..5 (thorough) for int, int8, uint8 and uint64 elements, fixed and dynamic extents mixed; one pair of long spans (up to 300 elements) that differ in one arbitrary element", [MEM])
P("C12", "Spans cover exactly the elements they were made from",
  "A span made from a pointer and size, a pointer pair, an array, std::array, any contiguous container, a smart pointer or another span covers exactly those elements: data, size, size_bytes and empty agree with the source, forward, const and reverse iteration and indexing visit the elements in order, and as_bytes / as_writeable_bytes cover exactly their storage.",
  ["inputs", "configurations"], "every kind of source, all sizes up to the bound, all element values", "the tests build a few spans and read some elements",
  ["nytl/span.hpp"], [("constructors and make_span", "nytl/span.hpp: span, make_span, as_bytes")],
  [dict(file="span.cpp", defs=["-DSX_PART=12"])], "sources of 0..4 / 0..6 elements of 1, 2, 3, 4, 8, 12 and 24 byte types, const and non-const, static and dynamic extents; sizes and data of spans made from a pointer and a size for all 64-bit sizes", [MEM])
P("C13", "Whatever is written to a byte buffer is read back unchanged",
  "For every sequence of writes of trivially copyable objects and ranges of bytes to a growing or fixed buffer, reading the same types in the same order gives the same values and consumes exactly what was written. A write appends or overwrites exactly the bytes of the object, skip moves by exactly the given number of bytes, copy and copyExact give the object stored at the start of the buffer, and bytes(x) covers exactly the storage of x.",
  ["inputs", "histories"], "all sequences of writes of various types up to the bound and all values", "the tests write one fixed sequence of three objects",
  ["nytl/bytes.hpp"], [("write and read through raw storage, advancing the span", "nytl/bytes.hpp: write, read, copy, skip, bytes")],
  [dict(file="bytes.cpp", defs=["-DSX_PART=13"])], "sequences of 2 / 4 writes out of 8 kinds with arbitrary values; copies and skips in buffers of up to 9 bytes; blobs of 300 bytes, vectors of 100 elements, dynamic buffers with 0, 5000 or 20000 bytes reserved and writes of 1 to 9001 bytes, with arbitrary bytes at chosen places; views of up to 2^32 + 65535 elements", [MEM, "the object written to a growing buffer does not live in that buffer"])
P("C14", "Byte buffer checks reject exactly what does not fit",
  "With an NYTL_BYTES_ASSERT that throws, reading, writing, copying and skipping fail exactly if the buffer is too small (for copyExact: has another size); then nothing has been written and the buffer is not advanced. If they succeed nothing outside the buffer is accessed.",
  ["inputs"], "all combinations of buffer and object size up to the bound, for skip all 64-bit sizes", "no test runs out of buffer",
  ["nytl/bytes.hpp"], [("NYTL_BYTES_ASSERT conditions", "nytl/bytes.hpp: write, read, copy, copyExact, skip")],
  [dict(file="bytes.cpp", defs=["-DSX_PART=14"])], "buffers of 0..6 / 0..9 bytes against objects of 0..6 / 0..9 bytes; skip with arbitrary 64-bit sizes; objects of 1 to 300 bytes and buffers of chosen sizes up to 300 bytes", [MEM])
P("C15", "Flags form the boolean algebra of their bits",
  "For every enum and flag values, |, &, ^ and their assignment forms act bitwise on the values, ~ and invertFlags give the complement in the value type, == and != compare all bits, conversion to bool tests for any bit, and operators on plain enum values agree with those on Flags of them.",
  ["inputs"], "all bit patterns of 8, 16, 32 and 64-bit enums", "the tests use a 3 bit enum",
  ["nytl/flags.hpp"], [("operators on the underlying value", "nytl/flags.hpp: Flags, NYTL_FLAG_OPS")],
  [dict(file="flags.cpp")], "none below the width of the type: all values of both operands; scoped enums with signed and unsigned underlying types of 8, 16, 32 and 64 bits", [MEM])
P("C16", "String parameters refer to exactly the caller's string",
  "A string parameter made from a null terminated string or a std::string refers to the caller's own characters without copying, has the length of that string, and is followed by a null character, so that c_str() is a valid null terminated string of exactly that length (for a std::string with null characters inside: the length of the part before the first). Copies refer to the same string.",
  ["inputs"], "all strings up to the bound for 8, 16 and 32 bit characters", "the tests pass two literals",
  ["nytl/stringParam.hpp"], [("view over the caller's string", "nytl/stringParam.hpp: BasicStringParam")],
  [dict(file="strparam.cpp", args=["--max-steps", "60000000"])], "strings of 0..4 (quick) / 0..8 (thorough) arbitrary characters; strings of up to 1000 / 70000 characters with arbitrary characters (nulls included) at chosen places", [MEM])

# ---- cloning --------------------------------------------------------------------------------------
P("C45", "Clones have the dynamic type and value of the original",
  "clone returns a new object of the dynamic type of the original with equal value, whatever the static type of the reference is (any base, also one that is not the first), leaving the original unchanged and sharing nothing with it; cloneMove returns a new object of the same dynamic type that takes over the value. The returned pointer designates the right subobject, and destroying it destroys the whole object.",
  ["inputs", "configurations"], "all values, class hierarchies with abstract, concrete, move-only, deep and multiple bases", "the tests clone two classes with a single base",
  ["nytl/clone.hpp"], [("doClone overrides through CRTP and conversion to the static type", "nytl/clone.hpp: clone, cloneMove, DeriveCloneable, DeriveCloneMovable")],
  [dict(file="clone.cpp")], "8 hierarchies up to depth 3, payloads with symbolic values and heap memory; bases of 8 to 70000 bytes before the cloned one", [MEM])

# ---- utf ------------------------------------------------------------------------------------------
P("C17", "Counting and indexing UTF-8 text works per character",
  "For every valid UTF-8 text, charCount is its number of code points, and every nth overload designates exactly the bytes of the n-th code point: the array form returns them padded with nulls, the reference forms refer to its first byte in the caller's string and give its size. For n not below charCount they throw std::out_of_range. Nothing outside the text is read.",
  ["inputs"], "all sequences of code points up to the bound (all Unicode scalar values), all 64-bit positions", "the tests use two fixed strings without 4 byte characters",
  ["nytl/utf.hpp"], [("length from the lead byte", "nytl/utf.hpp: charCount, nth")],
  [dict(file="utf.cpp", defs=["-DSX_PART=17"], args=["--max-steps", "60000000"])], "0..3 (quick) / 0..5 (thorough; nth 0..4) characters of 1 to 4 bytes; texts of 300 / 3000 and of 66000 characters with an arbitrary character behind them", [MEM])
P("C18", "Conversions between UTF-8, UTF-16 and UTF-32 are exact",
  "For every sequence of Unicode scalar values, converting its encoding in any of UTF-8, UTF-16 and UTF-32 to any other gives exactly its encoding there, including supplementary characters, null characters and byte order marks; so every round trip is the identity.",
  ["inputs"], "all sequences of code points up to the bound", "the tests convert two fixed strings from the basic plane",
  ["nytl/utf.hpp"], [("facet and wstring_convert per direction", "nytl/utf.hpp: toUtf8, toUtf16, toUtf32")],
  [dict(file="utf.cpp", defs=["-DSX_PART=18"], extra=["model_codecvt.cpp"])], "0..2 (quick) / 0..4 (thorough) arbitrary characters, and one arbitrary character inside a text of 20",
  [MEM, "the facets of libstdc++.so are represented by a model, compared with the library on the path witnesses of every run"], budget=dict(quick=240, thorough=780))

# ---- scalar helpers -------------------------------------------------------------------------------
REAL = "floating point is interpreted as exact real arithmetic: rounding, overflow and NaN are outside"
FP = "IEEE arithmetic bit by bit (round to nearest, no extended precision, no contraction)"
RT = "symbolic execution of the LLVM IR of the real headers over exact reals; assertions decided by polynomial normal forms and z3"
P("C19", "mapUnsigned and unmapUnsigned are inverse bijections",
  "For every int x, mapUnsigned(x) is 2x for x >= 0 and -2x - 1 for x < 0, without overflow; unmapUnsigned(mapUnsigned(x)) == x for every int and mapUnsigned(unmapUnsigned(u)) == u for every unsigned int, so both are bijections.",
  ["inputs"], "all 2^32 values", "the tests try a few small numbers; the extremes overflow",
  ["nytl/math.hpp"], [("interleaving of signs", "nytl/math.hpp: mapUnsigned, unmapUnsigned")],
  [dict(file="math.cpp", defs=["-DSX_PART=19"])], "none: all values of the type", [])
P("C20", "pair gives different numbers to different pairs",
  "pair(x, y) is the Cantor pairing: pair(0, 0) is 0 and the number increases by one along each diagonal and from the end of a diagonal to the next one. So different pairs with x + y <= 65535 get different numbers, and with mapUnsigned different pairs of small signed numbers do as well.",
  ["inputs"], "all pairs with x + y <= 65535", "the tests compare a few pairs",
  ["nytl/math.hpp"], [("closed form of the enumeration", "nytl/math.hpp: pair")],
  [dict(file="math.cpp", defs=["-DSX_PART=20"])], "all pairs with x + y <= 65535 (beyond, the 32-bit result wraps); signed pairs with |x|, |y| <= 31 / 255", [])
P("C21", "Scalar interpolation, clamping and angle helpers are exact",
  "For all arguments: clampStore returns the value clamped to [min, max] and stores -1 / 1 if the value is below / above the range and 0 if it is strictly inside; smoothstep is 0 below, 1 above and 3t^2 - 2t^3 inside its range, monotonic and never leaves [0, 1]; mix interpolates linearly and gives exactly the end points for 0 and 1; degrees and radians are inverse scalings by pi / 180; factorial is exact up to 20.",
  ["inputs"], "all values (floats bit by bit for clampStore, reals for the algebraic identities)", "the tests evaluate a few points",
  ["nytl/math.hpp"], [("formulas", "nytl/math.hpp: clampStore, smoothstep, mix, degrees, radians, factorial")],
  [dict(file="math.cpp", defs=["-DSX_PART=21"]), dict(file="math.cpp", defs=["-DSX_PART=21"], mode="real")], "none for the identities (all reals) and for clampStore (all floats but NaN); factorial 0..20", [REAL])

# ---- approximate comparison -----------------------------------------------------------------------
P("C22", "Approximate scalar comparison means within epsilon of the magnitude",
  "For all finite a, b and epsilon >= 0, a == approx(b, epsilon) holds exactly if |a - b| < epsilon * (1 + max(|a|, |b|)), on whichever side approx stands and with the arguments exchanged; != is its negation. Equal finite values are approximately equal for the default epsilon, NaN is not approximately equal to anything, and a larger epsilon accepts more.",
  ["inputs"], "all values and epsilons", "the tests compare a few constants",
  ["nytl/approx.hpp"], [("relative and absolute tolerance", "nytl/approx.hpp: Approx operator==")],
  [dict(file="approx.cpp", defs=["-DSX_PART=22"], mode="real"), dict(file="approx.cpp", defs=["-DSX_PART=22"])], "none: all reals for the meaning, all float and double bit patterns for reflexivity and NaN; chosen epsilons from 1e-300 to 0.3 with chosen values bit by bit", [REAL, FP + " for the bit-precise part"])
P("C23", "Approximate comparison of complex numbers, vectors, matrices is per component",
  "For complex numbers, vectors and matrices, x == approx(y, epsilon) holds exactly if every component of x is approximately equal to the corresponding component of y with that epsilon, on whichever side approx stands and also if the value types differ; != is its negation, and vectors of different sizes are not equal.",
  ["inputs"], "all components and epsilons", "the tests compare a few constants, no mismatch in a late component",
  ["nytl/approx.hpp", "nytl/approxVec.hpp"], [("component loop", "nytl/approxVec.hpp: Approx<Vec>, Approx<Mat>; nytl/approx.hpp: Approx<complex>")],
  [dict(file="approx.cpp", defs=["-DSX_PART=23"], mode="real"), dict(file="approx.cpp", defs=["-DSX_PART=23"])], "vectors of 2 to 4 components, matrices of 2x2, 1x2 and 3x1, vectors of 5, 9 and 17 components and matrices of 4x4, 3x5, 9x1, 2x7 with one arbitrary element; all reals, and for vectors of 2, 3, 5 components and 4x4 matrices all bit patterns", [REAL])

# ---- vectors --------------------------------------------------------------------------------------
P("C24", "Vector arithmetic is exact per component, also when operands alias",
  "For all vectors a, b and scalars f, every component of a + b, a - b, -a, f * a, a * f, a / f, f / a, +=, -= and *= is the operation on the components in the common type of both operands; operands passed by const reference keep their values, the in-place forms return the vector itself, and the result does not depend on f or b being the vector or a component of it. == holds exactly if all components are equal and != is its negation.",
  ["inputs", "configurations"], "all component values, dimensions 1 to 6, mixed value types, operands that alias", "the tests add a few constant vectors and never alias",
  ["nytl/vec.hpp", "nytl/vecOps.hpp"], [("component loops of the operators", "nytl/vec.hpp, nytl/vecOps.hpp: operators")],
  [dict(file="vec.cpp", defs=["-DSX_PART=24"], mode="real"), dict(file="vec.cpp", defs=["-DSX_PART=24"])], "dimensions 1 to 6; all reals for floating components, signed integers from -999 to 999, all unsigned values; dimensions 7, 8, 9, 17, 33; value types of 8 and 16 bits; integers scaled in place by chosen fractions", [REAL])
P("C25", "Products, lengths, angles and normals of vectors satisfy their definitions",
  "For all vectors: sum, multiply and dot are the sum, product and sum of products of the components; length(a)^2 == dot(a, a) and distance(a, b) == length(b - a), both not negative and distance symmetric; normalized and normalize give the vector of length 1 in the same direction; the cosine of angle (angleNormed) is the (normalised) dot product and the angle lies in [0, pi], is symmetric, 0 for equal vectors and clamped for products beyond 1; mirror reflects; cross is orthogonal to both operands, anticommutative and has the length of the spanned area; left and right normals are the orthogonal vectors of the named orientation.",
  ["inputs"], "all vectors with components from the reals, dimensions 1 to 6", "the tests evaluate a few constant vectors",
  ["nytl/vecOps.hpp"], [("formulas over the components", "nytl/vecOps.hpp: sum, dot, length, distance, angle, normalized, mirror, cross, normals")],
  [dict(file="vec.cpp", defs=["-DSX_PART=25"], mode="real"), dict(file="vec.cpp", defs=["-DSX_PART=25"])], "dimensions 1 to 6; integer products for signed integers from -999 to 999 and all unsigned values; dimensions 7, 8, 9, 17, 33; products of 8 and 16 bit types; distances of chosen points up to 1e12 from the origin", [REAL, "|dot(a, b)| <= length(a) * length(b) (Cauchy-Schwarz) is assumed for angle"])
P("C26", "Component-wise vector functions act on each component alone",
  "For all vectors the functions of nytl::vec::cw (max, min, multiply, divide, power, clamp, the operators and the lifted functions of cmath) give in every component exactly the scalar function of the operands' components, the in-place forms change the vector to exactly that, and operands passed by reference keep their values.",
  ["inputs"], "all component values, dimensions 2 to 4", "the tests evaluate a few constant vectors",
  ["nytl/vecOps.hpp"], [("component loops", "nytl/vecOps.hpp: namespace vec::cw")],
  [dict(file="vec.cpp", defs=["-DSX_PART=26"], mode="real"), dict(file="vec.cpp", defs=["-DSX_PART=26"])], "dimensions 2 to 4; all reals, signed integers from -999 to 999, all unsigned values; dimensions 7, 9, 17; value types of 8 and 16 bits; all 64-bit values for clamp, max and min; integers changed in place by chosen fractions", [REAL, "library functions of cmath are uninterpreted, refined by their values: the argument and place they are applied to is checked"])
P("C27", "Vectors give access to exactly their components and convert without loss of them",
  "For every vector the index operator, front, back, x/y/z, data and iteration refer to the same contiguous components in order; the index operator of vectors with 2 or 3 components throws std::out_of_range exactly for positions past the end; conversion to another size or value type keeps all common components and sets the others to 0; a simplex has one more point than dimensions and converts point by point.",
  ["inputs", "configurations"], "all component values, all 64-bit positions, sizes 1 to 6", "the tests read a few components of constant vectors",
  ["nytl/vec.hpp", "nytl/vec2.hpp", "nytl/vec3.hpp", "nytl/simplex.hpp"], [("member based and array based storage", "nytl/vec.hpp, vec2.hpp, vec3.hpp: operator[], at, conversion; nytl/simplex.hpp")],
  [dict(file="vec.cpp", defs=["-DSX_PART=27"])], "sizes 1 to 6, value types int, double, int64 and uint8; sizes up to 65", [MEM])

# ---- matrices -------------------------------------------------------------------------------------
P("C28", "Matrix arithmetic is exact, also when operands alias",
  "For all matrices: a + b, a - b, -a, f * a and the forms +=, -=, *= act on the elements, a * b is the matrix product and a * v the product with a column vector, for every combination of dimensions that fit; mixed value types are combined in their common type; operands passed by const reference keep their values, the in-place forms return the matrix itself, and the result does not depend on an operand being the matrix itself or one of its elements. == holds exactly if all elements are equal and != is its negation.",
  ["inputs", "configurations"], "all element values, dimensions 1 to 4 including non-square ones, operands that alias", "the tests multiply a few constant matrices and never alias",
  ["nytl/mat.hpp"], [("element loops of the operators", "nytl/mat.hpp: operators")],
  [dict(file="mat.cpp", defs=["-DSX_PART=28"], mode="real"), dict(file="mat.cpp", defs=["-DSX_PART=28"])], "dimensions 1x1 to 4x4, 1x5, products up to 2x3x4 and 4x4x4; all reals, all 32-bit unsigned values, signed integers from -999 to 999; dimensions up to 9x9 and 17x2; value types of 8 and 16 bits; integers changed in place by chosen fractions", [REAL])
P("C29", "Structural matrix operations move exactly the elements they name",
  "For all matrices and positions: col returns and sets exactly one column (also to a row of the matrix itself), swapRow and swapCol exchange exactly two rows or columns (the same one twice: nothing changes), transpose exchanges rows and columns and is its own inverse, identity is 1 on the diagonal and 0 elsewhere and neutral for products, one sets all elements to 1, trace and multiplyDiagonal are the sum and product of the diagonal, symmetric holds exactly if all opposite elements are equal.",
  ["inputs", "configurations"], "all element values and positions, dimensions 1 to 4 including non-square ones", "the tests use none of col, swap, one, trace or symmetric on their own",
  ["nytl/matOps.hpp"], [("loops over rows and columns", "nytl/matOps.hpp: col, swapRow, swapCol, one, trace, multiplyDiagonal, identity, transpose, symmetric")],
  [dict(file="mat.cpp", defs=["-DSX_PART=29"], mode="real"), dict(file="mat.cpp", defs=["-DSX_PART=29"])], "dimensions 1x1 to 4x4; all reals, all 32-bit unsigned and 8-bit values; dimensions up to 9x9 and 17x2", [REAL])
P("C30", "Matrices give access to exactly their elements and convert without loss of them",
  "For every matrix, m[r][c], at(r, c) and at(r) refer to the element in row r and column c, stored contiguously row by row, const or not; at throws std::out_of_range exactly for positions outside and then changes nothing; conversion to other dimensions or another value type keeps all common elements and sets the others to 0.",
  ["inputs", "configurations"], "all element values, all 64-bit positions, dimensions 1 to 4", "the tests do not use at or conversions",
  ["nytl/mat.hpp"], [("bounds checks and storage", "nytl/mat.hpp: operator[], at, checkRow, conversion")],
  [dict(file="mat.cpp", defs=["-DSX_PART=30"])], "dimensions 1x1 to 4x4, value types int, uint8, int64, double; dimensions 9x9, 17x2", [MEM])
P("C31", "Gaussian elimination gives an echelon form of the same row space",
  "For every real matrix, rowEcholon gives a matrix in row echelon form with leading elements 1 and zero rows at the bottom, reducedRowEcholon additionally has zeros above the leading elements; every row of the given matrix is a combination of the new rows and every solution of the system stays one, so the row space is the same. Zero columns and zero rows are handled, the copying forms do the same without changing their argument. pivot brings a maximal element of the rows considered to the given position by exchanging two rows.",
  ["inputs"], "all real matrices, also singular ones and zero matrices", "the tests reduce one regular matrix",
  ["nytl/matOps.hpp"], [("pivoting and elimination loops", "nytl/matOps.hpp: pivot, rowEcholon, reducedRowEcholon and their copying forms")],
  [dict(file="mat.cpp", defs=["-DSX_PART=31"], mode="real"), dict(file="mat.cpp", defs=["-DSX_PART=31"])], "all matrices of dimensions 1x1, 1x3, 2x1, 2x2, 2x3, 3x2 (thorough: also 2x4 and 3x3); structured families with two to four free elements, zero rows and columns for dimensions 3x3 to 4x6; bit-precise: matrices with elements scaled by small and large powers of two, diagonal matrices", [REAL], budget=dict(quick=300, thorough=780))
P("C32", "The LU decomposition is one, for every matrix",
  "For every real square matrix, including singular ones, luDecomp gives a lower triangular matrix with ones in the diagonal, an upper triangular matrix, a permutation matrix and its sign, so that perm * matrix == lower * upper. The argument is not changed.",
  ["inputs"], "all real matrices, every pattern of zero pivots", "the tests decompose three matrices, none with an odd permutation in its sign",
  ["nytl/matOps.hpp"], [("row exchanges for zero pivots and elimination", "nytl/matOps.hpp: luDecomp")],
  [dict(file="mat.cpp", defs=["-DSX_PART=32"], mode="real"), dict(file="mat.cpp", defs=["-DSX_PART=32"])], "all matrices of dimensions 1 to 4 (thorough: also 5); structured families with few free elements and zero pivots of dimensions 4, 5, 6 and 8", [REAL], budget=dict(quick=240, thorough=780))
P("C33", "Determinant, inverse and solution of linear systems are right",
  "For every real square matrix, determinant (of the matrix or its decomposition; for integer matrices as an exact integer as long as the decomposition is accurate to half a unit) is its determinant and invertible holds exactly if that is not 0; for invertible ones inverse (of the matrix or its decomposition) is the two-sided inverse, and luEvaluate gives the vector x with A x = b from the decomposition of A (whatever rows were exchanged), and with lower * upper * x = b from a lower and upper matrix.",
  ["inputs"], "all real matrices and right sides, every pattern of zero pivots", "the tests use two constant matrices",
  ["nytl/matOps.hpp"], [("decomposition, substitution and permutation", "nytl/matOps.hpp: determinant, invertible, inverse, luEvaluate")],
  [dict(file="mat.cpp", defs=["-DSX_PART=33"], mode="real"), dict(file="mat.cpp", defs=["-DSX_PART=33"], args=["--query-ms", "100000"])], "all matrices of dimensions 1 to 3, determinants also 4 (thorough: all 1 to 4); structured families of dimensions 4 and 5; integer matrices of dimensions 1 and 2 in exact arithmetic, and the rounding of the determinant of 2x2 integer matrices with elements from -7 to 7 and one fixed pivot bit by bit (thorough: also all elements from -3 to 3); bit-precise: shears and scaled axes of dimensions 2 to 9 with chosen elements of full mantissa, multiples of families by powers of two from 2^-200 to 2^200", [REAL], budget=dict(quick=240, thorough=780))

# ---- rects ----------------------------------------------------------------------------------------
P("C34", "Rect predicates are exact",
  "For all rects without negative size, contains(r, p) holds exactly for the points between position and position + size including the outline, containsReal without it; intersects(a, b) holds exactly if a and b have a common point (touching is enough) and intersectsReal, for rects with area, if they have a common inner point (overlap in every dimension), whether or not one contains a corner of the other. Both are symmetric.",
  ["inputs"], "all rects and points, every relative placement", "the tests do not use the predicates",
  ["nytl/rectOps.hpp"], [("comparisons per dimension", "nytl/rectOps.hpp: contains, containsReal, intersects, intersectsReal")],
  [dict(file="rect.cpp", defs=["-DSX_PART=34"], mode="real"), dict(file="rect.cpp", defs=["-DSX_PART=34"])], "dimensions 1 to 3; all reals; integer coordinates within a quarter of the range of their type; dimensions 5 to 33 with one arbitrary axis; 8 and 16 bit rects of all values against 16-bit points and rects of larger types", [REAL])
P("C35", "The intersection of rects contains exactly their common points",
  "For all rects without negative size that have a common point, a point lies in intersection(a, b) exactly if it lies in a and in b; without a common point the intersection is the zero rect at the origin. It never has a negative size, is commutative, the intersection of a rect with itself is the rect.",
  ["inputs"], "all pairs of rects, every relative placement", "the tests intersect two rects that overlap at a corner",
  ["nytl/rectOps.hpp"], [("maximum of starts, minimum of ends", "nytl/rectOps.hpp: intersection")],
  [dict(file="rect.cpp", defs=["-DSX_PART=35"], mode="real"), dict(file="rect.cpp", defs=["-DSX_PART=35"])], "dimensions 1 to 3 for reals, 1 and 2 (thorough: 3) for integer coordinates within a quarter of the range of their type; dimensions 4 to 9 with one arbitrary axis", [REAL], budget=dict(quick=240, thorough=780))
P("C36", "The difference of rects partitions the points of the first outside the second",
  "For all rects a, b with area, every point of a that is not in b lies in exactly one of the rects of difference(a, b) and no other point lies in any of them (rects taken without their far ends); every part has an area and there are at most two parts per dimension. Without overlap the result is a alone, and difference(a, a) is empty.",
  ["inputs"], "all pairs of rects, every relative placement including containment and crossing", "the tests use two rects that overlap at a corner",
  ["nytl/rectOps.hpp"], [("cuts per dimension", "nytl/rectOps.hpp: difference")],
  [dict(file="rect.cpp", defs=["-DSX_PART=36"], mode="real"), dict(file="rect.cpp", defs=["-DSX_PART=36"])], "dimensions 1 to 3 for reals, 1 to 3 for integer coordinates within a quarter of the range of their type; families of placements of dimensions 3 to 8 with one or two arbitrary axes", [MEM, REAL], budget=dict(quick=240, thorough=780))
P("C37", "Size, center, equality and conversion of rects are exact",
  "For all rects, size is the product of the extents, center is half way between both ends (also for integer rects, where it is not truncated), rects are equal exactly if their positions and sizes are, and conversion to another dimension or value type keeps all common coordinates and sets the others to 0.",
  ["inputs"], "all coordinates", "the tests do not use these",
  ["nytl/rect.hpp", "nytl/rectOps.hpp"], [("component formulas", "nytl/rectOps.hpp: size, center, operator==; nytl/rect.hpp: conversion")],
  [dict(file="rect.cpp", defs=["-DSX_PART=37"], mode="real"), dict(file="rect.cpp", defs=["-DSX_PART=37"])], "dimensions 1 to 4; all reals; integer sizes 0..255 for int, all values for unsigned; integer coordinates within a quarter of the range of their type; float centers bit by bit for values they are exact for", [REAL])

# ---- quaternions ----------------------------------------------------------------------------------
Q = "nytl/quaternion.hpp"
P("C38", "Quaternion algebra is exact and rotates vectors rigidly",
  "For all quaternions, sums, differences, scaling and conjugation act per component and the product (also in place and with itself) is the Hamilton product, associative, with a new quaternion as identity and multiplicative norms; == compares all components. normalized gives norm 1 in the same direction (the identity for the zero quaternion). apply(q, v) is q v q*: unit quaternions keep lengths, products and orientation, a product applies its second factor first and the conjugate is the inverse rotation.",
  ["inputs"], "all quaternions and vectors over the reals", "the tests evaluate a few constant quaternions",
  [Q], [("component formulas", Q + ": operators, norm, normalized, conjugated, apply")],
  [dict(file="quat.cpp", defs=["-DSX_PART=38"], mode="real"), dict(file="quat.cpp", defs=["-DSX_PART=38"])], "none: all reals; for equality all doubles, infinities and NaN included", [REAL])
P("C39", "Quaternions, matrices, axes and angles describe the same rotation",
  "For every unit quaternion, toMat is the matrix of its rotation, extended by the identity for larger sizes, and rotates like apply; for every rotation matrix, fromMat gives a unit quaternion of that rotation, whichever diagonal element is largest. axisAngle of a unit axis rotates counterclockwise about it by the angle and leaves it alone; yxz is the product of the rotations about y, x and z by yaw, pitch and roll.",
  ["inputs"], "all unit quaternions, rotation matrices, unit axes and angles", "the tests convert a few constants; fromMat has four cases",
  [Q], [("conversion formulas, case distinction in fromMat", Q + ": toMat, fromMat, axisAngle, yxz")],
  [dict(file="quat.cpp", defs=["-DSX_PART=39"], mode="real")], "none: all reals, matrices of size 3 to 5", [REAL])
P("C40", "slerp moves on the shorter great arc with constant angular speed",
  "For all unit quaternions a, b: dot is the sum of the products of the components; slerp(a, b, t) is a unit quaternion, starts at a, ends at b or at -b if that is closer (they are the same rotation), its angle to a grows linearly with t on the shorter arc, and its middle is the bisector. For nearly equal or opposite quaternions it interpolates linearly and normalises, without becoming undefined.",
  ["inputs"], "all pairs of unit quaternions and all t, except for a band around the switch to linear interpolation", "the tests do not cover obtuse or nearly equal quaternions",
  [Q], [("negation for negative dot, threshold for linear interpolation", Q + ": dot, slerp")],
  [dict(file="quat.cpp", defs=["-DSX_PART=40"], mode="real")], "absolute value of the dot product below 0.999 or above 0.9999 (t in [0, 1] there)", [REAL, "|dot(a, b)| <= 1 for unit quaternions (Cauchy-Schwarz) is assumed"])
P("C41", "eulerAngles gives angles that reproduce the rotation, for every sequence",
  "For every unit quaternion and each of the twelve rotation sequences, rotating about the named axes by the three angles of eulerAngles, in order, is the rotation of the quaternion; the middle angle lies in [0, pi] for sequences with equal first and last axis and in [-pi/2, pi/2] for the others. This also holds where the middle rotation aligns the other axes (gimbal lock), and rounding errors there do not make angles undefined.",
  ["inputs"], "all unit quaternions, all twelve sequences, gimbal lock", "the tests compare a few constants of two sequences",
  [Q], [("atan2, acos and asin of matrix elements per sequence", Q + ": eulerAngles")],
  [dict(file="quat.cpp", defs=["-DSX_PART=41"], mode="real"), dict(file="quat.cpp", defs=["-DSX_PART=41"])], "middle rotations at least 0.001 away from gimbal lock (cosine or sine at most 0.9999995), or exactly in it; scaling errors of the quaternion up to 1e-7", [REAL])

# ---- transforms -----------------------------------------------------------------------------------
T = "nytl/transform.hpp"
P("C42", "Projection matrices map their volume exactly onto clip space",
  "For all parameters allowed: ortho maps its box linearly to [-1, 1] x [-1, 1] x [0, 1]; frustum and perspective map the corners of the visible volume at near and far to the corners of clip space with depth 0 at near and 1 at far, frustumRev and perspectiveRev with depth 1 at near and 0 at far, and the infinite variants with depth near / z. All of it holds for negative (right-handed) and positive (left-handed) near and far, and the perspective variants give positive w in front of the camera. multPos applies a matrix to a point and divides by w.",
  ["inputs"], "all parameters over the reals, both handednesses, near and far in either order for perspective", "the tests project a few constant points",
  [T], [("matrix elements", T + ": ortho, frustum*, perspective*, multPos")],
  [dict(file="transform.cpp", defs=["-DSX_PART=42"], mode="real")], "none: all reals with left != right, bottom != top, near != far of one sign, 0 < fov < pi, aspect > 0; float and double", [REAL])
P("C43", "Rotations and views built from vectors do what they are named for",
  "base completes every unit vector to an orthonormal basis. rotate and rotateMat rotate counterclockwise about a unit axis (or in the plane) by the angle, orientMat is the smallest rotation that maps one unit vector to another (in the plane also for other lengths, scaling accordingly). lookAt maps the position to the origin, the direction to the positive z axis and up into the y-z plane with positive y, by a rotation; the quaternion form undoes the rotation and translation, and all forms agree. Larger matrices are extended by the identity.",
  ["inputs"], "all vectors, angles and quaternions over the reals", "the tests use a few constant vectors and no singular cases",
  [T], [("formulas over vectors", T + ": base, rotate, rotateMat, orientMat, lookAt")],
  [dict(file="transform.cpp", defs=["-DSX_PART=43"], mode="real")], "none: all reals (opposite vectors excluded for orientMat, up parallel to z for lookAt); base next to (0, 0, -1) is orthogonal up to 0.015; matrices of size 2 to 5; float and double", [REAL])
P("C44", "Transforms compose in the order they are applied",
  "scaleMat and translateMat scale and move exactly the axes given and are the identity otherwise; scale, rotate and translate change a matrix to the transform times that matrix, so that the transforms are applied to points in the order of the calls; flipAxis, flipY and flipZ negate exactly one row, in place and as copies; expandIdentity keeps the given matrix and adds ones on the diagonal.",
  ["inputs", "configurations"], "all matrices, vectors and angles over the reals, dimensions 1 to 5", "the tests do not use most of these functions",
  [T], [("construction and product", T + ": expandIdentity, scaleMat, translateMat, scale, rotate, translate, flip*")],
  [dict(file="transform.cpp", defs=["-DSX_PART=44"], mode="real")], "matrices of size 2 to 5; float and double", [REAL])


# ---- printing -------------------------------------------------------------------------------------
PR = ["nytl/vecOps.hpp", "nytl/matOps.hpp", "nytl/rectOps.hpp", "nytl/approx.hpp"]
P("C47", "Printing shows every component in order and leaves the stream as it was",
  "print and operator<< write every component of a vector or range once, in order, between the given start and end with the separator between neighbours; matrices row by row, each value with the given width (none if it is 0) and a precision that lets it fit, each row with the given spacing; rects as position then size; approximate values as their value. The stream is returned, its precision is the same as before and no field width is left behind. Any value can be printed, infinities and NaN included, without undefined conversions.",
  ["inputs", "configurations"], "all component values, stream precisions and widths", "the tests print a few values to the terminal and check nothing",
  PR, [("output of components", PR[0] + ": print, operator<<"), ("width and precision", PR[1] + ": print")],
  [dict(file="print.cpp", defs=[], extra=["model_ostream.cpp"])],
  "vectors of 1..5, ranges of 1..4 (thorough 8), matrices up to 2x3 and 4x1 (thorough 4x4), rects of 1..3 dimensions; values, precision 0..40 and width 0 or 4..40 arbitrary; the number of digits of matrix values outside of -10..10 for chosen values",
  [MEM, "the character output of std::ostream is represented by a model, compared with the library on the path witnesses of every run"])
