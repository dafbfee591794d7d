#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

IT = "src/iters.rs"
p("C01", "Mapping in SIMD and collecting equals mapping the scalars one by one",
  "For every element type, every collection (borrowed slice, mutable slice or owned vector), every length, every memory alignment and every default vector, mapping a lane-wise function over the SIMD iterator and collecting gives exactly the list obtained by applying the scalar function to each element in order: same length, same order, nothing lost, duplicated or replaced by default lanes. The same holds for chained maps and for maps to vectors of another type with the same number of lanes, whatever the size of its elements. The source collection is left unchanged.",
  ["inputs", "programs"], "All element types u8..i64, f32, f64; lengths 0 to several vectors, including around every multiple of the vector width; all alignments; arbitrary data and default lanes; map chains; on SSE2, SSE4.2 and AVX2 builds, optimised and with debug assertions.",
  "Unit tests fix a handful of lengths and mostly constant data, so a misplaced, duplicated or default lane is invisible; the claim is over every length/width residue, lane position and type.",
  [IT, "src/into_iters.rs", "src/vecs.rs"],
  [("right-aligned tail vector plus overlapping stores when collecting", IT), ("closure applied once per vector", IT)],
  ["the collected Vec and the source collection"])
p("C02", "Maps to narrower or wider elements keep every piece, in order",
  "When the mapped function reinterprets each vector as a vector of narrower elements, collecting or filling yields, for each source element in order, all of its pieces in memory order: exactly (source length x size ratio) elements, none taken from the default vector. When it reinterprets as fewer, wider elements and the source holds whole groups, the result is each group as one element, in order.",
  ["inputs"], "Pairs of a wider and a narrower element type (ratios 2, 4, 8) in both directions, plain and zipped iterators, all lengths and data.",
  "Three tests use one 5-element i64 input; the number of filled lanes must be rescaled correctly for every type pair, length and vector width.",
  [IT, "src/zip.rs", "src/intrin/transmute.rs"], [("rescaling of the empty-lane count in the mapped and zip-mapped tails", IT + ", src/zip.rs")], ["the collected Vec"])
p("C03", "Filling a buffer writes exactly the results and nothing else",
  "Storing an iterator's results into a caller-supplied buffer writes the mapped elements in order at the start of the buffer, leaves every later element of the buffer unchanged, and returns that same buffer. If the buffer is too short to hold the results the call panics rather than writing outside the buffer; memory before and after the buffer is never modified.",
  ["inputs"], "All element types, all source lengths, all buffer lengths from zero to larger than needed, plain, mapped, zipped and strided sources.",
  "No test uses a buffer whose length differs from the input's, and a stray write past a buffer is silent without guard memory.",
  [IT], [("stores of full vectors and of the right-aligned tail into the output slice", IT)], ["the buffer, the memory around it, and whether the call panicked"])
p("C04", "Collecting or filling all lanes keeps every vector whole, tail included",
  "The variants that keep redundant elements store every produced vector whole and in order, including all lanes of the last, partially filled one; the collected list has exactly one vector width of elements per produced vector. A buffer shorter than that makes the filling variant panic rather than write outside it.",
  ["inputs"], "All element types, lengths, data and default vectors; plain and mapped sources.",
  "The existing tests never call these functions.",
  [IT], [("vector-granular stores", IT)], ["the collected Vec or the buffer and its surroundings"])
p("C05", "In-place SIMD iteration updates each element exactly once",
  "Running a lane-wise function over a mutable SIMD iterator replaces every not-yet-consumed element by the function of its old value, applies the function to each such element exactly once, and leaves all other memory unchanged, whatever the length, element type, alignment, default vector and however many elements were consumed beforehand.",
  ["inputs", "histories"], "All element types, lengths and alignments; starting positions reached by consuming vectors, by advancing, or by scalar unpacking.",
  "Tests call it on one or two fixed arrays from the beginning; the overlapping tail store makes correctness depend on length, width and starting position.",
  [IT], [("tail load overlapping already-processed elements, then restoring stores", IT)], ["the slice and the memory around it after the call"])
p("C06", "Reductions and visits see every element once; spare lanes hold the default",
  "A reduction or a visit over a SIMD iterator passes to the closure, in order, all complete vectors of the collection and then, only if elements remain, one last vector whose leading lanes are the default vector's own lanes and whose remaining lanes are the remaining elements in order. Hence folding with a neutral default gives the same result as the scalar fold for any order-independent operation, and an empty collection never calls the closure.",
  ["inputs"], "All element types, lengths, data, default vectors with distinct lanes; plain, strided, zipped and mapped sources.",
  "Tests reduce constant data with a splat default, so lane order, default lane placement and duplicate delivery cannot be seen.",
  [IT, "src/zip.rs"], [("construction of the right-aligned partial vector from the default", IT)], ["the sequence of closure arguments"])
p("C07", "Any history of iterator operations follows a cursor over the scalar list",
  "For every sequence of taking vectors, advancing by scalars, switching to scalar iteration and back, cloning, finishing, and finally a collecting, filling, visiting or reducing operation, the iterator behaves as a cursor over the scalar sequence: each operation yields exactly the elements between the old and the new position, position and length queries agree with that cursor, and an exhausted or finished iterator yields nothing more.",
  ["histories", "inputs"], "Random operation sequences over plain, owned, mapped, zipped and strided iterators of all element types and lengths; advances stay within the collection.",
  "Tests run at most two operations in a row on one fixed array; the claim is over all histories, where state left by one step is read by another.",
  [IT, "src/zip.rs", "src/stride.rs"], [("position counter advanced by every operation", IT)], ["returned vectors, scalars, positions and lengths after every step"],
  state=[("position", "next scalar to be read", IT)])
p("C08", "Unrolled iteration delivers the same vectors in chunks",
  "Unrolling an iterator by any amount from 1 to 8 yields the complete vectors the plain iterator would have produced, in order, in slices of exactly that many vectors except for a shorter last one, after which the underlying iterator stands just past the delivered vectors and its remaining elements are intact. Slices that were handed out keep their contents.",
  ["inputs", "histories"], "All element types, lengths, unroll amounts 1..8, starting positions; chunks consumed immediately or kept.",
  "One fixed-length use in tests; chunk boundaries and what remains afterwards depend on length, width and amount.",
  [IT], [("scratch array of eight vectors refilled by every step", IT)], ["chunk contents and the iterator's remaining elements"])
p("C09", "Zipped iterators run in lockstep and refuse mismatched collections",
  "Zipping two to twelve iterators visits them in lockstep: each step passes the tuple of vectors taken from the same scalar positions of every collection, including the last partial vectors, with each component keeping its own default in spare lanes, so mapping, reducing and collecting equal the element-wise scalar computation. Zipping collections that do not contain the same number of elements, or whose vectors hold different numbers of elements, panics instead of dropping, inventing or misaligning elements.",
  ["inputs", "configurations"], "Arities 2 to 12, mixed element types with equally many lanes, all lengths, data and defaults; all pairs of unequal lengths or lane counts at every component.",
  "Tests zip identical fixed-length arrays of arity two or three; only the vector count of mismatched inputs is ever compared.",
  ["src/zip.rs", IT], [("first iterator drives the position, others are read unchecked at that position", "src/zip.rs"), ("length comparison when zipping", "src/zip.rs")], ["closure arguments, collected results, panics"])
p("C10", "Strided iterators visit every n-th element from each offset",
  "Striding a collection by n gives n iterators; the k-th yields, in order, elements k, k+n, k+2n, ... of every complete group of n, through vector iteration, tails with its own default lanes, random-access loads and scalar loads alike, so zipping all of them and mapping equals processing the records of n elements one by one; elements of an incomplete last group are never iterated. This holds for the fixed counts 2, 3, 4 and 9, for any run-time count, and for strided iterators of strided iterators.",
  ["inputs"], "All element types, counts 1..12 (now and then to 72) and the fixed ones, all collection lengths including non-multiples, nested strides, defaults with distinct lanes.",
  "Tests look at 4 and 16 element arrays with parity checks; element positions depend on count, offset, width and length.",
  ["src/stride.rs"], [("position arithmetic base + stride x index", "src/stride.rs")], ["yielded vectors, tails, loads, collected Vec"])
p("C11", "De-interleaving zip splits pairs for every length",
  "The de-interleaving zip over a collection of pairs yields the even-indexed elements in the first component and the odd-indexed elements in the second, in order, for every number of pairs: mapping and collecting gives one result per pair, spare lanes of the last step are reported as such, and no pair is lost, duplicated or mixed with padding.",
  ["inputs"], "All element types supported, all lengths (with an odd last element ignored), collected, reduced and stepped manually.",
  "Tests use a single length that is a multiple of two vectors.",
  ["src/stride_zip.rs", "src/intrin/destride.rs", "src/arch/x86/intrin/destride.rs"], [("pairs of vectors de-interleaved, saved first vector for the tail", "src/stride_zip.rs")], ["closure arguments and collected results"])
p("C12", "No safe operation touches memory outside the caller's collections",
  "No composition of the safe iteration, zip, stride, unpack, unroll, collect, fill and in-place operations reads or writes memory outside the collections and buffers it was given or its own allocations, or exposes uninitialised memory, for any input, including mismatched or empty collections and iterators in any state; it either completes or panics. (Slices kept from an unrolled iteration are the subject of C08.)",
  ["inputs", "programs", "histories"], "Random pipelines over collections placed directly against inaccessible pages, heap blocks with guard zones and poisoned contents, all types, lengths, positions (also past the end).",
  "Out-of-bounds vector accesses usually succeed silently in ordinary tests because neighbouring memory is mapped.",
  [IT, "src/zip.rs", "src/stride.rs", "src/stride_zip.rs", "src/vecs.rs"], [("length checks that guard the unchecked loads and stores", IT)], ["faults on guard pages, guard zones around heap blocks, address sanitizer reports"])
p("C13", "Absolute value, minimum and maximum are exact in every lane",
  "For every vector type and all lane values, absolute value gives in each lane the exact magnitude (as the unsigned counterpart for signed integers, including the most negative value; clearing only the sign for floats, NaN staying NaN), and minimum and maximum give in each lane the smaller or larger of the two operands (for floats without NaN; either zero may be returned when comparing zeros of opposite sign).",
  ["inputs"], "All vector types and widths implementing them; all lane values, exhaustively for 8-bit pairs, edge-biased and random otherwise.",
  "Tests use a few values splatted over all lanes; signedness, extreme values and per-lane independence need the whole value range in each lane.",
  ["src/arch/x86/intrin/abs.rs", "src/arch/x86/intrin/cmp.rs", "src/intrin/macros.rs"], [("per-target intrinsic or software fallback", "src/arch/x86/intrin/")], ["returned vectors lane by lane"])
p("C14", "Saturating addition and subtraction clamp exactly in every lane",
  "For every supported vector type, saturating addition and subtraction return in each lane the mathematically exact sum or difference clamped to the range of the element type, independently of the other lanes.",
  ["inputs"], "8- and 16-bit signed and unsigned vectors of all implemented widths; all 8-bit operand pairs exhaustively, 16-bit edge-biased and random.",
  "Tests check a few splatted values; clamping boundaries and lane independence need all pairs.",
  ["src/arch/x86/intrin/saturating_add.rs", "src/arch/x86/intrin/saturating_sub.rs"], [("per-target intrinsic or software fallback", "src/arch/x86/intrin/")], ["returned vectors lane by lane"])
p("C15", "Rounding, square roots and reciprocals are right in every lane",
  "For every float vector type, in each lane: floor, ceiling and truncation equal the scalar functions bit for bit apart from zero signs and NaN payloads, rounding gives a nearest integer (either one at exact ties), square root is the correctly rounded root, and reciprocal and reciprocal square root are within a relative error of 1.5 x 2^-12 of the true value for normal operands and results. Lanes do not influence each other.",
  ["inputs"], "All float vector types; lane values over all exponents, exact ties, integers beyond 2^23/2^52, subnormals, infinities, NaN, negative zero.",
  "Tests use a few small values; wrong modes or lane mixups only show for particular fractions, signs, magnitudes or lanes.",
  ["src/arch/x86/intrin/round.rs", "src/arch/x86/intrin/sqrt.rs", "src/arch/x86/intrin/recip.rs", "src/arch/x86/intrin/rsqrt.rs"], [("per-target intrinsic or software fallback", "src/arch/x86/intrin/")], ["returned vectors lane by lane"])
p("C16", "Equality masks are all-ones exactly where lanes are equal",
  "For every supported vector type and all operands, the equality mask has all bits set in the lanes where both operands are equal and all bits clear elsewhere, and the inequality mask is its exact complement; for floats, comparison follows IEEE (zeros equal, NaN unequal to everything).",
  ["inputs"], "All supported vector types; equal, nearly equal and unequal lanes in arbitrary patterns; NaN, signed zeros.",
  "Tests compare 0/1 patterns only; single-bit differences and lane order are not covered.",
  ["src/intrin/eq.rs", "src/arch/x86/intrin/eq.rs"], [("per-target compare or per-lane fallback", "src/arch/x86/intrin/eq.rs")], ["returned masks lane by lane"])
p("C17", "Horizontal add and subtract combine adjacent lanes in the documented order",
  "For every supported vector type, horizontal addition or subtraction of two vectors returns, for each pair index k, the sum or difference of lanes 2k and 2k+1 of the first operand at lane 2k and of the second operand at lane 2k+1, on every target and width; the saturating forms clamp each result to the element range, the plain integer forms wrap (or panic where overflow checks are compiled in).",
  ["inputs"], "All supported vector types and widths with distinct lane values, extreme values and overflow.",
  "Tests use constant or two-valued vectors, under which most lane permutations are invisible.",
  ["src/intrin/hadd.rs", "src/intrin/macros.rs", "src/arch/x86/intrin/hadd.rs", "src/arch/x86/intrin/hsub.rs", "src/arch/x86/intrin/saturating_hadd.rs", "src/arch/x86/intrin/saturating_hsub.rs"], [("intrinsic plus permutation, or per-lane macro", "src/arch/x86/intrin/hadd.rs")], ["returned vectors lane by lane"])
p("C18", "Horizontal reductions equal the scalar fold over all lanes",
  "For every vector type, the sum, the product, and the 64-bit widening sum of a vector equal the corresponding fold over its lanes (modulo the element's range for integer sum and product; the widening sum exactly, without wrapping in narrower types), the population counts of ones and zeroes count every bit of every lane, scalar reduction visits the lanes in order, and coalescing a uniform vector returns its value.",
  ["inputs"], "All vector types and widths; arbitrary lane values incl. extremes; floats restricted to values whose sums and products are exact in any order.",
  "Tests sum splatted small values chosen not to overflow, and the population-count tests do not compile; missed or double-counted lanes and truncation of intermediate sums stay hidden.",
  ["src/intrin/sum.rs", "src/arch/x86/intrin/sum.rs", "src/vecs.rs", "src/intrin/popcnt.rs", "src/arch/x86/intrin/popcnt.rs"], [("tree reductions with narrowing and widening intrinsics", "src/arch/x86/intrin/sum.rs")], ["returned scalars"])
p("C19", "Widening conversion preserves every lane's value and order",
  "Upcasting a vector yields two vectors which, read one after the other, contain the value of every source lane in order, exactly represented in the wider type (sign-preserving for signed, zero-extending for unsigned, numerically exact for conversions to double), for every supported type and target.",
  ["inputs"], "All supported upcasts and widths, all 8-bit values per lane, edge-biased and random wider values.",
  "Tests use splat or small ascending values, hiding sign extension and 128-bit-lane ordering errors.",
  ["src/intrin/upcast.rs", "src/arch/x86/intrin/upcast.rs"], [("unpack/convert intrinsics plus permutation, or per-lane fallback", "src/arch/x86/intrin/upcast.rs")], ["both returned vectors"])
p("C20", "Saturating narrowing clamps every lane and keeps order",
  "Saturating downcast of two vectors yields one vector that holds, in order, each lane of the first and then of the second operand clamped to the range of the narrower type (for floats: converted), on every target and for every lane value.",
  ["inputs"], "All supported downcasts and widths; values around every clamping boundary in every lane; distinct lanes.",
  "Tests use small constant values; saturation of large unsigned inputs and lane order across 128-bit halves are not exercised.",
  ["src/intrin/downcast.rs", "src/arch/x86/intrin/downcast.rs"], [("pack intrinsics or min-and-truncate fallback", "src/arch/x86/intrin/downcast.rs")], ["the returned vector"])
p("C21", "Reinterpretation and byte swapping preserve the underlying bytes",
  "Reinterpreting a vector as any other element type keeps its in-memory bytes, so every chain of reinterpretations that returns to the original type returns the original bits; swapping bytes reverses the bytes within each lane only and is its own inverse; conversions to and from little-endian are identities and to and from big-endian are byte swaps on this machine.",
  ["inputs", "programs"], "All vector types and widths, random bit patterns in all lanes, random reinterpretation chains.",
  "Tests transmute splat(1) once, and the byte-swap tests fail to run on the base tree.",
  ["src/intrin/transmute.rs", "src/arch/x86/intrin/transmute.rs", "src/intrin/endian.rs", "src/arch/x86/intrin/endian.rs"], [("bit casts; byte shuffles or per-lane fallback", "src/arch/x86/intrin/endian.rs")], ["bytes of the returned vectors"])
p("C22", "Pattern constructors and merges select the right source for every lane",
  "For every vector type, halves, interleaving and partitioning at every offset from 0 to the width (values and masks alike) place the first value, or the first operand's lane, in exactly the lanes their definition names and the second in all others; merging two vectors by halves, interleaving or partition takes each lane unchanged, at its own index, from the operand so selected; all-ones, zeroes, splat and default constructors set every lane accordingly. Offsets beyond the width panic or yield lanes taken from one of the two sources only.",
  ["inputs"], "All vector types and widths, all offsets, arbitrary lane values.",
  "Tests use two constants per vector; lanes taken from the wrong index but the right operand look the same, and the offset equal to the width is not tried.",
  ["src/vec_patterns.rs", "src/arch/x86/vec_patterns.rs", "src/intrin/merge.rs", "src/arch/x86/intrin/merge.rs"], [("generated constructor tables; mask blends or per-lane fallback", "src/arch/x86/vec_patterns.rs, src/intrin/merge.rs")], ["returned vectors lane by lane"])
p("C23", "De-interleaving two or four vectors is exact in every lane",
  "De-interleaving two vectors returns the even-indexed and the odd-indexed lanes of their concatenation, and de-interleaving four returns the lanes congruent to 0, 1, 2 and 3 modulo four of their concatenation, each in order, for every supported vector type on every target.",
  ["inputs"], "All supported vector types and widths with arbitrary distinct lane values.",
  "Tests use repeating constants per residue class, so any permutation within a class passes.",
  ["src/intrin/destride.rs", "src/arch/x86/intrin/destride.rs"], [("byte shuffles, unpacks and merges, or per-lane macro", "src/arch/x86/intrin/destride.rs")], ["returned vectors lane by lane"])
p("C24", "Checked vector loads, stores and lane accesses respect bounds and position",
  "Checked vector loads and stores at any offset transfer exactly one vector width of consecutive elements at that offset, leaving all other elements untouched, and panic without any transfer when the vector does not fit; reading a lane returns and replacing a lane changes exactly that lane, panicking when the index is out of range; array-like views give the same answers as indexing the collection (a strided view may serve or refuse the elements of an incomplete last group).",
  ["inputs"], "All vector types and widths, all offsets including past the end and near the maximum integer, all lane indices, unaligned collections.",
  "Tests never load near the end of an array, at misaligned offsets, or out of range.",
  ["src/vecs.rs", IT, "src/stride.rs"], [("slice bounds checks before unaligned vector access", "src/vecs.rs")], ["vectors, collections, panics"])
p("C25", "The same pure program gives the same result on every build",
  "A program built from pure lane-wise operations, conversions, zips, strides and order-independent exact reductions gives the same result on every instruction-set level, in optimised and in checked builds, and with execution tracing switched on or off, and that result equals scalar evaluation of the program.",
  ["programs", "configurations", "inputs"], "Randomly generated pipelines and lane-wise expression trees over all element types; builds for SSE2, SSE4.2, AVX2, with debug assertions, with tracing.",
  "Every test runs one hand-written expression and compares with constants per build; no test compares builds or composes operations.",
  ["src/lib.rs", IT, "src/arch/x86/intrin/mod.rs", "src/debug.rs"], [("compile-time choice of vector width and intrinsic or fallback", "src/arch/mod.rs, src/arch/x86")], ["results of the same generated program on each build"])
p("C26", "Packing a scalar iterator yields its elements in order",
  "An adapter that packs an ordinary scalar iterator into vectors produces the iterator's elements in order, each exactly once: complete vectors first, then one partial vector whose leading spare lanes are the default and whose spare-lane count is exact, so collecting it reproduces the scalar sequence for every length.",
  ["inputs"], "All element types, all lengths, defaults with distinct lanes; collected, reduced and stepped manually.",
  "No test uses the adapter.",
  [IT], [("vector filled element by element from the wrapped iterator", IT)], ["yielded vectors and collected results"])
p("C27", "Maps are lazy and call their closure once per vector, in order",
  "A SIMD map computes nothing when it is built or queried; consuming it calls the closure exactly once per delivered vector, in order, with the data of that vector (the padded tail last, once), and never for vectors that are skipped or never asked for. A closure that panics leaves the source data, filled buffers and the process intact: elements not yet reached are unchanged, no memory is freed twice, and the iterator can still be used or dropped.",
  ["inputs", "histories", "faults"], "All source kinds and element types, maps over maps and zips, visits, reductions, in-place updates, collecting and filling; panics injected at every call number.",
  "Tests use pure closures, whose number and order of calls cannot be seen, and never a closure that panics.",
  [IT, "src/zip.rs"], [("closure applied inside next() and end() only", IT)], ["log of closure calls and arguments; buffers after a caught panic"])
p("C28", "Tracing reports each implementation once and changes nothing",
  "With the tracing feature every traced implementation site that runs is reported once per thread, in order of first use, with its place in the source, to standard output and, appended, to the log file (faster-debug.txt or the one chosen at build time); an unwritable log is tolerated. Results are the same as without tracing, and without the feature nothing is printed or written.",
  ["programs", "schedules", "configurations"], "Random sequences of operation sites with repeats, several threads, existing or unwritable log files, builds with and without the feature.",
  "No test is run with the tracing feature.",
  ["src/debug.rs", "Cargo.toml"], [("per-thread set of call sites already reported", "src/debug.rs")], ["standard output, the log file and results of a child process"])
p("C29", "Lengths and standard iterator adaptors agree with the vectors delivered",
  "At every point of any history len() and both bounds of size_hint() equal the number of whole vectors next() will still deliver, and every method of the standard Iterator (nth, skip, step_by, take, chain, zip, enumerate, peekable, fold, count, last, collect, for), by reference or consuming, sees exactly those vectors in order.",
  ["histories", "inputs"], "All source kinds and element types; random prefix histories; every listed standard method with random arguments.",
  "Tests never call len(), size_hint() or a standard adaptor on a SIMD iterator.",
  [IT, "src/stride.rs", "src/stride_zip.rs", "src/zip.rs"], [("ExactSizeIterator and size_hint of every iterator type", IT)], ["len(), size_hint() and the vectors each method yields"])
p("C30", "Buffers are owned by one iterator or result and released exactly once",
  "Every vector moved into an iterator, cloned by it or produced by collecting is released exactly once, whether the iterator is consumed, dropped early, cloned, or taken back; clones do not share data or position; results are ordinary Vecs that can be grown, shrunk and boxed, and taking the source back returns the very vector that was handed in.",
  ["histories", "inputs"], "All element types, owning and borrowing sources, random histories with clones, early drops and repeated outputs; every allocation counted.",
  "Tests do not count allocations, so a leak, a double release or a shared clone is invisible to them.",
  [IT, "src/into_iters.rs"], [("owned Vec inside SIMDIter; collected Vec built from a reserved buffer", IT)], ["live heap blocks before and after; contents of clones and originals"])
p("C31", "Iterators used in several threads at once give what they give alone",
  "Iterators over different data are independent: any mixture of operations run at the same time in several threads gives each thread exactly the result it gets alone.",
  ["schedules", "inputs"], "Two to four threads with the same or different operations over generated data, each repeated while the others run.",
  "Tests run different operations in parallel, but none repeats one operation concurrently and compares.",
  [IT, "src/zip.rs", "src/stride.rs"], [("all scratch state lives in the iterator", IT)], ["results of every repetition in every thread"])
p("C32", "Collections of a user's own type iterate like slices, within their bounds",
  "Any type that implements the random-access traits can be iterated, started from a position, strided, zipped, mapped, unrolled, unpacked and updated in place exactly like a slice with the same elements, and the crate calls that type's unchecked accessors only with offsets inside the collection - for every history of safe calls, including senseless ones (advancing past the end, taking the tail early, zipping iterators at different positions).",
  ["histories", "inputs"], "A collection type that records every access; all ways to iterate it; random histories, sensible ones against the cursor model and senseless ones for bounds alone.",
  "Tests only use slices and vectors, and an out-of-bounds read whose result is discarded changes no result.",
  [IT, "src/stride.rs", "src/zip.rs"], [("unchecked loads and stores after a position check", IT)], ["log of offsets passed to the unchecked accessors; results; contents of the collection"])
p("C33", "A build executes only instructions its target processor has",
  "Code built for a target processor (target-cpu or target features) uses only instructions of that processor's instruction sets: every operation of every vector type, including vectors wider than the processor's own, does what the processor lacks through the software fallback instead of crashing with an illegal instruction on it.",
  ["configurations", "inputs"], "Every operation of every vector type with generated operands, on builds for processors that each lack one more instruction set (SSE3, SSSE3, SSE4.1, SSE4.2, AVX, AVX2, AVX-512), every executed instruction judged.",
  "The tests run on one machine that has all the instruction sets, so an instruction the target lacks runs there all the same.",
  ["src/arch/x86/intrin", "src/intrin/macros.rs", "src/arch/x86/vecs.rs", "src/arch/x86/vec_patterns.rs"], [("cfg(target_feature) guards around intrinsics, with fallbacks", "src/arch/x86/intrin")], ["instructions executed between handing in operands and reading results"])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
