"""The properties: what they say, where they are anchored, how they are decided.

bin/gen_docs.py writes properties.jsonl and MANIFEST.json from this and from props.py.
"""

H = "include/obake/"


def P(title, statement, over, text, why, files, mechanism, technique, note, observe=(), state=(), hook=None):
    return dict(title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why,
                anchors={"files": files,
                         "mechanism": [{"name": n, "where": w} for n, w in mechanism],
                         "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                         "observe_at": list(observe), "hook_needed": hook},
                technique=technique, note=note)


SAN = "AddressSanitizer and UndefinedBehaviorSanitizer"
TRUST = (" mp++ is not installed here: coefficients use a GMP-backed stand-in (/verif/standin). Nothing is said about "
         "executions which were not run.")

CATALOG = {
    "C01": P(
        "Polynomial arithmetic is exact ring arithmetic",
        "Sums, differences, negations, products and in-place updates of polynomials yield exactly the polynomial which "
        "ordinary algebra prescribes, whatever symbols, coefficient types and internal layouts the operands have. No zero "
        "or duplicate term is ever stored in a result. Operands are left unchanged, also when an operand is an alias of "
        "the destination.",
        ["inputs", "histories"],
        "All histories of ring operations on polynomials with packed or dynamic monomials, signed or unsigned exponents, "
        "integer, rational, floating-point or polynomial coefficients.",
        "The tests that build here never construct a polynomial; any test would sample a handful of operands, while "
        "mistakes hide in cancellations, symbol merging, aliasing and layouts (segments) which depend on the history.",
        [H + "series.hpp", H + "polynomials/polynomial.hpp"],
        [("insertion of terms with zero and overflow checks", H + "series.hpp (series_add_term and its policies)"),
         ("addition and subtraction of series", H + "series.hpp (series_default_addsub_impl)"),
         ("symbol merging", H + "series.hpp (series_sym_extender), src/symbols.cpp"),
         ("multiplication of polynomials", H + "polynomials/polynomial.hpp (poly_mul_impl*)")],
        "runtime monitoring: online reference model over random histories, under " + SAN,
        "Every operation of every generated history is compared term by term with an independent exact model." + TRUST,
        ["the terms, symbol set and size of the results"]),
    "C02": P(
        "Large products are exact, whichever algorithm is chosen",
        "The product of two large polynomials (or a square) is exactly the product which the schoolbook definition gives, "
        "whatever the sparsity, the number of segments, the number of threads and the hash distribution of the terms.",
        ["inputs", "schedules", "configurations"],
        "All pairs of polynomials large enough to take the multithreaded, segmented algorithms, on any number of threads.",
        "No test which builds here multiplies polynomials; the segmented algorithm is selected by estimated sizes and its "
        "result depends on a partition of the terms that small samples never reach.",
        [H + "polynomials/polynomial.hpp"],
        [("estimation of the size of the product", H + "polynomials/polynomial.hpp (poly_mul_estimate_product_size)"),
         ("segmented multithreaded multiplication", H + "polynomials/polynomial.hpp (poly_mul_impl_mt_hm)"),
         ("serial multiplication", H + "polynomials/polynomial.hpp (poly_mul_impl_simple)"),
         ("homomorphic hashing of monomials", H + "polynomials/packed_monomial.hpp, d_packed_monomial.hpp")],
        "runtime monitoring: products compared with an exact reference, threaded and segmented paths, under " + SAN,
        "Every large product is compared with an exact product computed over plain hash maps." + TRUST,
        ["the terms of the product, its number of segments"]),
    "C03": P(
        "Truncated products keep exactly the terms within the limit",
        "A product truncated to a total or partial degree holds exactly the terms of the full product whose degree does "
        "not exceed the limit, with the same coefficients. If an intermediate degree cannot be represented the operation "
        "reports an overflow rather than drop or add terms.",
        ["inputs", "configurations"],
        "All pairs of polynomials, all limits, all subsets of symbols, small and large operands, any number of threads.",
        "The tests that build here only exercise the dispatch of truncation functions, never a truncated product; the "
        "sorting and skipping logic fails on particular degree distributions and at the limits of the degree type.",
        [H + "polynomials/polynomial.hpp"],
        [("sorting by degree and early exit", H + "polynomials/polynomial.hpp (poly_mul_impl_simple, poly_mul_impl_mt_hm)"),
         ("degree computation of the terms", H + "polynomials/polynomial.hpp (make_degree_vector)"),
         ("checked addition of degrees", H + "polynomials/polynomial.hpp (poly_mul_add_degrees)")],
        "runtime monitoring: truncated products compared with the filtered full product, under " + SAN,
        "Each truncated product is compared with the exact product filtered by degree." + TRUST,
        ["the terms of the truncated product"]),
    "C04": P(
        "Exponents never overflow silently",
        "An operation whose result needs an exponent that the chosen monomial type cannot represent reports an overflow; "
        "every result that is returned is exact. Operations whose result is representable with room to spare succeed.",
        ["inputs"],
        "All operands with exponents anywhere in their representable range, all operations which create exponents.",
        "Limits depend on the number of symbols and on the integer type; no test builds monomials here and wraparound "
        "yields plausible wrong terms, not crashes.",
        [H + "polynomials/packed_monomial.hpp", H + "polynomials/d_packed_monomial.hpp", H + "polynomials/polynomial.hpp",
         H + "detail/safe_integral_arith.hpp"],
        [("overflow check over ranges of monomials", "monomial_range_overflow_check in both monomial types"),
         ("checked packing", H + "kpack.hpp (kpacker)"),
         ("checked integer arithmetic", H + "detail/safe_integral_arith.hpp")],
        "runtime monitoring: results near the limits compared with unbounded arithmetic, under " + SAN,
        "Results are compared with a model with 128-bit exponents; the representable range is measured, not assumed."
        + TRUST,
        ["terms of results, exceptions"]),
    "C05": P(
        "Packing of exponents into one integer is lossless and additive",
        "Any vector of exponents within the documented limits is packed and unpacked without loss, distinct vectors have "
        "distinct codes, and adding codes adds the vectors componentwise as long as the sums are within the limits. "
        "Values, sizes and codes out of range are refused.",
        ["inputs"],
        "All supported integer types, all sizes, all in-range vectors and codes; out-of-range values, sizes and codes.",
        "The tests that build here do not touch the packing at all; its division by multiplication tables holds hundreds "
        "of constants, each wrong only for some codes.",
        [H + "kpack.hpp", "src/kpack.cpp"],
        [("packing and unpacking", H + "kpack.hpp (kpacker, kunpacker)"),
         ("tables of limits and division constants", "src/kpack.cpp")],
        "runtime monitoring: round trips and homomorphism against exact arithmetic, under " + SAN,
        "Codes are recomputed with exact arithmetic; the thorough tier decodes every 32-bit code." + TRUST,
        ["packed codes, unpacked components, exceptions"]),
    "C06": P(
        "Operations on monomials agree with plain exponent vectors",
        "Comparing, hashing, multiplying, exponentiating, differentiating, integrating, evaluating, substituting, merging "
        "and trimming monomials, and taking their degrees, agree with the same operations on plain vectors of exponents. "
        "Equal monomials hash equally, and hashes are additive where they are declared to be.",
        ["inputs"],
        "All monomial representations, numbers of symbols and exponents.",
        "Only the dispatch of homomorphic hashing is tested here, on dummy types.",
        [H + "polynomials/packed_monomial.hpp", H + "polynomials/d_packed_monomial.hpp"],
        [("packed monomials", H + "polynomials/packed_monomial.hpp"),
         ("dynamic packed monomials", H + "polynomials/d_packed_monomial.hpp")],
        "runtime monitoring: differential oracle over plain exponent vectors, under " + SAN,
        "Nine monomial representations are compared with vectors of 128-bit integers." + TRUST,
        ["results of the monomial operations, exceptions"]),
    "C07": P(
        "Derivatives and antiderivatives are exact",
        "Differentiating and integrating a polynomial with respect to any symbol, present or not, gives exactly the "
        "polynomial which calculus prescribes, dependence of the coefficients included; what has no polynomial "
        "antiderivative (logarithms, coefficients depending on the variable) is refused, never approximated.",
        ["inputs"],
        "All polynomials, recursive ones too, and all symbols; signed and unsigned exponents; exact and floating-point "
        "coefficients.",
        "The tests that build here only check the dispatch of diff() and integrate() on dummy types.",
        [H + "polynomials/polynomial.hpp", H + "polynomials/packed_monomial.hpp", H + "polynomials/d_packed_monomial.hpp"],
        [("differentiation", H + "polynomials/polynomial.hpp (poly_diff_impl)"),
         ("integration", H + "polynomials/polynomial.hpp (poly_integrate_impl)")],
        "runtime monitoring: results compared with an exact model of calculus, under " + SAN,
        "Each derivative and antiderivative is recomputed term by term over exact rationals." + TRUST,
        ["the terms and symbols of the results, exceptions"]),
    "C08": P(
        "Evaluation and substitution agree with ordinary algebra",
        "Evaluating a polynomial at a point, and substituting values or polynomials for some of its symbols, give what "
        "ordinary algebra prescribes; evaluation without a value for a symbol is refused, substitution leaves the other "
        "symbols alone.",
        ["inputs"],
        "All polynomials, recursive ones too, and all maps from symbols to integers, rationals, floating-point numbers or "
        "polynomials, with extra and missing symbols.",
        "The tests that build here only check the dispatch on dummy types; index bookkeeping between maps and symbol sets "
        "goes wrong only for particular overlaps.",
        [H + "polynomials/polynomial.hpp", H + "series.hpp", "src/symbols.cpp"],
        [("evaluation of series", H + "series.hpp (series_default_evaluate_impl)"),
         ("substitution", H + "polynomials/polynomial.hpp (poly_subs_impl)"),
         ("intersection of maps with symbol sets", "src/symbols.cpp (sm_intersect_idx)")],
        "runtime monitoring: results compared with an exact model, under " + SAN,
        "Each value and substituted polynomial is recomputed term by term over exact rationals." + TRUST,
        ["values, terms and symbols of the results, exceptions"]),
    "C09": P(
        "Symbols are merged, added and removed without changing a polynomial",
        "Combining polynomials over different symbol sets treats every symbol by its name: the result lives over the "
        "sorted union of the sets and represents the same expression. Adding unused symbols and trimming unused ones "
        "change the representation only, trimming removes all and only the unused symbols, and generators represent the "
        "symbols they are asked for.",
        ["inputs", "histories"],
        "All pairs of series over overlapping, disjoint, nested or empty sets of symbols with arbitrary names.",
        "Index maps for insertions are off by one only for particular interleavings of names; the tests that build here "
        "merge a few fixed sets and no polynomial.",
        [H + "series.hpp", "src/symbols.cpp", H + "polynomials/polynomial.hpp", H + "math/trim.hpp"],
        [("union of symbol sets with insertion maps", "src/symbols.cpp (merge_symbol_sets)"),
         ("extension of series", H + "series.hpp (series_sym_extender, add_symbols)"),
         ("trimming", H + "series.hpp (series_default_trim_impl)"),
         ("generators", H + "polynomials/polynomial.hpp (make_polynomials)")],
        "runtime monitoring: results compared with a model which names its variables, under " + SAN,
        "The model maps monomials given by names, not positions, to exact coefficients." + TRUST,
        ["terms and symbols of the results, exceptions"]),
    "C10": P(
        "A series is a faithful container of terms",
        "Under every history of insertions, lookups, filters, copies, moves, swaps, changes of symbols and of segments, a "
        "series holds exactly the terms accumulated so far: no key twice, no zero coefficient, no zero key; every term is "
        "met exactly once by the iteration and found by lookup; incompatible keys, changes of symbols under existing "
        "terms and excessive segments are refused and change nothing.",
        ["histories", "inputs", "configurations"],
        "All histories over series with any number of segments, with monomials and with user-defined keys, coefficients "
        "and tags, degenerate hashes included.",
        "The container tests of the repository need mp++ and do not build here; faults depend on the position of a term "
        "among segments, on collisions and on what happened before.",
        [H + "series.hpp"],
        [("insertion, annihilation, zero keys", H + "series.hpp (add_term, series_add_term*)"),
         ("segmented tables and iteration", H + "series.hpp (series::m_s_table, iterator_impl, find)"),
         ("assignment and swap", H + "series.hpp (series special members)"),
         ("filtering", H + "series.hpp (filter, filtered)")],
        "runtime monitoring: online model of the container over random histories, under " + SAN,
        "After every operation the whole container is compared with a plain map: terms, lookups, iteration, sizes, tag, "
        "symbols, segments." + TRUST,
        ["iteration, find, size, empty, is_single_cf, table_stats, exceptions"]),
    "C11": P(
        "Conversions and operations between different types preserve values",
        "Converting a series to another coefficient type or rank, or to and from a scalar, yields the same value in the "
        "target type (terms whose coefficient converts to zero vanish), with symbols and tag preserved, or is refused "
        "with invalid_argument when the value cannot be represented. Sums, differences, products, quotients, in-place "
        "operations and comparisons between operands of different coefficient types or ranks equal the exact operation "
        "on the values, converted to the result's type. Operands not moved from are unchanged; those moved from can be "
        "assigned again; a failed conversion leaves the destination unchanged; coefficients of a series can be operands "
        "of operations on that series.",
        ["inputs"],
        "All pairs of series (or scalars) whose coefficients are integral, rational, floating-point, modular or "
        "polynomials.",
        "The combinations of types, ranks, value categories and symbol merging are many, each with a path of its own.",
        [H + "series.hpp"],
        [("generic construction and conversion", H + "series.hpp (series::series(T &&), operator T)"),
         ("symbol merging with a change of coefficient type", H + "series.hpp (series_sym_extender)"),
         ("binary and in-place operations between different ranks", H + "series.hpp (series_default_addsub_impl, series_default_in_place_addsub_impl, series_default_mul_impl, series_default_div_impl)"),
         ("comparisons", H + "series.hpp (series_equal_to_impl)")],
        "runtime monitoring: online reference model of mixed operations and conversions, under " + SAN,
        "Every operation is run on lvalues and rvalues and compared with exact arithmetic followed by a conversion." + TRUST,
        ["the terms, symbols, tag and type of the results", "exceptions"]),
    "C12": P(
        "Failures of coefficients and of allocations leave every object valid",
        "When an operation of a coefficient, or an allocation, fails during an operation on series (arithmetic, in-place "
        "arithmetic, truncated products, powers, substitution, differentiation, evaluation, filtering, copies, changes of "
        "symbols), the exception reaches the caller, nothing leaks, no object is used after its destruction, every "
        "operand stays a valid series (no duplicate, zero or misplaced terms) and can be used again; operands which are "
        "only read keep their values, destinations hold some valid series, and repeating the operation gives the right "
        "result. Operations declared noexcept (clear, swap) are outside of this as regards allocations.",
        ["fault points", "inputs", "schedules"],
        "All operations, all points at which one of their coefficient operations or allocations can fail, in whichever "
        "thread.",
        "No test makes anything fail; the handlers are scattered over the insertion, multiplication and merging code and "
        "only run when something throws half way.",
        [H + "series.hpp", H + "polynomials/polynomial.hpp"],
        [("insertion of terms and its handlers", H + "series.hpp (series_add_term*)"),
         ("handlers of additions, multiplications and extensions", H + "series.hpp (series_default_addsub_impl, series_default_mul_impl, series_sym_extender)"),
         ("handlers of the parallel multiplication", H + "polynomials/polynomial.hpp (poly_mul_impl_mt_hm, poly_mul_impl_simple)"),
         ("copy assignment", H + "series.hpp (series::operator=)")],
        "runtime monitoring: fault injection at every coefficient operation and allocation, object accounting, online model, under " + SAN,
        "Coefficients count themselves, so leaks and double destructions are seen exactly; each operation is repeated with "
        "a failure at each of its points." + TRUST,
        ["the exception, the operands and the number of living coefficients after each failure"]),
    "C14": P(
        "Truncated power series are polynomials modulo their truncation",
        "A power series holds exactly the terms, of the series ordinary algebra prescribes, whose total or partial degree "
        "does not exceed its truncation: after arithmetic of every kind (with equal truncations, or one truncation and "
        "none), powers, substitution, integration, differentiation, and setting or removing truncations. Results carry the "
        "truncation of their operands; operands with different truncations are refused with an exception and stay "
        "unchanged; conversions between power series keep the truncation; generators obey the truncation they are "
        "given. (Substitution into an empty series, and zeroth powers, are exempt as regards the truncation carried.)",
        ["inputs", "histories"],
        "All histories of operations on power series with no, total or partial truncation, over packed and dynamic "
        "monomials with signed and unsigned exponents, with integer, rational and floating-point coefficients, small and "
        "large enough for the parallel products.",
        "No test which builds here makes a power series; the truncation has to survive every route an operation may take "
        "(copies, moves, changes of coefficient type, changes of symbols), which only long histories mix.",
        [H + "power_series/power_series.hpp", H + "polynomials/polynomial.hpp"],
        [("tags and truncation", H + "power_series/power_series.hpp (trunc_t, set_truncation, unset_truncation)"),
         ("addition, subtraction and multiplication", H + "power_series/power_series.hpp (ps_addsub_impl, ps_mul_impl*)"),
         ("calculus and substitution", H + "power_series/power_series.hpp (subs, diff, integrate)"),
         ("truncated products", H + "polynomials/polynomial.hpp (truncated_mul)")],
        "runtime monitoring: online reference model over random histories, under " + SAN,
        "Every result and every operand is compared, term by term and tag by tag, with an exact model truncated in the "
        "same way." + TRUST,
        ["the terms, symbols and truncation of each series"]),
    "C13": P(
        "Archives give back what was saved, and failures to load leave valid objects",
        "Loading from a Boost text or binary archive gives an object indistinguishable from the one which was saved: same "
        "terms, symbols, segments, tag (truncations included) and behaviour in lookups, comparisons, arithmetic and "
        "insertions; whatever the object loaded into held before, and however many objects share the archive (containers, "
        "pointers, the same object saved repeatedly with different values). This holds for series of all kinds, symbol "
        "sets and monomials. When a binary archive ends, or its stream fails, at any point, an exception reaches the "
        "caller and the object is left either untouched or as a cleared one, and can be used again.",
        ["inputs", "fault points"],
        "All series (polynomials, recursive ones, power series, user-defined keys and tags), all contents of the "
        "destination, all orders of saving, all points at which a binary archive may end.",
        "No test which builds here serializes anything; what matters is the combination of previous content, segments, "
        "tags, symbols and points of failure.",
        [H + "series.hpp", H + "symbols.hpp", H + "s11n.hpp", H + "power_series/power_series.hpp",
         H + "polynomials/packed_monomial.hpp", H + "polynomials/d_packed_monomial.hpp"],
        [("saving and loading of series", H + "series.hpp (series::save, series::load)"),
         ("saving and loading of truncations", H + "power_series/power_series.hpp (save, load of trunc_t; tag)"),
         ("saving and loading of symbol sets", H + "symbols.hpp"),
         ("saving and loading of monomials", H + "polynomials/packed_monomial.hpp, d_packed_monomial.hpp"),
         ("no object tracking", H + "s11n.hpp")],
        "runtime monitoring: round trips compared with complete descriptions of the originals, fault injection in streams, under " + SAN,
        "XML archives are not supported by the library; incomplete text archives are left out, as Boost itself does not "
        "notice them reliably." + TRUST,
        ["complete descriptions (terms, symbols, segments, tags) of saved and loaded objects"]),
    "C15": P(
        "Powers are repeated products, whatever was computed before or elsewhere",
        "A natural power of a series equals the repeated product of the base (one for the zeroth power), with the symbols "
        "and truncation of the base; powers of single terms also take negative exponents. The result does not depend on "
        "the powers computed previously, of this or of other bases which look alike, on modifications of earlier results "
        "or bases, on other threads computing powers at the same time, nor on computations of powers which were "
        "interrupted by failures (overflows, cancelled tasks). Exponents which make no sense are refused with an "
        "exception. Computing powers inside of parallel tasks terminates.",
        ["inputs", "histories", "schedules", "fault points"],
        "All histories of powers of polynomials and power series of any coefficients, by any number of threads and "
        "tasks.",
        "Powers go through a process-wide cache keyed by the value of the base; confusing two bases, or keeping an "
        "incomplete entry, shows only in later calls, elsewhere.",
        [H + "series.hpp", "src/series.cpp", H + "polynomials/polynomial.hpp", H + "power_series/power_series.hpp"],
        [("cache of powers", H + "series.hpp (series_pow_from_cache, series_are_identical), src/series.cpp"),
         ("default power", H + "series.hpp (pow)"),
         ("powers of single terms", H + "polynomials/polynomial.hpp (pow_poly_impl), monomial_pow"),
         ("powers of power series", H + "power_series/power_series.hpp (pow)")],
        "runtime monitoring: online reference model over random histories and threads, cancellation of tasks, detection of hangs, under " + SAN,
        "Every power is compared with the repeated product in an exact model." + TRUST,
        ["each power, the base, the truncations; termination"]),
    "C17": P(
        "The parallel algorithms are free of data races and independent of the schedule",
        "The parallel products (plain, truncated to total or partial degrees, squares, in place), and the other operations "
        "which run in parallel (sorting, sizing, range checks, clearing), access no datum from two threads without "
        "synchronisation, leak nothing, leave the operands alone, and give the exact result, whatever the partition and "
        "the schedule of the tasks, the number of processors and whether coefficients fail in some task; also when "
        "several threads multiply at once, with operands in common.",
        ["schedules", "inputs", "fault points", "configurations"],
        "All pairs of operands large enough for the parallel algorithms, all partitions and interleavings of the tasks, "
        "all numbers of processors.",
        "A race shows as a wrong result only once in a very long while, on some machines; no test that builds here "
        "multiplies polynomials.",
        [H + "polynomials/polynomial.hpp", H + "series.hpp", H + "polynomials/packed_monomial.hpp",
         H + "polynomials/d_packed_monomial.hpp", "src/detail/hc.cpp"],
        [("segmented multiplication", H + "polynomials/polynomial.hpp (poly_mul_impl_mt_hm)"),
         ("estimation of the size", H + "polynomials/polynomial.hpp (poly_mul_estimate_product_size)"),
         ("range checks", H + "polynomials/packed_monomial.hpp, d_packed_monomial.hpp (monomial_range_overflow_check)"),
         ("clearing and sizing of segments", H + "series.hpp (clear, byte_size)")],
        "runtime monitoring: ThreadSanitizer over an instrumented stand-in of TBB with random partitions and schedules, exact model",
        "TBB itself is replaced by a small implementation, every access of which is instrumented, and which adds no "
        "synchronisation but the joins. Coefficients on the heap count themselves. With and without the debug assertions "
        "(whose counters synchronise)." + TRUST,
        ["memory accesses of all threads, results, number of living coefficients"]),
    "C16": P(
        "Operations on distinct or constant objects may run in several threads",
        "Any number of threads may operate at once on series of their own and on common series which none of them "
        "modifies (arithmetic, powers with their common cache, calculus, substitutions, truncations, symbols, printing, "
        "copies, moves, destruction, and operations which fail and throw): there is no data race, and every operation "
        "gives what it gives alone.",
        ["schedules", "histories", "inputs"],
        "All interleavings of operations of several threads, over all operands in common.",
        "The library keeps hidden common state (the cache of the powers, the sets of symbols, buffers of the algorithms), "
        "whose protection matters only to programs with several threads; the tests are sequential.",
        [H + "series.hpp", "src/series.cpp", H + "detail/fw_utils.hpp", "src/detail/fw_utils.cpp", H + "symbols.hpp",
         H + "polynomials/d_packed_monomial.hpp", "src/libbacktrace_stack_trace.cpp"],
        [("cache of the powers", "src/series.cpp (get_series_pow_map); " + H + "series.hpp (pow_from_cache)"),
         ("storage of the sets of symbols", H + "detail/fw_utils.hpp; src/detail/fw_utils.cpp"),
         ("buffers", H + "polynomials/d_packed_monomial.hpp (key_merge_symbols)")],
        "runtime monitoring: ThreadSanitizer over random lists of operations in two to four threads, each compared with itself alone",
        "The result of an operation alone is judged by the checks of the other properties, here only the agreement is. "
        "Serial products only (C17 has the parallel ones). The stack traces are those of the build here." + TRUST,
        ["memory accesses of all threads, dumps and printed forms of results, outcomes of failures"]),
    "C18": P(
        "Degrees, truncations and filters agree with the exponents of the terms",
        "The degree and partial degrees of a series (recursive ones too) are the maximum over its terms of the sum of the "
        "exponents concerned, of all its levels (0 for an empty series; symbols which are absent count for nothing), or "
        "overflow_error is thrown if a sum is not representable. Truncation to a total or partial degree, and filtering, keep "
        "exactly the terms which qualify, unaltered, with the symbols and tag of the series, whatever the number of segments "
        "and the type of the limit.",
        ["inputs", "configurations"],
        "All series, limits, sets of symbols and predicates.",
        "Exponents are packed: negative ones, limits of the types, partial words and segments are where errors hide; "
        "the tests of series and polynomials do not build here.",
        [H + "series.hpp", H + "polynomials/polynomial.hpp", H + "polynomials/packed_monomial.hpp",
         H + "polynomials/d_packed_monomial.hpp", H + "math/degree.hpp", H + "math/p_degree.hpp"],
        [("degrees", H + "series.hpp (series_default_degree_impl, series_default_p_degree_impl)"),
         ("truncations", H + "polynomials/polynomial.hpp (truncate_degree, truncate_p_degree)"),
         ("filters", H + "series.hpp (filter_impl, filtered_impl)")],
        "runtime monitoring: ASan+UBSan and debug assertions, unpacked exponents summed in 128 bits",
        "Mixed signedness: a negative limit for unsigned exponents compares as C++ does (nothing is removed), and is not "
        "used. Where a partial sum overflows but the sum does not, either outcome is accepted." + TRUST,
        ["degrees, terms kept and removed, coefficients, tags, overflows reported"]),
    "C19": P(
        "The printed forms of a series denote that series",
        "The plain and TeX forms of a series, read as mathematical expressions, are the series itself (at most 50 of its "
        "terms, followed by an ellipsis if and only if there are more), whatever the signs, units, fractions and negative "
        "exponents, at all levels of a recursive series; the TeX form of a power series states its truncation, and the plain "
        "form the number of terms, symbols, rank, types and truncation. Printing alters neither the series nor the stream.",
        ["inputs"],
        "All series, of all types of coefficients and exponents, of any rank.",
        "The forms are assembled out of strings (units elided, brackets removed, signs joined), whose combinations the "
        "tests, which compare a few strings, do not cover.",
        [H + "series.hpp", "src/series.cpp", H + "tex_stream_insert.hpp", H + "power_series/power_series.hpp",
         "src/polynomials/packed_monomial.cpp", H + "polynomials/d_packed_monomial.hpp"],
        [("terms", "src/series.cpp (series_stream_single_term); " + H + "series.hpp (series_stream_terms_impl)"),
         ("coefficients", H + "series.hpp (cf_stream_insert, cf_tex_stream_insert); " + H + "tex_stream_insert.hpp"),
         ("monomials", "src/polynomials/packed_monomial.cpp, " + H + "polynomials/d_packed_monomial.hpp (key_stream_insert, key_tex_stream_insert)"),
         ("truncation", H + "power_series/power_series.hpp (tex_stream_insert, operator<< of the tag)")],
        "runtime monitoring: ASan+UBSan, an independent parser of both forms, exact model",
        "Default formatting of the stream (the precision of a stream is not passed on to the coefficients by the library: "
        "floating point coefficients are few binary digits). Names of symbols are letters, digits and underscores." + TRUST,
        ["the printed text, header lines, state of the stream"]),
    "C20": P(
        "Conversions of numbers are exact or refused, checked arithmetic is exact or throws",
        "safe_convert() and safe_cast() between C++ integral types (bool and 128 bits included), integers and rationals succeed "
        "if and only if the number is representable in the destination, and then preserve it; safe_cast() throws "
        "safe_cast_failure otherwise. Checked sums and differences give the exact result or throw overflow_error if and only "
        "if it is not representable. The limits, signs and digits of the types, the decimal strings, negation, fused "
        "products, zero tests and powers of numbers are exact.",
        ["inputs"],
        "All numbers of all pairs of types.",
        "Signed and unsigned types of different sizes, promotions and limits make for hundreds of combinations, and everything "
        "else (sizes, exponents, degrees, limits of truncations) goes through these functions.",
        [H + "math/safe_convert.hpp", H + "math/safe_cast.hpp", H + "detail/safe_integral_arith.hpp", H + "detail/limits.hpp",
         "src/detail/to_string.cpp", H + "math/fma3.hpp", H + "math/negate.hpp", H + "math/is_zero.hpp", H + "math/pow.hpp"],
        [("conversions", H + "math/safe_convert.hpp (safe_convert)"), ("casts", H + "math/safe_cast.hpp (safe_cast_impl)"),
         ("checked arithmetic", H + "detail/safe_integral_arith.hpp (safe_int_add, safe_int_sub)"),
         ("strings", "src/detail/to_string.cpp")],
        "runtime monitoring: UBSan+ASan, exhaustive numbers of 8 and 16 bits and edges of the wider ones, against multiprecision integers",
        "The conversions out of integers and rationals are partly those of the stand-in of mp++." + TRUST,
        ["outcomes and results of conversions and operations, messages of overflows"]),
    "C21": P(
        "Locks exclude, publish and are always released; shared storage is created once",
        "The flags of an array of locks are clear at first, distinct and independent, for any size. At any time a lock has at "
        "most one holder; what a holder wrote is seen by the following ones, whatever the number of threads and locks, and the "
        "lock is released when the holder leaves, with an exception too. The storage of a flyweight is created once, whichever "
        "threads ask for it first, and is the same for all. The number of cores is the one of the system, at least 1, in all threads.",
        ["inputs", "schedules"],
        "Any number of locks and threads, all schedules.",
        "A weakened memory order or a lost release shows up under some schedules only, and mostly on other processors: it takes "
        "a race detector.",
        [H + "detail/atomic_lock_guard.hpp", H + "detail/atomic_flag_array.hpp", "src/detail/atomic_flag_array.cpp",
         H + "detail/fw_utils.hpp", "src/detail/fw_utils.cpp", "src/detail/hc.cpp"],
        [("locks", H + "detail/atomic_lock_guard.hpp (atomic_lock_guard)"), ("flags", "src/detail/atomic_flag_array.cpp (atomic_flag_array)"),
         ("shared storage", "src/detail/fw_utils.cpp (fw_fetch_storage)")],
        "runtime monitoring: TSan and ASan, threads over plain data under locks, with logs of the holders, conservation of objects and counts",
        TRUST,
        ["holders of the locks in order, updates, objects passed, storage seen by the threads"]),
    "C22": P(
        "Errors carry their message and where they come from",
        "An exception thrown by the library has the type, the arguments and the message it is thrown with, complete and unaltered, "
        "with the name of its type and, if stack traces are enabled, a stack trace which begins where it is thrown. Stack traces "
        "are well formed (all the frames from the outermost, numbered down to 0, aligned), start at the call, with its file and "
        "line if libbacktrace is used, skip exactly the requested number of frames, none if there are not as many, and can be "
        "turned off and on at any time, from any thread, together with failures in other threads.",
        ["inputs", "schedules"],
        "All messages, depths, numbers of skipped frames.",
        "Errors are looked at when something else is already wrong; the tests only look for a few words in them.",
        [H + "exceptions.hpp", H + "stack_trace.hpp", "src/boost_stack_trace.cpp", "src/libbacktrace_stack_trace.cpp",
         "src/stack_trace.cpp", H + "type_name.hpp"],
        [("exceptions", H + "exceptions.hpp (ex_thrower)"), ("stack traces", "src/boost_stack_trace.cpp (stack_trace_impl)"),
         ("stack traces with lines", "src/libbacktrace_stack_trace.cpp (stack_trace_impl)")],
        "runtime monitoring: ASan and TSan, a parser of stack traces against the known depth, names and lines of the calls",
        TRUST,
        ["messages, parsed frames, call sites, failures in threads"]),
    "C23": P(
        "Operations do only the work asked for, and sizes account for all the storage",
        "A product of polynomials or power series, truncated or not, large or small, multiplies each pair of terms within the "
        "limit once and no pair beyond it (but for a few products which estimate the size of the result). Multiplying or "
        "dividing by a scalar takes one operation per term. Moving, swapping, growing a vector of series, negating, truncating, "
        "filtering in place, and sums, differences, conversions and scalings of operands given away (rvalues) of one type of "
        "coefficients copy none of their coefficients, whatever the symbols and the segmentation; the others copy a coefficient at most once. "
        "Functions which only look copy and compute nothing. A power computed already is not computed again. The size in bytes "
        "of a series is that of the series itself and of its tables plus the one of each of its terms, whatever the number of tables.",
        ["inputs", "schedules"],
        "All polynomials, truncation limits and segmentations.",
        "Truncated products exist to avoid work, moves to avoid copies, and sizes choose the algorithms; a copy or a product too "
        "many does not change any result, so that no test of results can find it.",
        [H + "series.hpp", H + "polynomials/polynomial.hpp", H + "power_series/power_series.hpp", H + "byte_size.hpp", H + "math/trim.hpp"],
        [("products", H + "polynomials/polynomial.hpp (poly_mul_impl_simple, poly_mul_impl_mt_hm)"),
         ("sums", H + "series.hpp (series_default_addsub_impl, series_default_in_place_addsub_impl, series_sym_extender)"),
         ("sizes", H + "series.hpp (series_default_byte_size_impl)")],
        "runtime monitoring: ASan+UBSan, coefficients which count the operations and copies made of them, exact counts from the model",
        "In-place sums whose left operand lacks some symbols, add_symbols() and trim() are only held to one copy per coefficient, as they are documented." + TRUST,
        ["counts of products, divisions, sums, negations and copies per operation; sizes in bytes"]),
    "C24": P(
        "Monomials and exponents supplied by users work everywhere, within what they are promised",
        "Polynomials and power series over any monomial type which satisfies the requirements (with or without a homomorphic hash, "
        "limits on the exponents, a measure of its size; with exponents and degrees of any type) obey the same algebra as those over "
        "the monomials of the library: sums, products small and large, truncated or not, powers, derivatives, antiderivatives, evaluations, "
        "substitutions, symbols, degrees, filters, containers, archives, printed forms. The functions of a key are only called within what they are promised: "
        "keys compatible with the set of symbols given, never moved from; indices within the set; insertion maps in order, "
        "which give a set of symbols; marks for all the symbols; only unused exponents removed; and products of keys only when the test for "
        "overflows (if the key has one) has allowed them: products beyond the limits are refused with overflow_error, the others never.",
        ["inputs", "histories", "configurations"],
        "All polynomials over all types of monomials and exponents which satisfy the requirements.",
        "The library is generic, but it is only ever tested with its own packed monomials, for which a promise that is broken "
        "often goes unnoticed (a packed monomial does not know how many exponents it has); other types take other algorithms.",
        [H + "series.hpp", H + "polynomials/polynomial.hpp", H + "power_series/power_series.hpp", H + "polynomials/monomial_homomorphic_hash.hpp",
         H + "polynomials/monomial_range_overflow_check.hpp", H + "key/key_merge_symbols.hpp", "src/symbols.cpp"],
        [("choice of the algorithm of products", H + "polynomials/polynomial.hpp (poly_mul_impl_identical_ss, poly_mul_impl_simple, poly_mul_impl_mt_hm)"),
         ("degrees of any type", H + "polynomials/polynomial.hpp (poly_mul_add_degrees); include/obake/series.hpp (series_default_degree_impl)"),
         ("insertion maps", "src/symbols.cpp (merge_symbol_sets); include/obake/series.hpp (series_sym_extender)")],
        "runtime monitoring: ASan+UBSan, monomials which check how they are used, reference models of the other properties",
        "The types are three monomials over machine integers, one over multiprecision integers, two over exponents and degrees of our own, one of which fractional." + TRUST,
        ["calls of the functions of the keys and their arguments; results against the models of C01-C03, C07-C10, C13-C15, C18, C19"]),
    "C25": P(
        "Series are the same things in all the parts of a program, from its beginning to its end",
        "An executable and the shared libraries it loads, each with its own copies of what the headers define (hidden visibility, "
        "RTLD_LOCAL), may exchange series freely: objects created in one are read, changed, combined, archived and destroyed in another, "
        "equal sets of symbols and truncations are one object for all, powers computed in one are right in another, failures thrown in one "
        "are caught by their type in another, the switch of the stack traces is one for all, and all may be used at once by several threads. "
        "Series may live in objects of any duration - global, static, thread-local, handlers of exits and quick exits registered once the "
        "program runs - and all operations on them (powers, sums which merge symbols, products, printing, failures) give the right results "
        "also while the program starts, in destructors run when a thread or the program ends, whatever was used before; each program ends cleanly.",
        ["histories", "configurations", "programs"],
        "All programs made of an executable and libraries which stay loaded.",
        "The tests are single executables, which do nothing once main() returns; what is static or thread-local behind the scenes shows only "
        "with several libraries, or in what runs after it is gone.",
        [H + "detail/fw_utils.hpp", "src/detail/fw_utils.cpp", "src/series.cpp", H + "series.hpp", H + "symbols.hpp",
         H + "power_series/power_series.hpp", H + "polynomials/d_packed_monomial.hpp", H + "stack_trace.hpp", H + "detail/visibility.hpp"],
        [("storage of the flyweights", "src/detail/fw_utils.cpp (fw_fetch_storage); include/obake/detail/fw_utils.hpp (fw_holder_class)"),
         ("cache of powers", "src/series.cpp (get_series_pow_map)"),
         ("buffers", H + "polynomials/d_packed_monomial.hpp (key_merge_symbols)"),
         ("switch of the stack traces", "src/stack_trace.cpp; include/obake/stack_trace.hpp")],
        "runtime monitoring: ASan+UBSan, histories over objects shared by an executable and three libraries, programs run to their end with a log of what each object found, reference model",
        "Libraries are never unloaded; objects of threads which are still running when the program ends are not considered; "
        "what Boost.Serialization and TBB do at the end is theirs (no archives after main(); TBB is replaced by the stand-in)." + TRUST,
        ["results against the model in each part; addresses of shared storage; logs and exit statuses of the programs"]),
    "C26": P(
        "What users supply for their types is what runs, called as it was asked for",
        "Each customisation point (those of keys, monomials, numbers and series, and the operators of series) calls exactly one "
        "implementation, once: the explicit override of the user, or else the function found by the types of the arguments, or else the one "
        "of the library, or else the default, if there is one. The implementation gets the very objects which were passed, in order, "
        "with their value categories and constness; what it returns, or throws, is what the caller gets, neither copied nor moved nor "
        "converted (but for tests, which give a bool); the call is not noexcept unless the implementation is. Series use the functions "
        "supplied for their coefficients and keys, and no others, for all that they do with them.",
        ["inputs", "programs"],
        "All types for which users supply any combination of the implementations; all value categories.",
        "The tests of the library which touch upon this sample a few types and points, and only ask if a call compiles, or for its value: they do not look at "
        "which function was called, how often, or with what.",
        [H + "math/degree.hpp", H + "math/negate.hpp", H + "key/key_merge_symbols.hpp", H + "hash.hpp", H + "byte_size.hpp", H + "series.hpp",
         H + "detail/ss_func_forward.hpp", H + "detail/priority_tag.hpp"],
        [("choice of the implementation", H + "math/*.hpp, key/*.hpp, cf/*.hpp, polynomials/monomial_*.hpp (the *_impl functions with priority_tag)"),
         ("operators", H + "series.hpp (series_add and so on)"), ("forwarding", H + "detail/ss_func_forward.hpp")],
        "runtime monitoring: ASan+UBSan, implementations which record how they are called (point, layer, addresses and categories of the arguments), checked against the order of the layers",
        "The compiler decides most of this; what is observed is what runs." + TRUST,
        ["calls recorded per layer; exceptions thrown by the implementations"]),
    "C27": P(
        "Ranges and iterators are read within what they promise, and give their elements",
        "Whatever is given to the library as a range, or as iterators (to build monomials out of exponents, or to check if the products of "
        "two ranges of monomials overflow) is used within the promises of its category: nothing outside of it is read, an "
        "iterator which goes over its elements only once is not used after a copy of it was incremented, iterators of different "
        "ranges are not compared. The outcome is that of the plain sequence of the elements, whatever the category, the type of the elements "
        "and the way of returning them (values, references, references into the iterator); elements which cannot be represented are refused with an exception, "
        "exceptions of the iterators are let through. begin() and end() are those which the user supplies for the very "
        "constness and value category of the range, and a type is said to be an iterator or a range of a category if and only if it has all the operations of it.",
        ["inputs", "programs"],
        "All ranges and iterators of all categories, elements of any type convertible to exponents, any number of elements.",
        "The tests of the library use vectors and lists of a few elements, which forgive any use; how iterators are used can only be seen by "
        "iterators which watch it.",
        [H + "ranges.hpp", H + "type_traits.hpp", H + "polynomials/packed_monomial.hpp", H + "polynomials/d_packed_monomial.hpp"],
        [("constructors", H + "polynomials/packed_monomial.hpp, d_packed_monomial.hpp (constructors from iterators and ranges)"),
         ("checks of products", H + "polynomials/packed_monomial.hpp, d_packed_monomial.hpp (monomial_range_overflow_check)"),
         ("begin, end", H + "ranges.hpp (begin_impl, end_impl)"), ("traits", H + "type_traits.hpp (is_input_iterator and so on)")],
        "runtime monitoring: ASan+UBSan, iterators and ranges which record every use of them (reads per element, positions, copies in use), checked against the promises of their category; results against plain vectors",
        "What the compiler accepts is only observed for the types tried." + TRUST,
        ["constructions and checks per category, reads of elements, faults of iterators, traits"]),
}

NOT_APPLICABLE = {}
