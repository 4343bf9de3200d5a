"""The properties claimed, and the monitors which decide each of them."""

PROPS = {
    "C01": {
        "level": "exploration",
        "rule": "Random histories of ring operations over a pool of 4 polynomials.",
        "runs": [
            {"scale": 12, "bin": "c01", "flavor": "asan", "srcs": ["c01_a.cpp", "c01_b.cpp", "c01_c.cpp", "c01_d.cpp"], "shards": 8},
        ],
        "require": {"operations": 1000, "operations merging symbols": 200, "full cancellations": 50},
    },
    "C02": {
        "level": "exploration",
        "rule": "Pairs of large polynomials of eight shapes; a case is a product which takes the multithreaded path.",
        "runs": [
            {"bin": "c02", "flavor": "asan", "srcs": ["c02_a.cpp", "c02_b.cpp", "c02_c.cpp", "c02_d.cpp"], "shards": 6},
        ],
        "require": {"large products": 50, "segmented products": 1, "large products, strided": 3, "heavy products": 10,
                    "products with more parts than terms": 3},
    },
    "C03": {
        "level": "exploration",
        "rule": "Pairs of polynomials and a truncation limit picked among the degrees of their product; a case is a "
                "truncated product.",
        "runs": [
            {"scale": 2, "bin": "c03", "flavor": "asan", "srcs": ["c03_a.cpp", "c03_b.cpp", "c03_c.cpp", "c03_d.cpp", "c03_e.cpp", "c03_f.cpp"], "shards": 6},
        ],
        "require": {"heavy truncated products": 20, "truncated products with more parts than terms": 3, "large truncated products": 30, "small truncated products": 1000, "large, something left": 10,
                    "extreme truncated products, exact": 20, "extreme truncated products, overflow reported": 20},
    },
    "C04": {
        "level": "exploration",
        "rule": "Polynomials with exponents around the limits (whole and half) of their types; a case is an operation "
                "whose result is compared to exact arithmetic.",
        "runs": [
            {"bin": "c04", "flavor": "asanshim", "srcs": ["c04_%s.cpp" % x for x in "abcdefg"], "shards": 8,
             "env": {"VF_TBB_THREADS": "1"}},
        ],
        "require": {"results exact": 1000, "overflows reported": 500, "constructions rejected": 100,
                    "large products exact": 20, "overflows of large products reported": 20},
    },
    "C05": {
        "level": "exploration",
        "rule": "Vectors of components biased to the limits and codes next to carries, all types and sizes; in the "
                "thorough tier all the codes of the 32 bit types are decoded and encoded again.",
        "runs": [
            {"scale": 4, "bin": "c05", "flavor": "asan", "srcs": ["c05_a.cpp"], "shards": 8},
        ],
        "require": {"codes next to carries": 10000, "round trips of components": 10000, "round trips of codes": 10000, "sums": 1000, "misuses": 100},
    },
    "C06": {
        "level": "exploration",
        "rule": "Pairs of monomials of nine representations, in up to 24 symbols, exponents biased to the limits; "
                "every operation on them is compared to plain exponent vectors.",
        "runs": [
            {"scale": 2, "bin": "c06", "flavor": "asanshim", "srcs": ["c06_%s.cpp" % x for x in "abcd"], "shards": 8,
             "env": {"VF_TBB_THREADS": "1"}},
        ],
        "require": {"pairs of monomials": 5000, "products of monomials": 500, "powers of monomials": 500,
                    "merged monomials": 200, "ranges with overflow": 100, "ranges without overflow": 100, "large ranges": 30},
    },
    "C07": {
        "level": "exploration",
        "rule": "Random polynomials (recursive ones too) and symbols, present or not; a case is a polynomial, a symbol.",
        "runs": [
            {"scale": 3, "bin": "c07", "flavor": "asan0", "srcs": ["c07_%s.cpp" % x for x in "abcd"], "shards": 8},
        ],
        "require": {"derivatives": 1000, "antiderivatives": 500, "logarithms refused": 50,
                    "dependent coefficients refused": 50, "antiderivatives with respect to a new symbol": 50},
    },
    "C08": {
        "level": "exploration",
        "rule": "Random polynomials (recursive ones too), values and polynomials substituted for some or all of their "
                "symbols; a case is a polynomial and a map.",
        "runs": [
            {"scale": 2, "bin": "c08", "flavor": "asan0", "srcs": ["c08_%s.cpp" % x for x in "abcdef"], "shards": 8},
        ],
        "require": {"evaluations": 1000, "substitutions of values": 1000, "substitutions of polynomials": 300,
                    "missing symbols refused": 100},
    },
    "C09": {
        "level": "exploration",
        "rule": "Pairs of series over overlapping sets of arbitrary names, some of the symbols not in use; a case is a "
                "pair.",
        "runs": [
            {"scale": 2, "bin": "c09", "flavor": "asan0", "srcs": ["c09_%s.cpp" % x for x in "abcd"], "shards": 8},
        ],
        "require": {"pairs with symbols of their own": 500, "extensions": 500, "useless symbols removed": 300,
                    "generators": 20, "generators refused": 20},
    },
    "C10": {
        "level": "exploration",
        "rule": "Histories of 40 operations over 3 containers of terms, with monomials and with keys with constant and "
                "degenerate hashes; a case is a history.",
        "runs": [
            {"scale": 3, "bin": "c10", "flavor": "asan0", "srcs": ["c10_%s.cpp" % x for x in "abc"], "shards": 8},
        ],
        "require": {"insertions": 10000, "terms which vanish": 1000, "zero keys": 100, "incompatible keys refused": 100,
                    "filterings": 500, "copies and moves": 500, "terms found": 500, "comparisons": 200},
    },
    "C11": {
        "level": "exploration",
        "rule": "Pairs of series whose coefficients (integral, rational, floating-point, modular, polynomial) differ in "
                "type or rank; a case is a conversion, or all the operations on a pair.",
        "runs": [
            {"scale": 4, "bin": "c11", "flavor": "asan0", "srcs": ["c11_%s.cpp" % x for x in "abcdefg"], "shards": 8},
        ],
        "require": {"conversions of series": 1000, "conversions refused": 50, "terms which vanish in a conversion": 100,
                    "conversions of scalars": 500, "conversions to scalars": 50, "mixed operations": 3000,
                    "mixed operations in place": 1000, "equal operands": 50, "different operands": 200,
                    "mixed operations with scalars": 1000, "operations with own coefficients": 300, "tagged series": 100},
    },
    "C12": {
        "level": "exploration",
        "rule": "Operations on small series whose coefficients (or whose allocations) fail at every point in turn, and on "
                "large ones which fail at random points in any thread; a case is an operation with its operands.",
        "runs": [
            {"bin": "c12", "flavor": "asan0", "srcs": ["c12_%s.cpp" % x for x in "abcd"], "shards": 8},
        ],
        "require": {"failures of coefficients": 5000, "failures of allocations": 2000, "second attempts": 1000,
                    "operations failed in all their points": 200, "large products subject to failures": 10},
    },
    "C13": {
        "level": "exploration",
        "rule": "Series of all kinds (and symbol sets, monomials) saved into text and binary archives, alone or in "
                "containers, and loaded into new or used objects; archives cut, or failing, at any point; a case is an "
                "archive.",
        "runs": [
            {"scale": 6, "bin": "c13", "flavor": "asan0", "srcs": ["c13_%s.cpp" % x for x in "abcd"], "shards": 8},
        ],
        "require": {"objects saved and loaded": 2000, "series of several segments": 1000, "terms": 5000,
                    "incomplete archives refused": 2000, "second attempts": 300, "failures to save": 300,
                    "monomials": 1000, "series with strange symbols": 300},
    },
    "C14": {
        "level": "exploration",
        "rule": "Histories of 24 operations over four power series whose truncations come from a few ones, equal and "
                "different; a case is a history, a family of generators or a product of many terms.",
        "runs": [
            {"scale": 3, "bin": "c14", "flavor": "asan0", "srcs": ["c14_%s.cpp" % x for x in "abcde"], "shards": 8},
        ],
        "require": {"results truncated": 500, "conflicting truncations refused": 500, "operations with equal truncations": 500,
                    "operations with and without truncation": 500, "operations with scalars": 500, "powers": 300,
                    "substitutions": 200, "derivatives": 100, "integrals truncated": 12, "conversions": 100,
                    "mixed operations": 50, "comparisons": 100, "large products truncated": 10, "generators": 100},
    },
    "C15": {
        "level": "exploration",
        "rule": "Powers, in any order, of families of bases which look alike (the same keys, other coefficients, symbols, "
                "segments, truncations), by one or several threads, of large bases in tasks, some of them cancelled; a "
                "case is a history.",
        "runs": [
            {"bin": "c15", "flavor": "asan0", "srcs": ["c15_%s.cpp" % x for x in "abcd"], "shards": 8},
        ],
        "require": {"powers": 5000, "powers by multiplication": 2000, "powers in threads": 2000, "exponents refused": 500,
                    "negative powers": 5, "large powers in tasks": 100, "groups of tasks cancelled": 40,
                    "powers which overflow": 100, "caches cleared": 10},
    },
    "C16": {
        "level": "exploration",
        "rule": "Two to four threads, each with its own list of operations over three series in common; a case is the "
                "operands, the lists and a schedule.",
        "runs": [
            {"scale": 1.5, "bin": "c16", "flavor": "tsan0", "srcs": ["c16_%s.cpp" % x for x in "abcd"], "shards": 8},
        ],
        "require": {"operations in threads": 5000, "operations which throw in threads": 100},
    },
    "C17": {
        "level": "exploration",
        "rule": "Products (plain, truncated, squares, failing, simultaneous) by the parallel algorithms, over random "
                "partitions and schedules of their tasks; a case is a pair of operands with a schedule.",
        "runs": [
            {"bin": "c17", "flavor": "tsan", "srcs": ["c17_%s.cpp" % x for x in "abc"], "shards": 8},
            # Without the debug counters (which synchronise the tasks), as if on another machine.
            {"bin": "c17", "flavor": "tsanrel", "srcs": ["c17_%s.cpp" % x for x in "abc"], "shards": 8, "hc": 17},
        ],
        "require": {"products": 20, "squares": 5, "truncated products": 20, "segmented products": 5,
                    "products which failed in a thread": 20, "simultaneous products": 30, "parallel tasks": 2000},
    },
    "C18": {
        "level": "exploration",
        "rule": "Random series (recursive ones, exponents around the limits), limits of several types and sets of "
                "symbols; a case is a series, with all its degrees, filters and truncations.",
        "runs": [
            {"scale": 2, "bin": "c18", "flavor": "asan0", "srcs": ["c18_%s.cpp" % x for x in "abcde"], "shards": 8},
        ],
        "require": {"degrees": 5000, "negative degrees": 100, "degrees of nothing": 100, "degrees which overflow": 50,
                    "truncations": 5000, "truncations which keep a part": 1000, "filters which keep a part": 1000},
    },
    "C19": {
        "level": "exploration",
        "rule": "Random series (recursive ones, power series, exponents at the limits, more terms than are printed); a "
                "case is a series, whose plain and TeX forms are parsed back.",
        "runs": [
            {"scale": 8, "bin": "c19", "flavor": "asan0", "srcs": ["c19_%s.cpp" % x for x in "abcde"], "shards": 8},
        ],
        "require": {"series parsed back": 5000, "abridged series parsed back": 100, "recursive series": 1000,
                    "truncations printed": 300, "names with signs": 1000},
    },
    "C20": {
        "level": "exploration",
        "rule": "All numbers of 8 and 16 bits and numbers next to all limits and powers of two, of 14 types, converted to "
                "all the others; pairs of them added and subtracted (all pairs of 8 bits); a case is a batch of numbers.",
        "runs": [
            {"bin": "c20", "flavor": "asan0", "srcs": ["c20_%s.cpp" % x for x in "abc"], "shards": 8},
        ],
        "require": {"conversions": 50000, "conversions refused": 50000, "sums and differences": 10000,
                    "overflows reported": 2000, "numbers of 16 bits": 131072, "numbers of 8 bits with all the others": 768},
    },
    "C21": {
        "level": "exploration",
        "rule": "Random arrays of flags, threads with random delays using plain data under random locks of an array, objects "
                "passed between threads, types used by several threads at once for the first time; a case is a set of threads.",
        "runs": [
            {"scale": 5, "bin": "c21", "flavor": "asan0", "srcs": ["c21_lock.cpp"], "shards": 4},
            {"scale": 5, "bin": "c21", "flavor": "tsan0", "srcs": ["c21_lock.cpp"], "shards": 4},
        ],
        "require": {"flags": 50000, "locked sections": 20000, "locks passed between threads": 500,
                    "objects passed between threads": 3000, "numbers of cores": 1000, "objects created by threads": 400},
    },
    "C22": {
        "level": "exploration",
        "rule": "Random messages of 5 forms thrown at random depths with stack traces on and off, stack traces of both "
                "implementations at random depths with all numbers of skipped frames, failures in threads; a case is a set of them.",
        "runs": [
            {"scale": 2, "bin": "c22", "flavor": "asan0", "srcs": ["c22_err.cpp", "c22_bt.cpp"], "shards": 4},
            {"scale": 2, "bin": "c22", "flavor": "tsan0", "srcs": ["c22_err.cpp", "c22_bt.cpp"], "shards": 2},
        ],
        "require": {"call sites": 60, "throw sites": 600, "exceptions with stack traces": 1000,
                    "exceptions without stack traces": 1000, "failures in threads": 1500, "partial stack traces": 3000},
    },
    "C23": {
        "level": "exploration",
        "rule": "Pairs of polynomials with coefficients which count what is done to them; a case is a set of about 40 "
                "operations on a pair, or the measurement of a series.",
        "runs": [
            {"scale": 6, "bin": "c23", "flavor": "asan0", "srcs": ["c23_%s.cpp" % x for x in "abcde"], "shards": 8},
        ],
        "require": {"moves": 500, "sums": 5000, "products": 2000, "products of large operands": 100,
                    "something truncated": 300, "everything truncated": 30, "products of power series": 300,
                    "series of several tables measured": 200, "series of one table measured": 100, "powers": 50},
    },
    "C24": {
        "level": "exploration",
        "rule": "Polynomials and power series over monomials of our own, which watch how they are used; a case is what it "
                "is for the properties whose workloads are run.",
        "runs": [
            {"bin": "c24", "flavor": "asan0", "srcs": ["c24_%s.cpp" % x for x in "abcdefghi"], "shards": 8},
        ],
        "require": {"keys: multiplications": 1000000, "keys: merges": 30000, "keys: overflow tests": 500, "keys: sizes": 10000,
                    "keys: substitutions": 500, "keys: evaluations": 3000, "keys: derivatives": 3000, "keys: antiderivatives": 500,
                    "keys: removals of unused symbols": 1000, "keys: partial degrees": 20000, "products beyond the limits": 40,
                    "products within the limits": 500, "degrees of our own types": 100, "fractional degrees": 200, "degrees of mixed types": 40, "large products": 10,
                    "large truncated products": 8},
    },
    "C25": {
        "level": "exploration",
        "rule": "Histories of operations on series shared by an executable and three libraries loaded by it; whole programs with "
                "series in global, static and thread-local objects and in exit handlers. A case is a history or a program.",
        "runs": [
            {"scale": 3, "bin": "c25", "flavor": "asanshimso", "srcs": ["c25_main.cpp", "c25_part.cpp"], "parts": ["c25_part.cpp"], "shards": 8},
            # Everything in the executable.
            {"bin": "c25s", "flavor": "asanshimso", "srcs": ["c25_main.cpp", "c25_part.cpp"], "shards": 4},
        ],
        "require": {"archives between parts": 1000, "failures between parts": 100, "handlers of quick exits": 15, "objects and handlers at the end": 2000,
                    "objects of threads": 300, "operations between parts": 5000, "operations of any kind": 5000,
                    "operations of the parts in threads": 5000, "powers in two parts": 2000, "exits of threads": 40, "quick exits": 40,
                    "same sets of symbols": 100000, "different sets of symbols": 100000},
    },
    "C26": {
        "level": "exploration",
        "rule": "Calls of all the customisation points with objects whose types supply some of the implementations, which record how "
                "they are called, and operations of polynomials with coefficients and keys of a user, against the model; a case is a set of "
                "calls of some points for all the types and value categories, or a pair of polynomials.",
        "runs": [
            {"bin": "c26", "flavor": "asan0", "srcs": ["c26_%s.cpp" % x for x in "abcdef"], "shards": 8},
        ],
        "require": {"calls of explicit overrides": 100000, "calls of functions found by their arguments": 100000,
                    "calls of internal overrides": 20000, "calls of defaults": 5000, "exceptions of the implementations": 50000,
                    "operations": 5000, "functions of coefficients: negate": 500,
                    "functions of coefficients: subs": 500, "operations with keys of a user": 5000, "large products": 100, "small products": 500,
                    "products in more than 256 parts": 30, "products in parts": 30,
                    "products refused by the user": 200, "functions of keys: monomial_subs": 500},
    },
    "C27": {
        "level": "exploration",
        "rule": "Monomials built out of up to 26 elements given by iterators and ranges of every category, and checks of the products of "
                "two ranges of up to 6500 monomials; a case is a set of elements, given in about 50 ways by iterators which watch how they are used.",
        "runs": [
            {"scale": 2, "bin": "c27", "flavor": "asan0", "srcs": ["c27_%s.cpp" % x for x in "abcdefg"], "shards": 8},
        ],
        "require": {"single-pass constructions": 20000, "multi-pass constructions": 50000, "constructions": 50000,
                    "constructions refused": 5000, "constructions interrupted": 3000, "arrays": 100, "checks of ranges": 10000,
                    "checks of long ranges": 200, "checks interrupted": 500, "products which fit": 3000,
                    "products which do not fit": 1000, "traits": 100, "pairs of begin and end": 2000},
    },
}
