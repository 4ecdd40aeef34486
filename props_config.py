"""What each check builds, runs and claims. check.py reads it; tools/gen_manifest.py writes MANIFEST.json from it."""
ASAN = ["-std=c++20", "-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS", "-w"]
FLAVORS = {
    "asan": {"cxx": "g++-14", "flags": ASAN},
    "plain": {"cxx": "g++-14", "flags": ["-std=c++20", "-O2", "-g1", "-D_GLIBCXX_ASSERTIONS", "-w"]},
    "tsan": {"cxx": "g++-14", "flags": ["-std=c++20", "-O1", "-g1", "-fsanitize=thread", "-DMON_NO_ALLOC", "-w"]},
    "memcheck": {"cxx": "g++-14", "flags": ["-std=c++20", "-O0", "-g1", "-DMON_NO_ALLOC", "-w"]},
}
FLAVORS.update({  # C27: one library, many compilations
    "cfg-gcc14-O2": {"cxx": "g++-14", "flags": ["-std=c++20", "-O2", "-w"]},
    "cfg-gcc14-O0-assert": {"cxx": "g++-14", "flags": ["-std=c++20", "-O0", "-D_GLIBCXX_ASSERTIONS", "-ftrivial-auto-var-init=pattern", "-w"]},
    "cfg-gcc14-O3-23-uchar": {"cxx": "g++-14", "flags": ["-std=c++23", "-O3", "-funsigned-char", "-w"]},
    "cfg-gcc14-O1-debug": {"cxx": "g++-14", "flags": ["-std=c++20", "-O1", "-D_GLIBCXX_DEBUG", "-w"]},
    "cfg-gcc14-O2-wrap-init": {"cxx": "g++-14", "flags": ["-std=gnu++26", "-O2", "-fwrapv", "-fno-strict-aliasing", "-ftrivial-auto-var-init=zero", "-w"]},
    "cfg-gcc13-O2-ndebug": {"cxx": "g++-13", "flags": ["-std=c++20", "-O2", "-DNDEBUG", "-w"]},
    "cfg-clang-O2": {"cxx": "clang++", "flags": ["-std=c++20", "-O2", "-Wno-c++11-narrowing", "-w"]},
    "cfg-clang-O0-uchar-23": {"cxx": "clang++", "flags": ["-std=c++23", "-O0", "-funsigned-char", "-D_GLIBCXX_ASSERTIONS", "-Wno-c++11-narrowing", "-w"]},
})
SAN = "AddressSanitizer and UndefinedBehaviorSanitizer"
ORACLE_TRUST = "the oracle (independent code in /verif/harness) and g++-14 with its runtime are trusted"
PROPS = {}
OPS = ["ops_numbers.cpp", "ops_lists.cpp", "ops_others.cpp"]


def P(pid, srcs, technique, rule, assumptions=(), level="exploration", note=None, flavor="asan", runs=None, **kw):
    PROPS[pid] = dict(level=level, runs=runs if runs is not None else [dict(flavor=flavor, src=srcs)], technique=technique, rule=rule,
                      assumptions=[ORACLE_TRUST, *assumptions], note=note, **kw)


P("C01", ["c01_int_arith.cpp"], "runtime monitoring: value oracle (boost cpp_int) on every result, under ASan/UBSan",
  "Operands are drawn with 1 to several hundred digits: uniform, runs of 0/9, powers of ten and neighbours, near-equal pairs, machine-word boundaries, shared objects; every "
  "operation in producing, in-place and aliased form is compared digit for digit with cpp_int and the representation (text, digits(), signs, hash-free ==) is checked. An exhaustive "
  "suite covers all small pairs, another every length up to 400 digits (1600 in thorough), very long operands pass every 16-bit count, and operands agree in a long leading part. Non-trivial: an operation on two operands not both below 10 in absolute value, identified by (operation, operands).")
P("C02", ["c02_int_div.cpp"], "runtime monitoring: truncated-division oracle (boost cpp_int) on every / and %, under ASan/UBSan",
  "Dividends and divisors of independent and related sizes (quotients with runs of 0 and 9, exact multiples and their neighbours, equal lengths, |a|<|b|, aliased), all sign "
  "combinations, all small pairs exhaustively, and every length up to 300 digits (1200 in thorough); quotient, remainder and the identity a==(a/b)*b+a%b are compared with cpp_int; zero divisors must be rejected and leave the "
  "dividend. Non-trivial: nonzero divisor and |a|>=|b|, identified by the operands.")
P("C03", ["c03_int_funcs.cpp"], "runtime monitoring: definitional oracles (boost cpp_int) for each function with a CPU-time hang watchdog, under ASan/UBSan",
  "sqrt at perfect squares and neighbours and random sizes (floor checked by r*r<=n<(r+1)^2), log at powers and neighbours, pow and modular pow over all small cases, random big ones and exponents beyond machine words, "
  "factorial, gcd and lcm over all small pairs, Fibonacci neighbours, multiples and random; domain errors. A call that does not end is reported as hang:<op>. "
  "Non-trivial: arguments beyond a single digit, identified by function and arguments.",
  ["termination is decided by a CPU-time limit per case (confirmed alone with a longer one)"])
P("C04", ["c04_int_primes.cpp"], "runtime monitoring: sieve and Miller-Rabin oracle on is_prime and next_prime",
  "All integers below a bound against a sieve; primes, squares and products of primes, pseudoprimes, prime gaps and neighbours at larger sizes against deterministic Miller-Rabin on 64 bit; "
  "next_prime checked to be prime, greater, and with nothing prime in between. Non-trivial: n > 3, identified by n and function.",
  ["numbers are kept below about 10^9, since trial division is exponential in length"], flavor="plain")
P("C05", ["c05_int_conv.cpp"], "runtime monitoring: grammar oracle for literals, machine-integer round trips, digit census of random(), under ASan/UBSan",
  "C strings: every string up to a length over a small alphabet, valid literals with sign and leading zeros, and mutated ones; machine integers at and around the limits of every width; "
  "print and re-read of every value; random(k) sampled for digit count, sign and canonical form. Non-trivial: an accepted literal or a conversion of a value beyond one digit, identified by text.")
P("C06", ["c06_order.cpp"], "runtime monitoring: order oracle and order axioms over pairs and triples, under ASan/UBSan",
  "Pairs and triples of Int, Fraction, Str, List<int>, Deque<int>, List<Str>, nested lists: equal values computed along different routes, prefixes, neighbours, extreme fractions, bytes above 127; all six operators are "
  "compared with an independent order and checked for consistency and transitivity; sequences of every length with two differences of opposite sign, so that the first one must decide. Non-trivial: both operands non-default, identified by type and operands.")
P("C07", ["c07_hash.cpp"], "runtime monitoring: hash consistency over equal values from different routes and unordered_set models, under ASan/UBSan",
  "The same value is produced along several routes (literals with leading zeros, arithmetic, moves, in-place operations, unreduced fractions, signed zeros), short and very long, in fresh objects and in ones that held longer values, and all hashes of equal values must agree; "
  "unordered_set and unordered_map are driven against an ordered model. Non-trivial: two objects compared equal that were produced along different routes.",
  ["Complex values that are equal only by the tolerance are the recorded known finding, probed explicitly and not elsewhere"])
P("C08", ["c08_fraction.cpp"], "runtime monitoring: exact rational oracle (64/128 bit and cpp_int) with int-fit domain, under ASan/UBSan",
  "Operands small, random, and at the limits of int; every operation whose exact reduced result fits in int is compared with the exact rational, in producing, in-place and aliased form; all small "
  "pairs exhaustively; lowest terms and positive denominator checked on every value. Non-trivial: the result fits and some part exceeds 1, identified by operation and operands.",
  ["results that do not fit in int are outside the claim and are not executed"])
P("C09", ["c09_complex.cpp"], "runtime monitoring: long double/std::complex oracle with error bounds, exact for Gaussian integers, under ASan/UBSan",
  "Gaussian integers exactly; finite operands over many magnitudes (no intermediate overflow) compared within a relative bound, products part by part, powers of bases of every magnitude and just beside the axes; equality and inequality around the tolerance; error cases. "
  "Non-trivial: both operands nonzero, identified by operation and operands.",
  ["moderate magnitude means no intermediate overflow or underflow; bounds are stated in the harness"])
P("C10", ["c10_input.cpp"], "runtime monitoring: grammar oracle for stream extraction (value, characters consumed, target, termination), under ASan/UBSan with hang watchdog",
  "Well-formed literals with surrounding blanks, truncated and mutated ones, every string up to length 4-5 over an alphabet of significant characters, arbitrary bytes, sequences of values to the end of the stream, lines; the same input from sources that hand out a few characters at a time and from streams that throw on failure. "
  "Non-trivial: an extraction attempt identified by type and input.",
  ["for Fraction and Complex, control characters below 0x20 that isspace() does not know; parts that do not fit in int or double, and a bare j are not specified: only termination, memory safety and the untouched target are checked there"])
P("C11", ["c11_list_history.cpp"], "runtime monitoring: sequence model checked after every operation of random and exhaustive small histories, under ASan/UBSan",
  "Histories of 50-600 operations over eight element types (trivial, Str, std::string, Int, nested lists, instrumented elements that move without throwing, only copy, or move throwing), arguments now and then elements or ranges of the list "
  "itself; the whole content, size and every return value are compared with a model vector of keys after each operation, element liveness is checked by canaries and live counts. All histories of 4 operations (5 in thorough) over a 12-letter "
  "alphabet; every size up to 2100 with every position near both ends; sizes beyond 16 bits; ranges of every iterator category, single-pass ones included. Non-trivial: a state with at least one element reached by a distinct history prefix.")
P("C12", ["c12_list_transform.cpp"], "runtime monitoring: definitional oracle for each transformation with element identities and call logs, under ASan/UBSan",
  "Lists of nine element types (equal keys carry distinct identities, so stability and first occurrence are visible), sizes 0-900 in several shapes, rotations by any int including the extremes, repetition, comparators, predicates and actions "
  "whose calls are logged; chains of transformations; all sequences over three values up to length 6; every number of repetitions to 280 and rotations by every amount; 15 shapes of data at every size up to 1200; every size up to 2000 and sizes to 70000. Non-trivial: at least two elements, identified by type and keys.")
P("C13", ["c13_slice.cpp"], "runtime monitoring: Python slice plan oracle, exhaustive over small sizes and extreme ints, under ASan/UBSan",
  "Every start, stop and step within three positions beyond the bounds plus nine extreme ints for sizes 0-7 (0-11 in thorough) on List and Str; random larger ones; every index around the bounds and extremes on List, Deque (at varying block offsets) and Str, "
  "reading, assigning and identity of the reference; every size up to 1600 and sizes to 140000. Non-trivial: an accepted slice or index, identified by size and arguments.")
P("C14", ["c14_deque.cpp"], "runtime monitoring: sequence model checked after every operation of random histories, element canaries, under ASan/UBSan",
  "Histories of 50-250 operations at both ends, up to 3000 elements so that many memory blocks are crossed, self and reversed self extension, rotation by extreme ints, over eight element types; content, ends, size and returns compared after each "
  "operation; queue use wandering through memory; self extension at every size 0-139; ranges of every iterator category; every size up to 2100 and sizes to 140000. Non-trivial: a state with at least one element reached by a distinct history prefix.")
P("C15", ["c15_set.cpp"], "runtime monitoring: set-theoretic model after every operation, all pairs of small sets, under ASan/UBSan",
  "Histories of 40-80 operations over nine element types with own elements and own ranges as arguments; algebra and all six relations against random, super-, sub- and equal sets and aliased; all pairs of subsets of a 5-element universe "
  "(6 in thorough); every size up to 1200 against an almost equal, shifted, nested or separate partner; every size up to 500 against all combinations of six elements at, beyond and between its ends; ranges of every iterator category; sets of 80000. Non-trivial: a non-empty state reached by a distinct history, or a pair of non-empty operands.")
P("C16", ["c16_dict.cpp"], "runtime monitoring: map model checked after every operation of random histories, under ASan/UBSan",
  "Histories of 40-100 operations over ten key/value type pairs with the dict's own keys, values and ranges as arguments and duplicate keys in constructors and extends; content, returns, views and every query compared with a model map; dicts of every size with their own elements as arguments, and compared with dicts that differ in one key or value; ranges of every iterator category. "
  "Non-trivial: a non-empty state reached by a distinct history prefix.")
P("C17", ["c17_tuple.cpp"], "runtime monitoring: element-by-element oracle over arities 0-9 and mixed element types, under ASan/UBSan",
  "Tuples of arity 0-9 over mixed types (also instrumented and nested): get at every position, rest recursively, copies, moves, swaps, equality with each single position changed, with longer, shorter and differently typed tuples, elements whose equality is not that of their representations (signed zeros, NaN, padding, user-defined), constexpr use. "
  "Non-trivial: arity at least 2, identified by types and values.", ["the set of types and arities is fixed at compile time; values are generated"])
P("C18", ["c18_str.cpp"], "runtime monitoring: naive byte-string definitions as oracle, exhaustive over small texts and patterns, under ASan/UBSan",
  "Random texts of seven byte distributions (any byte, two letters, blanks and NUL, non-ASCII, periodic), patterns cut from, mutated from or unrelated to the text; every text up to length 6 over two letters with every pattern up to length 3 and all ranges; "
  "every byte in every role; every length up to 1600 and texts to 140000; aliased arguments; split/join inverses. Non-trivial: an evaluated (text, pattern, replacement) triple.", ["strip with the character value -1 means blanks (the documented default)"])
P("C19", ["c19_str_number.cpp"], "runtime monitoring: grammar and value oracles (cpp_int, correctly rounded strtod), exhaustive over small strings, under ASan/UBSan",
  "Literals in every base with blanks and signs, mutated ones, every byte as a digit in every base, every string up to length 5 over alphabets of significant characters; doubles at the limits, denormals, exact expansions, long zero runs, huge exponents. "
  "Non-trivial: an accepted literal of more than one digit, or an accepted decimal, identified by the string (and base).", ["strtod of glibc rounds correctly", "vertical tab and form feed as blanks are not specified"])
P("C20", ["c20_print.cpp"], "runtime monitoring: generated (value, text) pairs and stream-state snapshots, under ASan/UBSan",
  "Values of 65 types (scalars, flat and nested containers, tuples, with elements of the library and of other types) are generated together with the text they must print; printed into fresh, used, slow and hostile streams (fill, alignment, base, showpos, precision, locale) whose state is snapshot before and after; "
  "format strings of arbitrary bytes with fewer, as many or more placeholders than arguments; every number of digits and characters to 1760 and of elements to 720. Non-trivial: a printed or formatted value, identified by type and text.",
  ["the text is specified for a stream with default number formatting; under other flags and locales only the preservation of the state is claimed", "a placeholder is exactly {}; other text between braces is not specified"])
MEMCHECK = dict(flavor="memcheck", wrapper=["valgrind", "-q", "--error-exitcode=96", "--exit-on-first-error=yes", "--leak-check=no", "--num-callers=20"])
# the workloads of the value properties again, where only what the sanitizers, the watchdog and the exception monitor say counts
OTHER_HARNESSES = [dict(flavor="asan", tag="-" + q, src=PROPS[q]["runs"][0]["src"], scale=s, only_crashes=True, **{"as": q})
                   for q, s in dict(C01=.3, C02=.3, C03=.3, C05=.3, C06=.3, C07=.3, C08=.3, C09=.3, C10=.3, C11=.3, C12=.3, C13=.5, C14=.3, C15=.3, C16=.3, C17=.3, C18=.4, C19=.3, C20=.3).items()]
# and one case in many of them under memcheck
OTHER_MEMCHECK = [dict(MEMCHECK, tag="-" + q, src=PROPS[q]["runs"][0]["src"], args=["--stride", str(s), "--case-limit", "250"], confirm=600, only_crashes=True, **{"as": q})
                  for q, s in dict(C01=200, C02=200, C03=200, C05=200, C06=200, C08=300, C09=200, C10=200, C11=100, C12=100, C13=100, C14=100, C15=100, C16=100, C17=100, C18=100, C19=200, C20=200).items()]
P("C21", None, "runtime monitoring: ASan/UBSan and valgrind memcheck over histories of all operations with hostile arguments, block balance, exception types",
  "About 330 operations of all types (18 value types, containers nested) run in random histories over a world of 50 objects, whose arguments are extreme ints, arbitrary bytes, objects of the world, the object itself and its own elements; "
  "each operation alone with its allocations balanced; large containers and long numbers; linear operations on 700000 elements, characters or matches (stack depth); and the workloads of C01-C03 and C05-C20 at reduced scale, where only the reports of sanitizers, watchdog and exception monitor count. Sanitizers abort on the first undefined behaviour; both the histories and a sample of those workloads also run unoptimized under memcheck for uninitialized values; a CPU-time watchdog reports "
  "hangs, and every error must be a std::exception. Non-trivial: an operation executed in a distinct history prefix.",
  ["results that do not fit in the type (Fraction), null pointers and comparators that are no order are outside the claim", "undefined behaviour that no sanitizer detects is not seen"],
  runs=[dict(flavor="asan", src=["c21_anything.cpp", *OPS]), *OTHER_HARNESSES, dict(MEMCHECK, src=["c21_anything.cpp", *OPS], scale=0.03), *OTHER_MEMCHECK])
P("C22", ["c22_values.cpp", *OPS], "runtime monitoring: snapshots of every object around every operation, twin worlds with aliased and copied arguments, under ASan/UBSan",
  "All operations of the table run in two equal worlds of 50 objects, one with its arguments aliasing objects and elements of the world and the other with deep copies: results and states must agree and no object but the one operated on may change; "
  "every own element and own range as argument; the whole object on both sides; binary operations for every proportion of the two sizes up to 600; ranges of every iterator category; plain variables as arguments of about 80 calls; results kept across later calls; copies (constructed, assigned) and moved-from objects live on through histories, small and large, against untouched and fresh ones. "
  "Non-trivial: an operation executed in a distinct history prefix, or a distinct (operation, object, own element).",
  ["moving an object into itself and containers of recursive element types are outside the claim"])
P("C23", None, "runtime monitoring: precondition oracle against the outcome of every call, snapshots around rejections, twin histories without them, under ASan/UBSan",
  "All operations of the table run in random histories in which the precondition of every call is computed beforehand: broken must give runtime_error and leave all 50 objects unchanged, holding must not be rejected, and a twin world that never sees the "
  "rejected calls must stay equal; every boundary argument (all indices, ranges, steps, counts around 0 and the size, extreme ints) of small containers and strings, and of larger ones at sizes up to thousands; domains of all number functions and of literals, also as read from a stream. "
  "Non-trivial: a rejection in a distinct history prefix or with distinct (operation, object, arguments).",
  ["capacity limits are checked with List<bool> and Deque<char> of about INT_MAX elements; node containers cannot reach theirs in memory"],
  runs=[dict(flavor="asan", src=["c23_rejections.cpp", *OPS]), dict(flavor="plain", tag="-deque", src=["c23_capacity_deque.cpp"], shards=1), dict(flavor="plain", tag="-list", src=["c23_capacity_list.cpp"], shards=3, optional=True)])
P("C24", ["c24_list.cpp", "c24_deque.cpp", "c24_set.cpp", "c24_dict.cpp", "c24_numbers.cpp", "c24_histories.cpp"], "runtime monitoring: fault injection at every element operation and every allocation, with live-element, block and content monitors, under ASan/UBSan",
  "About 130 operations of List, Deque, Set, Dict, Tuple, Int and Str, each repeated with its 1st, 2nd, ... element operation (copy, assignment, comparison, default construction, throwing move, callback, print) or allocation failing until it runs through; "
  "after every failure the object must be consistent and sorted, copyable, comparable, printable and assignable, unchanged where promised, and after destruction live elements and blocks must balance; histories of 120 operations with random failures; a sample of the failing positions in containers, strings and numbers of hundreds of elements. "
  "Three instrumented element types (no-throw move, copy only, throwing move) and Str, Int, std::string. Non-trivial: a failure injected at a distinct (operation, object, position).",
  ["out of memory inside a stream (which the stream swallows by its own rules) is not injected", "after a failure inside sort, rotate and the like elements may have been moved away: valid but without their value"])
P("C25", None, "runtime monitoring: ThreadSanitizer, and answers of concurrent calls against the same calls alone, on shared and separate objects",
  "3-8 threads start together and run the const operations of the table (all of them in turn) on one shared world in different orders; threads copy a shared world at the same time and run any operations on their copies; one const operation by 8 threads at once. "
  "ThreadSanitizer reports any unordered conflicting access whatever the schedule; answers and final states are compared with a sequential run made afterwards. A second build without sanitizer repeats it faster. "
  "Non-trivial: a distinct interleaving of the calls, as recorded by a relaxed counter.",
  ["ThreadSanitizer sees accesses of instrumented code only, not those inside libstdc++.so"],
  runs=[dict(flavor="tsan", src=["c25_threads.cpp", *OPS], shards=4), dict(flavor="plain", src=["c25_threads.cpp", *OPS], shards=4, scale=2)])
P("C26", ["c26_cost.cpp"], "runtime monitoring: counting element type charged against a cost bound per operation at sizes over four orders of magnitude",
  "Each operation of List, Deque, Set, Dict and Tuple runs on elements that count comparisons, copies and moves, at sizes from 1 to 8192 (131072 in thorough), in ascending, descending and random orders and after other operations; each count is compared "
  "with the bound of the operation (constant, logarithmic, linear, n log^2 n) with a constant factor of room. Non-trivial: a distinct (operation, size, counts).",
  ["constants up to the stated factors are not judged"])
P("C27", None, "runtime monitoring: transcripts of the same operation histories in eight compilations, compared answer by answer",
  "Histories over the operation table, every byte value in every role of string, literal and stream functions, numbers of all sizes, and long sequences with callbacks run in eight builds (g++-14, g++-13, clang++; C++20, 23, 26; -O0 to -O3; "
  "with library assertions, debug containers, NDEBUG, unsigned plain char, wrapping arithmetic, patterned and zeroed automatic variables, perturbed heap); every answer, rejection text and final state is compared with the reference build. "
  "Non-trivial: a call with a distinct history prefix or a distinct answer.",
  ["only configurations of the installed compilers on x86-64", "a defect that shows alike in every build is left to the other properties"], runs=[], custom="transcripts")
P("C28", ["c28_iter.cpp"], "runtime monitoring: traversal logs of every kind of iteration against the model content, under ASan/UBSan",
  "Containers of several element types and sizes (every size to 1499, also spanning many deque blocks, and edited in between) are traversed forwards, backwards, by decrement, by range-for and by algorithms; the sequence of visited keys is compared with the model; ranges rebuild every "
  "container type. Non-trivial: at least two elements, identified by type and content.")
