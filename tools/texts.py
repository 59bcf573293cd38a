prop("U01", "Allocator accounting matches the live allocations at every moment",
     "An allocator reports as in use what its live allocations were charged, each charge covering the bytes requested with a small bounded overhead and being given back in full at release, and it never reports fewer bytes reserved than in use; the global current-memory figure covers what all live allocators reserve, and the maximum is the largest value the current figure has had. Memory handed out is aligned to 16 bytes, never overlaps another live block, and keeps its contents until it is released. Releasing everything brings the in-use figure to zero, and swapping two allocators exchanges their blocks together with their figures.",
     ["histories", "configurations"], "every history of allocations of any size and type, releases in any order, and swaps between allocators, with and without the arena build switch",
     "The two tests allocate a handful of fixed blocks in one order; the figures depend on the whole history of sizes, releases and swaps.",
     ["util/allocator.h", "util/allocator.cpp"], [("Allocator::allocate/dealocate", "util/allocator.h"), ("Allocator::destroy, swap, static counters", "util/allocator.h, util/allocator.cpp")],
     state=[("mSize, mAlloc", "bytes in use and reserved", "util/allocator.h")], observe=["Allocator::size", "Allocator::alloc", "Allocator::currMemory", "Allocator::maxMemory"],
     technique="shadow accounting of every allocation history, overlap/poison checks, AddressSanitizer in two allocator configurations",
     note=SAN + TRUST + "Sizes up to a few MB per history.")
prop("U02", "Exceeding the memory limit stops the program with a message",
     "With a memory limit set, the first request that takes the total reserved memory above the limit ends the process with the message that the limit is exceeded; requests that stay within the limit always succeed. Nothing is written outside the memory that was granted before the process ends.",
     ["histories", "fault_sequences"], "every limit and every allocation history that crosses it or stays below it",
     "No test sets a limit, and ending the process cannot be observed from inside one.",
     ["util/allocator.h", "util/allocator.cpp"], [("Allocator::setLimitMemory, limit test on growth", "util/allocator.h, util/allocator.cpp")],
     observe=["exit of the process", "standard error"], technique="forked processes with injected memory limits, observed exit point compared with a shadow account",
     note=SAN + TRUST + "The exact exit status is not prescribed, only that the process ends with the message.")
prop("U03", "A list behaves as the sequence its operations describe",
     "After any history of pushes, pops, insertions and deletions through iterators, traversals, swaps, moves and copies, a list holds exactly the sequence the same operations give on a plain sequence, its length is that of the sequence, and iterators not passed by a deletion stay valid. Emptying or destroying it returns all memory to its allocator.",
     ["histories"], "every history of list operations, over several element types and two allocators",
     "The unit tests run two short scripted histories on one element type.",
     ["util/list.h"], [("List::push/pop/pushBegin, Iterator::insert/del/next, swap, copy", "util/list.h")],
     observe=["iteration", "length", "allocator figures"], technique="model-based monitoring against std::vector, AddressSanitizer, heap-growth monitor",
     note=SAN + TRUST)
prop("U04", "A search tree stays an ordered balanced map under every history",
     "After any history of insertions, removals, lookups, swaps, copies, assignments and moves, the tree contains exactly the keys and values a sorted map would, iterates them in increasing order in both directions, and every lookup answers as the sorted map does. It is always a valid red-black tree, so its height stays within twice the logarithm of the number of entries.",
     ["histories"], "every history of tree operations on every key sequence, in two allocator configurations",
     "The tests insert and delete a few fixed key ranges; rebalancing cases depend on the exact history.",
     ["util/rbtree.h"], [("RBTree::insert, insertFixup, remove, removeFixup, rotations, iterators", "util/rbtree.h")],
     state=[("colour of every node", "no red node has a red child; equal black count on all paths", "util/rbtree.h")],
     observe=["iteration", "find/maximum/minimum/successor", "assertValid"], technique="model-based monitoring against std::map with structural invariants checked after every step, AddressSanitizer",
     note=SAN + TRUST)
prop("U05", "A stack behaves as last-in first-out storage of any depth",
     "After any history of pushes, pops, swaps and index accesses the stack holds exactly the elements and order of a plain last-in first-out sequence, however often its storage has to grow.",
     ["histories"], "every history of stack operations over several element types",
     "The tests use two scripted histories that cross one growth step.",
     ["util/stack.h"], [("Stack::push/pop/swap and storage growth", "util/stack.h")], observe=["indexing", "depth"],
     technique="model-based monitoring against std::vector, AddressSanitizer, heap-growth monitor", note=SAN + TRUST)
prop("U06", "Integer arithmetic is exact for operands of every size and sign",
     "Every operation on integers (copy and move assignment, swap, negation, addition, subtraction, multiplication, divisibility, exact division, greatest common divisor, tests for zero and one, sign and size in words) gives the mathematically exact result for operands of any size and sign, including aliased operands. No operation changes any operand other than its result or leaks memory.",
     ["histories", "inputs", "configurations"], "every history of operations on integers of any bit length, with limb memory from the arena or from the default allocator",
     "One unit test covers a few small values; carries, limb boundaries and reallocation are decided by the operand sizes and the history.",
     ["util/integer.h", "util/integer.cpp"], [("Integer operators over GMP limbs in arena memory", "util/integer.h, util/integer.cpp")], observe=["every result, converted to GMP"],
     technique="differential monitoring of operation histories against GMP (gmpxx), sanitizers in three memory configurations", note=SAN + TRUST)
prop("U07", "Integers survive printing and parsing in every base",
     "Printing an integer and reading the text back gives the same integer in every supported base, and the text is the standard representation, however long the number is.",
     ["inputs"], "every integer, every base from 2 to 62 and every form of literal",
     "The tests print a few short numbers in base 10.",
     ["util/integer.h", "util/integer.cpp"], [("Integer::get_str, set_str, stream operator", "util/integer.h, util/integer.cpp")], observe=["text"],
     technique="round-trip and differential monitors against GMP text conversion, AddressSanitizer", note=SAN + TRUST)
prop("U08", "Random permutations are permutations, unbiased and reproducible",
     "Every state of a random permutation is a bijection of its index set, it begins as the identity, equal generator states give equal permutations, and over many draws each arrangement of a small set occurs equally often. Applying a permutation to a monomial rearranges its exponents by it and keeps degree and module position.",
     ["inputs", "histories"], "every size, every generator state and every number of draws",
     "The tests print a few draws without judging them.",
     ["util/randpermutation.h", "util/randpermutation.cpp", "ginv/monom.h"], [("RandPermutation::next (Fisher-Yates)", "util/randpermutation.h"), ("Monom::permutation", "ginv/monom.cpp")], observe=["operator[]"],
     technique="online bijection monitor, chi-square uniformity oracle (of the arrangements and of the step between them) with negligible false-alarm rate", note=SAN + TRUST + "Uniformity is judged for sizes up to 5 by chi-square with a fixed seed per case.")
prop("U09", "Hilbert polynomial arithmetic is exact rational arithmetic",
     "A Hilbert polynomial assembled from constants, binomials, sums, differences and multiples has exactly the rational coefficients of the mathematical polynomial, reports its true degree, and prints each coefficient exactly.",
     ["histories", "inputs"], "every sequence of binomial, addition, subtraction and multiplication steps with parameters in range",
     "Three unit tests print fixed polynomials without comparing them.",
     ["util/hilbertpoly.h", "util/hilbertpoly.cpp"], [("HilbertPoly::binomial/add/sub/mult/setZero", "util/hilbertpoly.cpp")], observe=["coefficients", "dim", "text"],
     technique="differential monitoring against exact rational polynomials, sanitizers, heap-growth monitor", note=SAN + TRUST)
prop("U10", "Memory compaction never changes the data it moves",
     "Compacting the memory of a list or a polynomial at any moment leaves its value, order and length as they were and leaves every other object unchanged; afterwards the data reserves no more memory than before, the bytes in use are unchanged, and every later operation gives the same result as without compaction.",
     ["histories", "schedules"], "every history of operations and every placement of compactions in it",
     "No test compares a run with compaction against one without.",
     ["util/allocator.h", "util/list.h", "ginv/poly_int.h", "ginv/poly_int.cpp", "ginv/gb.h"], [("GC<T>::swap / reallocate", "util/allocator.h"), ("GCListWrapPolyInt", "ginv/poly_int.h")],
     observe=["value of the object before and after", "allocator figures"], technique="differential monitoring of the same history with and without injected compactions, AddressSanitizer", note=SAN + TRUST)
prop("U11", "Timers accumulate exactly the measured intervals",
     "A timer reports the user, system and wall-clock time spent between starting and stopping, to the resolution of the system clock; continuing adds to the total and starting again resets it. Readings are never negative and do not change while the timer is stopped.",
     ["histories", "schedules"], "every history of start, stop and continue",
     "No test reads a timer's figures.",
     ["util/timer.h", "util/timer.cpp"], [("Timer::start/cont/stop", "util/timer.h, util/timer.cpp")], observe=["userTime, sysTime, realTime"],
     technique="interval monitor bracketing every timer call with direct clock readings", note="Each figure is bracketed, in ticks, by readings of the same clock around every call (no tolerance), and by an independent clock with a tolerance for its granularity; load on the machine can only widen the bracket, not break it. " + TRUST)
prop("M01", "Monomial arithmetic is exact on exponent vectors and module positions",
     "Products, powers, exact quotients, divisibility, lcm and gcd degrees, coprimality and equality of monomials are those of their exponent vectors together with the module position, and the stored degree is always the sum of the exponents. Bookkeeping attached to a monomial (its ancestor, multiplicativity and prolongation marks) always refers to the current leading monomial.",
     ["histories", "inputs"], "every history of monomial operations in any number of variables, with and without module positions",
     "Tests touch monomials only through a few fixed polynomial systems.",
     ["ginv/monom.h", "ginv/monom.cpp", "ginv/wrap.h", "ginv/wrap.cpp"], [("Monom constructors and operations", "ginv/monom.h, ginv/monom.cpp"), ("Wrap::update, ansector, NM, build", "ginv/wrap.h")],
     observe=["exponents, degree, position", "divisiable/gcd/lcm/isPommaretDivisor"], technique="model-based monitoring against exponent vectors, sanitizers in two allocator configurations", note=SAN + TRUST)
prop("M02", "Every monomial order is an admissible total order",
     "Lexicographic and degree-reverse-lexicographic comparison, with either module convention, is a total order that is compatible with multiplication and has the unit as least element in its component, and the third order compares by lower degree first and then lexicographically; each agrees with its textbook definition. Comparison is antisymmetric, transitive and equals zero exactly for equal monomials.",
     ["inputs"], "all pairs and triples of monomials of equal number of variables in every order and module convention",
     "No test compares monomials directly.",
     ["ginv/monom.h", "ginv/monom.cpp", "ginv/poly_int.h", "ginv/poly_int.cpp"], [("Monom::lex/deglex/alex", "ginv/monom.cpp"), ("PolyInt::cmp TOP/POT", "ginv/poly_int.cpp")],
     observe=["comparison results", "order of terms in a polynomial"], technique="order-axiom monitors and comparison with textbook definitions on generated pairs and triples", note=SAN + TRUST)
prop("M03", "Boolean monomials are sets of variables",
     "Products, quotients, divisibility, degree, comparison and membership of boolean monomials are union, difference, inclusion, size, order and membership of the sets of variables they stand for.",
     ["histories", "inputs"], "every history of boolean monomial operations in any number of variables, including across machine-word boundaries",
     "No test uses boolean monomials.",
     ["ginv/bmonom.h"], [("BMonom operations", "ginv/bmonom.h")], observe=["membership of every variable", "degree", "comparison"],
     technique="model-based monitoring against std::set, sanitizers", note=SAN + TRUST)
prop("J01", "Janet trees find the unique Janet divisor and non-multiplicative variables",
     "After any history of insertions of monomials that have no Janet divisor yet, a lookup returns the Janet divisor of a monomial among the stored ones when there is one and nothing otherwise, and the multiplicative and non-multiplicative variables of each stored monomial are those of the definition of Janet division. Copies and swaps keep the contents, and the Hilbert polynomial of the tree counts the monomials outside its Janet cones.",
     ["histories", "inputs"], "every set of monomials and every order of insertion",
     "Unit tests build three fixed systems and look only at the program not failing.",
     ["ginv/janet.h", "ginv/janet.cpp"], [("Janet::find/insert/del/setNM/build", "ginv/janet.h, ginv/janet.cpp")], observe=["find", "NM marks", "iteration", "buildHP"],
     technique="online monitors against brute force over the definition of Janet division after every tree operation, AddressSanitizer", note=SAN + TRUST)
prop("J02", "Monomial completion yields a complete set for the same monomial ideal",
     "Completing a set of monomials ends with a set that contains the input, lies in the monomial ideal it generates, and is complete: every product of an element with one of its non-multiplicative variables has an involutive divisor in the set, so that a monomial has one exactly when it lies in the ideal. Under every selection strategy the elements are sorted by it, distinct, and incomparable elements claim disjoint cones; for Janet division the non-multiplicative variables are those of the definition, also after extending and completing again.",
     ["inputs", "configurations"], "every finite set of monomials, every input order and every selection strategy",
     "No unit test looks at completions.",
     ["ginv/mcompletion.h", "ginv/mcompletion.cpp", "ginv/janet.h"], [("MCompletion::push/build", "ginv/mcompletion.cpp"), ("MJanet", "ginv/mcompletion.h")], observe=["the completed set", "find"],
     technique="result monitor checking every completion by brute force over the definition of Janet division", note=SAN + TRUST)
prop("J03", "The forest of Janet trees partitions the monomials among its elements",
     "After any history of insertions by increasing degree, the forest of Janet trees finds for every monomial the element of lowest degree that claims it and nothing when no element does, where an element claims the multiples by variables that are neither non-multiplicative in its tree nor marked by elements of other degrees. The marks are those of this definition after each insertion, every element finds itself, claims never overlap, and the reported size is the number of elements.",
     ["histories"], "every history of insertions with degrees inside and beyond the initial capacity",
     "Only whole runs on three systems reach this code in tests.",
     ["ginv/gb.h", "ginv/gb.cpp", "ginv/janet.h", "ginv/janet.cpp"], [("GB::insert, GB::find", "ginv/gb.cpp"), ("Janet::setMNprec, setMNsucc", "ginv/janet.cpp")], observe=["find", "marks of every element", "size"],
     technique="online monitors against brute force after every step, AddressSanitizer", note=SAN + TRUST)
prop("P01", "Polynomials are always in canonical sorted form",
     "After any operation a polynomial's terms are strictly decreasing in its monomial order, all coefficients are nonzero, all monomials have the right number of variables, and length, degree, leading term and zero test agree with the terms. Two equal polynomials have identical term lists.",
     ["histories"], "every history of polynomial operations in every order and module convention",
     "The tests never inspect a polynomial's terms.",
     ["ginv/poly_int.h", "ginv/poly_int.cpp"], [("PolyInt term list maintenance", "ginv/poly_int.cpp")], observe=["iteration over terms"],
     technique="online invariant monitor on the term list after each operation of random histories, sanitizers in three memory configurations", note=SAN + TRUST)
prop("P02", "Polynomial arithmetic is exact",
     "Sums, differences, products, multiples by integers and monomials, negation, powers, and the addition or subtraction of integers given as text produce the exact polynomial with integer coefficients, and leave the other operands unchanged.",
     ["histories", "inputs"], "every history of ring operations with coefficients of any size, with and without module positions",
     "The tests do arithmetic only to set up systems and never look at the result.",
     ["ginv/poly_int.h", "ginv/poly_int.cpp"], [("PolyInt::add/sub/mult/pow/minus", "ginv/poly_int.cpp")], observe=["terms of every operand and result"],
     technique="differential monitoring against an independent exact polynomial implementation, sanitizers in three memory configurations", note=SAN + TRUST)
prop("P03", "The primitive part divides by exactly the content",
     "Taking the primitive part of a polynomial divides all its coefficients exactly by the content, so that the result has coprime coefficients and equals the input divided by its content up to sign, and repeating it changes nothing. The test for being primitive answers accordingly.",
     ["inputs"], "every nonzero polynomial with coefficients of any size",
     "No test inspects primitive parts.",
     ["ginv/poly_int.h", "ginv/poly_int.cpp"], [("PolyInt::pp/isPp", "ginv/poly_int.cpp")], observe=["coefficients"],
     technique="differential monitor against GMP gcd on generated polynomials", note=SAN + TRUST)
prop("P04", "Reduction steps and normal forms satisfy their defining identities",
     "A reduction step of one polynomial by another cancels the reducible term and leaves a nonzero integer multiple of the input minus a multiple of the divisor. A normal form with respect to a set has no reducible term and differs from a nonzero multiple of the input by a combination of the set, and none of these operations changes the divisors.",
     ["inputs"], "all pairs of polynomials and all finite divisor sets, in every admissible order and module convention",
     "No test looks at the outcome of a reduction.",
     ["ginv/poly_int.h", "ginv/poly_int.cpp"], [("PolyInt::reduction/redTail/nf/S", "ginv/poly_int.cpp")], observe=["terms before and after"],
     technique="identity monitors evaluated with independent exact polynomials", note=SAN + TRUST + "Degrees and coefficient sizes are bounded so that a case takes below a second.")
prop("B01", "Basis construction returns the Groebner basis of exactly the input ideal",
     "For every system of polynomials with integer coefficients and every admissible order, each of the construction algorithms terminates and leaves a set that generates the same ideal over the rationals as the input and in which every element of the ideal has a reducible leading monomial; the flagged Groebner subset has the leading monomials of the reduced basis. The whole ring is recognised exactly when the system generates it, and zero or missing input gives an empty basis.",
     ["inputs", "configurations"], "every finite system, every admissible order and each of the algorithms",
     "Three tests run fixed systems without checking the result.",
     ["ginv/poly_int.h", "ginv/poly_int.cpp", "ginv/gb.h", "ginv/wrap.h", "ginv/janet.h"], [("JanetPolyInt::build, TQ, TQ1, TQ2, block algorithm, criteria", "ginv/poly_int.cpp, ginv/poly_int.h")], observe=["resulting basis", "isOne", "size"],
     technique="result monitor: every basis compared with the reduced basis of an independent Buchberger oracle, membership in both directions", note=SAN + TRUST + "Systems are bounded in degree, coefficient size and size of the Janet basis so that the oracle can finish; cases over the CPU limit count only when repeated.")
prop("B02", "Basis construction is correct for submodules of free modules",
     "For systems of module elements with positions, in term-over-position and position-over-term orders, the construction leaves a basis that generates the same submodule and reduces every element of it to zero. Elements with different positions never reduce one another.",
     ["inputs", "configurations"], "every finite system of module elements, both module conventions, each of the algorithms",
     "No test uses module elements.",
     ["ginv/poly_int.h", "ginv/poly_int.cpp", "ginv/gb.h", "ginv/monom.h"], [("position-aware division and criteria", "ginv/poly_int.cpp, ginv/wrap.h")], observe=["resulting basis"],
     technique="result monitor against an independent module Buchberger oracle", note=SAN + TRUST + "Bounds as for ideals.")
prop("B03", "The normal form against a built basis is canonical and decides membership",
     "After a basis is built, the normal form of a polynomial is zero exactly when the polynomial belongs to the ideal or submodule, has no term divisible by a leading monomial of the basis, and is up to an integer factor the same for all representatives of a residue class. Computing normal forms and lookups does not change the basis.",
     ["inputs", "histories"], "every built basis and every polynomial or module element over it",
     "No test computes a normal form against a built basis.",
     ["ginv/poly_int.h", "ginv/poly_int.cpp"], [("JanetPolyInt::nf/find", "ginv/poly_int.cpp")], observe=["normal form terms", "basis before and after"],
     technique="membership and canonicity monitors against an independent oracle", note=SAN + TRUST)
prop("B04", "The Hilbert polynomial of a basis counts the standard monomials",
     "The Hilbert polynomial reported for a built basis equals, for every sufficiently large degree bound, the number of monomials up to that degree (summed over module positions) that are not leading monomials of elements of the ideal or submodule.",
     ["inputs"], "every proper ideal and every submodule with a built basis",
     "No test compares a Hilbert polynomial with anything.",
     ["ginv/poly_int.cpp", "ginv/janet.cpp", "util/hilbertpoly.cpp"], [("JanetPolyInt::buildHP, Janet::buildHP", "ginv/poly_int.cpp, ginv/janet.cpp")], observe=["coefficients"],
     technique="counting monitor: polynomial evaluated and compared with enumerated standard monomials", note=SAN + TRUST)
prop("B05", "The basis does not depend on how the same system is presented",
     "Permuting, scaling, negating, repeating or adding combinations of the generators, choosing another of the construction algorithms, or building again in the same process, gives the same reduced basis up to sign, and identical runs give identical results and counters.",
     ["inputs", "histories", "configurations"], "every system and every equivalent presentation of it",
     "The tests run each system once in one presentation.",
     ["ginv/poly_int.h", "ginv/poly_int.cpp"], [("JanetPolyInt::push/build and queue selection", "ginv/poly_int.cpp")], observe=["resulting basis of each presentation"],
     technique="metamorphic monitors over equivalent presentations", note=SAN + TRUST)
prop("B06", "The constructed basis is a reduced primitive Janet basis",
     "The elements left by a construction are sorted by the monomial order without repeated leading monomials, are primitive, and have tails that no element reduces involutively; for every element and each of its non-multiplicative variables the product has a Janet divisor and reduces to zero. The marks and counters reported with the elements agree with the set.",
     ["inputs", "configurations"], "every system, every admissible order, each of the algorithms",
     "No test looks at the elements of a result.",
     ["ginv/poly_int.h", "ginv/poly_int.cpp", "ginv/wrap.h", "ginv/janet.h"], [("reduceTail, sorting and prolongation handling in the construction", "ginv/poly_int.cpp")], observe=["elements, marks and counters of the result"],
     technique="result monitor over all elements, marks and prolongations of each basis", note=SAN + TRUST)
prop("B07", "The counters and the timer of a construction describe it",
     "Whichever algorithm is used, and in one step or several: each nonzero generator and each prolongation made ends as a basis element, as a counted reduction to zero, or as a counted use of a criterion; every non-multiplicative prolongation is accounted for; the product criterion (critI) is used for ideals only; a criterion is counted only where leading monomials that satisfy it can exist; with the algorithms TQ and TQ2 every basis element that had to be reduced takes at least one counted reduction; with TQ and TQ1 maxEqualLm covers the generators sharing the smallest leading monomial. Counters start at zero, never decrease, are the same in identical runs and do not change in a build with nothing new or by reducing with the basis. The timer shows the processor and wall-clock time of the last construction.",
     ["inputs", "histories", "configurations"], "every system, every admissible order, each of the algorithms, every way of building in steps",
     "No test reads a counter, and their values depend on the path of the whole construction.",
     ["ginv/poly_int.h", "ginv/poly_int.cpp", "ginv/wrap.h", "util/timer.h"], [("prolongation criteria and counters", "ginv/poly_int.cpp (prolong)"), ("zero reductions and reductions counted in each algorithm", "ginv/poly_int.cpp (algorithm*)")], observe=["counters, prolongation marks and timer of each construction"],
     technique="conservation monitor over counters and prolongation marks, clock bracket of the timer", note=SAN + TRUST)
prop("X01", "No operation reads or writes memory it does not own",
     "No sequence of library operations within their stated preconditions reads or writes outside live objects, uses uninitialised values, uses memory after release, releases twice, leaks memory without bound, or executes undefined arithmetic, in any allocator configuration.",
     ["histories", "inputs", "configurations"], "every history of operations of every part of the library",
     "The tests run uninstrumented and would not notice a stray access.",
     ["util/allocator.h", "util/list.h", "util/rbtree.h", "util/stack.h", "util/integer.h", "ginv/monom.h", "ginv/poly_int.h", "ginv/poly_int.cpp", "ginv/janet.h", "ginv/janet.cpp", "ginv/mcompletion.cpp"],
     [("arena ownership and manual release throughout", "util/allocator.h, ginv/poly_int.cpp")], observe=["sanitizer and memcheck reports"],
     technique="AddressSanitizer, UndefinedBehaviorSanitizer and valgrind memcheck over all driver workloads", note="Memory errors on the executed histories; inside the shared arena only the per-object configuration is exact. " + TRUST)
prop("X02", "The library's own assertions hold on every valid use",
     "Built with its assertions enabled, the library fails none of them on valid input and gives the same correct results: the preconditions its parts expect of one another and the invariants they state (well-formed trees, ordered lists of pending polynomials, canonical polynomials, balanced accounting) hold at every point where the code states them, in every history of every class, every system and every construction algorithm.",
     ["inputs", "histories", "configurations"], "every valid history of every class and every system under every algorithm and order",
     "The tests are built without assertions.",
     ["util/allocator.h", "util/list.h", "util/rbtree.h", "util/integer.cpp", "ginv/monom.cpp", "ginv/janet.cpp", "ginv/poly_int.cpp"], [("assertValid, assertSort, assertT and the assert statements", "util/*.h, util/*.cpp, ginv/*.h, ginv/*.cpp")],
     observe=["every assert statement of the library, reached by the workloads of all drivers"],
     technique="the library's assertions as online monitors, under every workload and oracle of the other checks, with AddressSanitizer", note=TRUST + "Assertions about invalid use (preconditions on the caller) are respected by the workloads.")
prop("C01", "Python polynomials and monomials of the module are exact",
     "Sums, differences, products, powers, negations and positions of the extension module's polynomials and monomials, with Python integers of any size on either side, are the exact mathematical values in every order and module convention; operands that are not the target of an in-place operation stay unchanged, comparisons and divisibility follow the order, and iteration, length, leading term and printed text agree with the value.",
     ["inputs", "histories", "configurations"], "every history of Python operations on polynomials and monomials with coefficients of any size",
     "The tests of the module print a few values.",
     ["cython/ginv.pyx", "ginv/poly_int.h", "ginv/monom.h"], [("PolyInt and Monom wrappers: operators and conversions", "cython/ginv.pyx")], observe=["Python values of terms, coefficients and texts"],
     technique="differential monitor in Python against independent exact polynomials, sanitized extension module", note=SAN + TRUST)
prop("C02", "A basis built from Python answers as the mathematics demands",
     "A basis built through the extension module from a Python list has the reduced Groebner basis of the same ideal or submodule as its flagged elements, its elements form a complete Janet basis with the marks of the definition, normal forms decide membership without changing argument or basis, the Hilbert polynomial counts standard monomials, and the counters and timer describe the construction.",
     ["inputs", "configurations"], "every system of polynomials or module elements, every admissible order and each of the algorithms",
     "No test of the module looks at elements of a result.",
     ["cython/ginv.pyx", "ginv/poly_int.cpp"], [("JanetPolyInt wrapper", "cython/ginv.pyx")], observe=["elements, marks, normal forms, Hilbert polynomial, counters"],
     technique="result monitor in Python against an independent Buchberger oracle, sanitized extension module", note=SAN + TRUST)
prop("C03", "Python objects of the module stay valid and improper calls do no damage",
     "Every object obtained from another one (leading monomials, coefficients, elements, trees, timers, iterators) keeps its value while it is referenced, whatever happens to the Python names of its owner, as long as the owner is not changed. Improper calls (wrong types, indices outside, mismatched sizes, empty operands) raise a Python exception and leave all objects intact, and memory of dropped objects is returned.",
     ["histories", "inputs"], "every history of creating, referencing and dropping objects, and every improper argument",
     "The tests drop nothing and never call improperly.",
     ["cython/ginv.pyx"], [("ownership of wrapped pointers, argument checks, release in __dealloc__", "cython/ginv.pyx")], observe=["values read after owners are dropped", "exceptions", "allocated bytes"],
     technique="AddressSanitizer with lifetime churn, monitors of values and memory from Python", note=SAN + TRUST)
PYT = "Exploration: holds on the executions of the run; trusts the oracle in harness/ and sympy's rational functions. "
prop("Y01", "Monomials of the Python implementation form the divisibility monoid",
     "In pyginv, products, quotients, powers, prolongations, and copies of monomials with and without a module position are the exact ones, least common multiples and greatest common divisors those of the exponents (without a position), divisibility respects positions, each order is the textbook one (lower positions greater, no position lowest) and consistent with comparison, equality and hash, listing all monomials of a degree gives each once, and printed forms show the exact monomial. No operation changes an operand.",
     ["inputs", "histories", "configurations"], "all monomials over any number of variables and functions, in every order",
     "The tests print a few monomials.",
     ["pyginv/monomial.py"], [("Monom", "pyginv/monomial.py")], observe=["exponents, position, text, comparisons"],
     technique="online differential monitor against exponent vectors over random histories", note=PYT)
prop("Y02", "Polynomial arithmetic of the Python implementation is exact",
     "In pyginv, sums, differences, products, powers, quotients by constants, multiples, prolongations, derivatives by parameters and conversions, with Python and sympy numbers or parameters on either side, are exact, sorted by the order without repeated monomials, and for numeric coefficients without zero terms; evaluating the printed text of a polynomial with integer coefficients gives it back, and operands are unchanged.",
     ["inputs", "histories", "configurations"], "every history of operations in every order, with rational or parametric coefficients, with and without module positions",
     "The tests print a few polynomials.",
     ["pyginv/polynomial.py", "pyginv/monomial.py"], [("Poly operators", "pyginv/polynomial.py")], observe=["term lists and texts"],
     technique="online differential monitor against independent exact polynomials over random histories", note=PYT)
prop("Y03", "In-place reductions of the Python implementation change only their target",
     "In pyginv, the operations that work in place (clearing denominators, primitive part, reduction steps with and without fractions, head, tail and full normal forms by a polynomial) leave in their target exactly what their definition demands, and no other polynomial changes, whatever operations produced it from or into the target. S-polynomials cancel both leading terms, also in modules.",
     ["histories", "inputs"], "every history mixing operators and in-place reductions",
     "The tests reduce a few polynomials and print them.",
     ["pyginv/polynomial.py"], [("Poly.reduction, redRat, reduce, NF, NFhead, NFtail, pp, cancel, S", "pyginv/polynomial.py")], observe=["terms of every live polynomial after each step"],
     technique="online monitor of all live objects against mirrored values after each operation, identities with independent exact polynomials", note=PYT)
prop("Y04", "The Janet trees of the Python implementation follow Janet division",
     "In pyginv, after any history of insertions into a Janet tree or a forest of them, the tree holds exactly the inserted elements minus those it returned as removed (proper multiples of the inserted one), the marks of non-multiplicative variables are those of the definition, a lookup finds exactly the element whose cone contains the monomial, pending prolongations are listed once by degree, by bound or all, counters agree, and the Hilbert polynomial subtracts exactly the cones, with exact binomials.",
     ["histories"], "every history of insertions, lookups and prolongations over any number of variables and components",
     "The test of the trees does not pass at the pinned commit.",
     ["pyginv/janet.py"], [("Janet, JanetCache, Forest, Wrap", "pyginv/janet.py"), ("HilbertPoly, CombRepet", "pyginv/janet.py")], observe=["elements, marks, lookups, prolongations, counters, Hilbert polynomial"],
     technique="online monitor against brute force over the definition of Janet division after each step", note=PYT)
prop("Y05", "The Python implementation constructs the Groebner basis of its input",
     "In pyginv, for every system of nonzero polynomials or module elements with rational or parametric coefficients, in every order, both construction algorithms, with every kind of tree and at every printing level, leave a complete and tail-reduced Janet basis of the same ideal or submodule whose flagged elements have the leading monomials of the reduced Groebner basis; normal forms against it are the canonical ones, and its Hilbert polynomial counts the standard monomials, per component and in total.",
     ["inputs", "configurations"], "every finite system, every order, both algorithms, every kind of tree",
     "No test constructs a basis with the Python implementation.",
     ["pyginv/ginv.py", "pyginv/janet.py", "pyginv/polynomial.py"], [("ginvMin, ginvBlockLow, criteria", "pyginv/ginv.py, pyginv/janet.py")], observe=["elements, marks, normal forms, Hilbert polynomial"],
     technique="result monitor against an independent Buchberger oracle over the field of coefficients", note=PYT + "Bounds as for the C++ bases; parametric systems are smaller.")
prop("Y06", "Differential and difference polynomials have the meaning of their operators",
     "In pyginv, a linear differential polynomial made from derivatives, from a sympy expression or from its own printed forms denotes the same operator; prolongation is the total derivative including that of the coefficients and of the inhomogeneous part, clearing denominators and the primitive part keep the equation up to a factor, and sums, differences and multiples are exact. Difference polynomials with constant coefficients denote shifts likewise. No operation changes its operand.",
     ["inputs"], "all linear differential polynomials with rational coefficients in the variables, and all difference polynomials with parametric coefficients",
     "The tests print a few of them.",
     ["pyginv/polynomial.py", "pyginv/monomial.py"], [("PolyDiff.df, diff2poly, prolong, df_sympy", "pyginv/polynomial.py"), ("PolySchem.T", "pyginv/polynomial.py")], observe=["terms, texts, sympy expressions"],
     technique="differential monitor against sympy derivatives and independent operators", note=PYT)
prop("Y07", "Completion of linear differential and difference systems is correct",
     "In pyginv, for every consistent linear differential system with constant or rational coefficients and every linear difference system with constant coefficients, both algorithms leave a complete Janet basis of the same system whose leading derivatives are those of the reduced basis; solutions of the input solve the result, normal forms are the canonical ones, and the Hilbert polynomial counts the free derivatives.",
     ["inputs", "configurations"], "every consistent linear system, every order, both algorithms",
     "No test completes a differential or difference system.",
     ["pyginv/ginv.py", "pyginv/janet.py", "pyginv/polynomial.py"], [("ginvMin, ginvBlockLow on PolyDiff and PolySchem", "pyginv/ginv.py"), ("PolyDiff.NF, NFhead, NFtail", "pyginv/polynomial.py")], observe=["elements, marks, normal forms, Hilbert polynomial, known solutions"],
     technique="result monitor against an independent Buchberger oracle over the operator algebra, and against known solutions", note=PYT)
prop("Y08", "The reports of the Python constructions describe the work done",
     "In pyginv, for both construction algorithms and every kind of tree, each generator and each prolongation made ends as an element of the basis, as a reduction to zero, or as a use of one of the two criteria that the construction counts and returns; every non-multiplicative prolongation of the result has been considered; the product criterion is used for polynomial ideals only and no criterion for differential and difference systems; repeating a construction gives the same counts and the same elements, and the time returned is the time it took.",
     ["inputs", "configurations", "histories"], "every system, every order, both algorithms, every kind of tree",
     "No test constructs a basis with the Python implementation.",
     ["pyginv/ginv.py", "pyginv/janet.py"], [("criteria and refresh of queued elements", "pyginv/ginv.py (Q.reduceAll, Q.reduceMinDegree), pyginv/janet.py (Wrap.crit1, Wrap.crit2)")], observe=["pending elements made, zeros, elements, counts returned"],
     technique="conservation monitor over all pending elements of a construction", note=PYT)
prop("D01", "A drawn diagram shows exactly the tree, and drawing changes nothing",
     "The diagram of a red-black tree with integer keys has one node per key, red where the tree is red, a leaf for every missing child and an edge to every child; that of a Janet tree has a header with the number of elements and the Hilbert polynomial, one node per tree node with its degree or, for an element, exponents (bold for a Groebner element) and the marks for non-multiplicative variables and prolongations made, a solid link to the next degree and a dotted one to the next variable; that of a forest shows every tree of it with the marks across degrees, under a header with the number of elements. An empty tree gives a diagram without nodes, an unwritable file gives none, and drawing leaves the tree as it was; drawn any number of times, it accumulates no graphviz contexts, graphs or layouts. From Python the same holds for the trees of a basis.",
     ["histories"], "every tree reached by any history, at any position of a module, drawn any number of times",
     "The tests draw a few fixed trees and nobody reads the files; nothing looks at what drawing leaves behind.",
     ["util/rbtree.h", "ginv/janet.h", "ginv/janet.cpp", "ginv/gb.h", "cython/ginv.pyx"], [("RBTree::draw", "util/rbtree.h"), ("Janet::draw", "ginv/janet.cpp, ginv/janet.h"), ("GB::draw", "ginv/gb.h"), ("const_janet.draw", "cython/ginv.pyx")],
     observe=["the file written, parsed back", "calls of gvContext, gvLayout, agopen and their counterparts", "the tree before and after"],
     technique="the picture is parsed back with graphviz's own reader and compared with the tree seen through the iterators; resource counters on the graphviz interface", note=TRUST + "Graphviz's own layout is trusted; what is compared is nodes, labels, styles and links.")
prop("D02", "Diagrams of the Python trees show exactly the elements",
     "In pyginv, saveImage of a Janet tree makes one node per tree node, labelled with its degree or, for an element, its monomial (bold exactly when the element is its own ancestor) followed, by level, by its marks for non-multiplicative variables, by the marks for prolongations made and by its ancestor; siblings are chained by solid links in increasing degree and dotted links lead to the next variable; a separate header gives the number of elements, the largest degree and the Hilbert polynomial. It is rendered once under the given name in the format of its extension, changes nothing in the tree, and without graphviz does nothing but say so.",
     ["histories", "configurations"], "every tree, empty ones too, at every level of detail",
     "The module that draws is not installed, so no test reaches this code.",
     ["pyginv/janet.py"], [("Janet.saveImage", "pyginv/janet.py")], observe=["every call into the drawing module, through a recording stand-in", "elements before and after"],
     technique="recording stand-in for the drawing module, diagram compared with the tree computed from the elements", note=PYT)
