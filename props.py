"""What each check runs: property -> rule of the evidence and the driver jobs."""


def cpp(driver, only, cfg="A", quick=12, thorough=240, shards=4, **kw):
    d = {"kind": "cpp", "driver": driver, "only": only, "cfg": cfg, "quick": quick, "thorough": thorough,
         "shards": shards, "tag": cfg + "-" + (only or driver).split(",")[0]}
    d.update(kw)
    return d


def both(driver, only, quick=12, thorough=240, a=4, b=4, **kw):
    """The shipped allocator configuration and the one with every object in its own heap block."""
    return [cpp(driver, only, "A", quick, thorough, a, **kw), cpp(driver, only, "B", quick, thorough, b, **kw)]


def vg(driver, only=None, cfg="V", quick=20, thorough=240, shards=1, **kw):
    d = {"kind": "cpp", "driver": driver, "cfg": cfg, "quick": quick, "thorough": thorough, "shards": shards,
         "valgrind": True, "cpu": 600, "tag": "vg" + cfg}
    if only:
        d["only"] = only
    d.update(kw)
    return d


def cy(driver, only=None, quick=14, thorough=240, shards=8, **kw):
    d = {"kind": "cython", "driver": driver, "quick": quick, "thorough": thorough, "shards": shards, "tag": "cy"}
    if only:
        d["only"] = only
    d.update(kw)
    return d


def py(driver, only=None, quick=14, thorough=240, shards=8, **kw):
    d = {"kind": "python", "driver": driver, "quick": quick, "thorough": thorough, "shards": shards, "tag": "py"}
    if only:
        d["only"] = only
    d.update(kw)
    return d


GEN = ("Cases are generated from VERIF_SEED with a size that ramps up; evaluations counts oracle comparisons made on the "
       "running code, distinct_nontrivial counts different observations (digest of input and observed result) after "
       "trivial ones are dropped by the drivers. ")

PROPS = {
    "U01": {"rule": GEN + "A case is a random history of allocations, growth, releases and arena swaps; an observation is one history with the byte counts it showed.",
            "jobs": both("d_alloc", "arena,typed")},
    "U02": {"rule": GEN + "A case forks a process with a memory limit and a random allocation history; an observation is the point where the process stopped and what it printed.",
            "jobs": both("d_alloc", "limit", quick=10, a=3, b=3, cpu=120)},
    "U03": {"rule": GEN + "A case is a random history of list operations mirrored on a std::vector; an observation is a history with the final contents.",
            "jobs": both("d_cont", "list,listd,listp,listc,biglist")},
    "U04": {"rule": GEN + "A case is a random history of tree operations mirrored on a std::map, with red-black invariants checked after each step; an observation is a history with the final contents.",
            "jobs": both("d_cont", "tree,treep,bigtree")},
    "U05": {"rule": GEN + "A case is a random push/pop/swap history mirrored on a std::vector; an observation is a history with the final contents.",
            "jobs": both("d_cont", "stack,stackc,stackp,bigstack")},
    "U06": {"rule": GEN + "A case is a random history of integer operations compared with GMP reference values; an observation is an operation with operands and result.",
            "jobs": [cpp("d_int", "arith,laws", "A", shards=3), cpp("d_int", "arith,laws", "B", shards=2), cpp("d_int", "arith,laws", "C", shards=3)]},
    "U07": {"rule": GEN + "A case prints and parses integers in several bases and both representations; an observation is a text with its value.",
            "jobs": [cpp("d_int", "text,bigtext", "A", shards=3), cpp("d_int", "text,bigtext", "B", shards=2), cpp("d_int", "text,bigtext", "C", shards=3)]},
    "U08": {"rule": GEN + "A case draws sequences of random permutations (bijectivity, uniformity by chi-square with a false-alarm rate below 1e-9) and applies them to monomials; an observation is a permutation.",
            "jobs": [cpp("d_misc", "perm,uniform,bigperm,monperm", "A", shards=5), cpp("d_misc", "perm,uniform,bigperm,monperm", "C", shards=3)]},
    "U09": {"rule": GEN + "A case builds a Hilbert polynomial from binomials, sums and differences and compares every coefficient with exact rationals; an observation is a polynomial.",
            "jobs": [cpp("d_misc", "hilbert,hilbertbig", "A", shards=5), cpp("d_misc", "hilbert,hilbertbig", "C", shards=3)]},
    "U10": {"rule": GEN + "A case runs a random polynomial history once plain and once with compactions forced at random points; an observation is a history with its result.",
            "jobs": both("d_alloc", "gclist,gcpoly")},
    "U11": {"rule": GEN + "A case is a random start/stop/continue history bracketed by readings of the system clocks; an observation is a history class.",
            "jobs": [cpp("d_misc", "timer,ticks", "A", shards=4)]},
    "M01": {"rule": GEN + "A case is a random history of monomial operations compared with exponent vectors; an observation is an operation with operands and result.",
            "jobs": both("d_monom", "history,wrap,randmon")},
    "M02": {"rule": GEN + "A case compares random pairs and triples of monomials under every order with the textbook definition; an observation is a pair with the outcome.",
            "jobs": both("d_monom", "orders,modorders")},
    "M03": {"rule": GEN + "A case is a random history of boolean monomials mirrored on variable sets; an observation is an operation with operands and result.",
            "jobs": both("d_monom", "boolean")},
    "J01": {"rule": GEN + "A case inserts and removes monomials in a Janet tree and queries it, compared with brute force over the definition of Janet division; an observation is a tree with a query and its answer.",
            "jobs": both("d_janet", "tree")},
    "J02": {"rule": GEN + "A case completes a random monomial set and compares the outcome with a brute-force minimal Janet completion; an observation is an input set with its completion.",
            "jobs": both("d_janet", "mjanet,mcompletion")},
    "J03": {"rule": GEN + "A case is a random history over the forest of Janet trees and the leading-monomial store compared with brute force; an observation is a state with a query and its answer.",
            "jobs": both("d_janet", "forest")},
    "P01": {"rule": GEN + "A case is a random history of polynomial operations after each of which the term list is inspected; an observation is a history step with its result.",
            "jobs": [cpp("d_poly", "history,transfer,longpoly", c, shards=n) for c, n in (("A", 3), ("B", 3), ("C", 2))]},
    "P02": {"rule": GEN + "A case is a random history of polynomial operations mirrored on an independent exact polynomial; an observation is a history step with its result.",
            "jobs": [cpp("d_poly", "history,transfer,longpoly", c, shards=n) for c, n in (("A", 3), ("B", 3), ("C", 2))]},
    "P03": {"rule": GEN + "A case multiplies a polynomial by a content and takes the primitive part; an observation is the input with the result.",
            "jobs": [cpp("d_poly", "pp,longpoly", c, shards=n) for c, n in (("A", 3), ("B", 3), ("C", 2))]},
    "P04": {"rule": GEN + "A case performs one reduction step, an S-polynomial or a normal form against a random set and checks the defining identity; an observation is the input with the result.",
            "jobs": [cpp("d_poly", "reduction,nf,transfer", c, shards=n) for c, n in (("A", 3), ("B", 3), ("C", 2))]},
    "B01": {"rule": GEN + "A case is a random or classical system given to one of the four algorithms; the result is compared with the reduced Groebner basis computed by an independent Buchberger. An observation is a system with algorithm, order and resulting leading monomials.",
            "jobs": both("d_gb", "ideals,classics,empty", quick=22, hang_min=2)},
    "B02": {"rule": GEN + "As for ideals, with submodules of free modules in both module orders.",
            "jobs": both("d_gb", "modules", quick=22, hang_min=2)},
    "B03": {"rule": GEN + "A case builds a basis and reduces random polynomials, combinations of the generators and equal representatives; an observation is a system with a polynomial and its normal form.",
            "jobs": both("d_gb", "nform", quick=22, hang_min=2)},
    "B04": {"rule": GEN + "A case builds a basis and compares its Hilbert polynomial with the counted standard monomials; an observation is a system with its polynomial.",
            "jobs": both("d_gb", "hilbert", quick=22, hang_min=2)},
    "B05": {"rule": GEN + "A case builds the same system with permuted, scaled, duplicated and redundant generators and twice in the same process; an observation is a system with the common basis.",
            "jobs": both("d_gb", "orderind", quick=22, hang_min=2)},
    "B06": {"rule": GEN + "A case builds a basis and inspects every element of the result: sorting, primitivity, reduced tails, Janet sets, completeness of prolongations; an observation is a system with its Janet basis.",
            "jobs": both("d_gb", "janet", quick=22, hang_min=2)},
    "B07": {"rule": GEN + "A case builds a basis (in one or several steps) and balances the counters against the generators, elements and prolongation marks of the result, and the timer against the clocks of the process; an observation is a set of counters with the algorithm.",
            "jobs": both("d_gb", "counters,crowd,longer", quick=18, hang_min=2)},
    "X01": {"rule": GEN + "Every scenario of every C++ driver under AddressSanitizer, UndefinedBehaviorSanitizer (both allocator configurations) and valgrind memcheck (uninstrumented builds, for uninitialised reads).",
            "jobs": [vg("d_poly", cfg="V"), vg("d_gb", cfg="V", hang_min=2), vg("d_janet", cfg="W"), vg("d_monom", cfg="V"), vg("d_int", cfg="V"), vg("d_cont", cfg="W"),
                     cpp("d_gb", None, "B", 15, 200, 1, hang_min=2, tag="B-gb"), cpp("d_gb", None, "A", 15, 200, 1, hang_min=2, tag="A-gb"),
                     cpp("d_poly", None, "B", 15, 200, 1, tag="B-poly"), cpp("d_janet", None, "B", 15, 200, 1, tag="B-janet"),
                     cpp("d_alloc", "arena,typed,gclist,gcpoly", "B", 15, 200, 1, tag="B-alloc"), cpp("d_cont", None, "B", 15, 200, 1, tag="B-cont"),
                     cpp("d_misc", "perm,monperm,hilbert,hilbertbig", "A", 15, 200, 1, tag="A-misc"), cpp("d_monom", None, "B", 15, 200, 1, tag="B-monom"),
                     cpp("d_int", None, "C", 15, 200, 1, tag="C-int")]},
    "X02": {"rule": GEN + "Every scenario of every C++ driver on a build with the library's assertions enabled (and AddressSanitizer): a failed assertion ends the process and is a violation of the case that was running.",
            "jobs": [cpp("d_gb", None, "D", shards=2, hang_min=2, tag="D-gb"), cpp("d_poly", None, "D", shards=2, tag="D-poly"), cpp("d_janet", None, "D", shards=1, tag="D-janet"),
                     cpp("d_monom", None, "D", shards=1, tag="D-monom"), cpp("d_int", None, "D", shards=1, tag="D-int"), cpp("d_cont", None, "D", shards=1, tag="D-cont"),
                     cpp("d_alloc", None, "D", shards=1, tag="D-alloc"), cpp("d_misc", "perm,monperm,hilbert,hilbertbig", "D", shards=1, tag="D-misc"), cpp("d_draw", None, "D", shards=1, tag="D-draw")]},
    "C01": {"rule": GEN + "A case is a random history of Python polynomial or monomial operations compared with independent exact values; an observation is an operation with operands and result.",
            "jobs": [cy("d_cython", "poly,monomial")]},
    "C02": {"rule": GEN + "A case builds a basis from Python and compares elements, marks, normal forms, Hilbert polynomial and counters with an independent Buchberger; an observation is a system with its result.",
            "jobs": [cy("d_cython", "basis", hang_min=2)]},
    "C03": {"rule": GEN + "A case keeps views of objects alive past their owners, or calls improperly, under AddressSanitizer, and measures that memory comes back; an observation is a history with the values read.",
            "jobs": [cy("d_cython", "views,errors,misc")]},
    "Y01": {"rule": GEN + "A case is a random history of monomial operations of the Python implementation compared with exponent vectors; an observation is an operation with operands and result.",
            "jobs": [py("d_pyginv", "monomial")]},
    "Y02": {"rule": GEN + "A case is a random history of polynomial operations of the Python implementation mirrored on independent exact polynomials; an observation is an operation with operands and result.",
            "jobs": [py("d_pyginv", "poly")]},
    "Y03": {"rule": GEN + "A case mixes operations that make polynomials with operations that change their target, and compares every live object after each step; an observation is an operation with its result.",
            "jobs": [py("d_pyginv", "inplace")]},
    "Y04": {"rule": GEN + "A case inserts monomials into a Janet tree or forest of the Python implementation and compares elements, marks, lookups, prolongations and cones with brute force; an observation is a state of the tree.",
            "jobs": [py("d_pyginv", "janet,hilbert")]},
    "Y05": {"rule": GEN + "A case gives a random or classical system to one of the two algorithms of the Python implementation and compares every element with an independent Buchberger; an observation is a system with algorithm, order, tree kind and leading monomials.",
            "jobs": [py("d_pyginv", "ideals,modules,params", hang_min=2)]},
    "Y06": {"rule": GEN + "A case builds, converts, differentiates or shifts a linear differential or difference polynomial and compares it with sympy and with independent operators; an observation is a polynomial with its derivative.",
            "jobs": [py("d_pyginv", "diffpoly,schempoly,monomial")]},
    "Y07": {"rule": GEN + "A case completes a random linear differential or difference system and compares the result with an independent Buchberger over the operator algebra and with known solutions; an observation is a system with its reduced basis.",
            "jobs": [py("d_pyginv", "diffbasis,schembasis", hang_min=2)]},
    "Y08": {"rule": GEN + "A case builds the basis of a system twice while every pending element made is recorded, and balances the returned counts of both criteria against the record and the result; an observation is a system with its counts.",
            "jobs": [py("d_pyginv", "acideal,acmodule,acops")]},
    "D01": {"rule": GEN + "A case draws a search tree, a Janet tree, a forest or the trees of a basis, reads the picture back with graphviz's parser and compares it with the tree; an observation is a tree with its picture.",
            "jobs": [cpp("d_draw", None, "A", shards=3), cpp("d_draw", None, "B", shards=2), cy("d_cython", "drawing", shards=3)]},
    "D02": {"rule": GEN + "A case draws a Janet tree of the Python implementation through a recording stand-in for graphviz and compares the diagram with the elements; an observation is a tree with its diagram.",
            "jobs": [py("d_pyginv", "picture", quick=12, shards=4)]},
}
