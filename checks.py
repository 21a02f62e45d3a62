"""Which harness programs decide which property."""
COMPILER = "g++"
SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
COMMON = ["-std=c++17", "-O0", "-g1", "-w", "-fmax-errors=3", "-DBOOST_ENABLE_ASSERT_HANDLER"]
BASE_FLAGS = COMMON + SAN + ["-D_GLIBCXX_ASSERTIONS"]


def tus(src, prop, n, extra=(), **kw):
    return [dict(src=src, tag="%s.%d%s" % (prop, t, "".join("." + x for x in extra)), defs=["PROP=%d" % prop, "TU=%d" % t] + list(extra), **kw) for t in
            (range(n) if isinstance(n, int) else n)]


CHECKS = {}

_grid = "Every interval with bounds on a 7-point grid (all kinds of bounds, reversed and degenerate ones included) of every domain/interval type is built by every constructor and factory"
CHECKS["P01"] = dict(units=tus("intervals.cpp", 1, 6),
    exhaustive="all intervals over a 7-coordinate grid, for each listed interval/domain type",
    rule=_grid + "; membership of every grid element and gap, emptiness, bounds, cardinality and singleton/hull construction are compared with the element set the bounds describe. One case is one (type, function group); non-trivial: it compared at least one non-empty interval.")
CHECKS["P02"] = dict(units=tus("intervals.cpp", 2, 6),
    exhaustive="all ordered pairs of intervals over a 7-coordinate grid, for each listed interval/domain type",
    rule=_grid + "; for all ordered pairs each relation is compared with the relation of the two element sets. Non-trivial: a pair of non-empty intervals was compared.")
CHECKS["P03"] = dict(units=tus("intervals.cpp", 3, 6),
    exhaustive="all ordered pairs of intervals over a 7-coordinate grid, for each listed interval/domain type",
    rule=_grid + "; for all ordered pairs the result of each operation is decoded from its raw bounds and compared with the element set the operation is defined by. Non-trivial: a pair of non-empty intervals was combined.")
_hist = "Random histories of 3-22 operations (interval, element and set operands of every style; member, free, in-place, infix and rvalue forms; borders biased to touch) run on the real container next to a bitmask model; after every operation the container is decoded from its raw segments and compared. A case is one history; distinct: the sequence of observed states differs; non-trivial: the container was non-empty at some point."
CHECKS["P04"] = dict(units=tus("sets.cpp", 4, 8), rule=_hist + " Compared here: the covered elements.")
CHECKS["P05"] = dict(units=tus("sets.cpp", 5, 8), rule=_hist + " Compared here: the complete segmentation each style prescribes, and structural validity.")
_mhist = "Random histories of 3-20 operations (segment, element, key, interval, key-set and map operands of every style; member, free, in-place, infix and rvalue forms) run on the real map next to a pointwise model, for every trait, several combiners/codomains, domains and interval types; after every operation the map is decoded from its raw segments. A case is one history; distinct: the sequence of observed states differs; non-trivial: the map was non-empty at some point. "
CHECKS["P06"] = dict(units=tus("maps.cpp", 6, 12), rule=_mhist + "Compared here: the associations after additions and subtractions.")
CHECKS["P07"] = dict(units=tus("maps.cpp", 7, 12), rule=_mhist + "Compared here: validity, absorption and the complete segmentation the style prescribes, after every operation.")
CHECKS["P08"] = dict(units=tus("maps.cpp", 8, 12), rule=_mhist + "Compared here: the associations after insert, set and erase.")
CHECKS["P09"] = dict(units=tus("maps.cpp", 9, 12), rule=_mhist + "Compared here: the associations after intersections, restrictions and flips.")
_obs = "Interval sets of all styles and interval maps of several traits/combiners/codomains over many domain and interval types are built by random histories (operands biased to subsets, supersets, re-segmentations and near misses of each other); "
CHECKS["P10"] = dict(units=tus("observe.cpp", 10, 10), rule=_obs + "every predicate at every operand granularity is compared with the statement about the decoded elements. A case is one container with all its queries; distinct: decoded container and answers differ; non-trivial: the container is non-empty.")
CHECKS["P11"] = dict(units=tus("observe.cpp", 11, 10), rule=_obs + "comparisons and inclusion_compare are compared with the lexicographic order of the decoded segments respectively elements, incl. trichotomy and transitivity. A case is one container with several operands; non-trivial: non-empty.")
CHECKS["P12"] = dict(units=tus("observe.cpp", 12, 10), rule=_obs + "every key of the universe (and gaps between) and many intervals are looked up and the iterator's position is compared with the one the decoded segments dictate. A case is one container; non-trivial: non-empty.")
CHECKS["P13"] = dict(units=tus("observe.cpp", 13, 10), rule=_obs + "every size and range function is compared with the decoded segments. A case is one container; non-trivial: non-empty.")
CHECKS["P14"] = dict(units=tus("observe.cpp", 14, 10), rule=_obs + "forward, backward and mixed walks of element and segment iterators are compared with the decoded element sequence. A case is one container with all its walks; non-trivial: non-empty.")
_val = "Containers of several styles, traits, combiners, codomains and interval types are built by random histories; "
CHECKS["P15"] = dict(units=tus("values.cpp", 15, 8), rule=_val + "every add/insert is repeated with every iterator position as hint, chained hints, adder/inserter with std::copy, construction, assignment and bulk operators, and each result is compared segment by segment with the plain one-at-a-time operation. A case is one container with all its variants; distinct: decoded containers differ; non-trivial: the container is non-empty.")
CHECKS["P16"] = dict(units=tus("values.cpp", 16, 8), rule=_val + "copies, moves, swaps, conversions between styles, clears, self-operands and own-segment operands are each followed by a comparison of all containers involved with their decoded value before. A case is one container with all its variants; distinct: decoded containers differ; non-trivial: the container is non-empty.")
CHECKS["P17"] = dict(units=tus("laws.cpp", 17, 8), rule=_val + "for triples of related containers both sides of every tabulated law are computed by the library's operators and compared by the documented equality and by their decoded segments. A case is one triple with all laws; distinct: decoded triples differ; non-trivial: the first two operands are non-empty.")
_dbg = COMMON + SAN + ["-D_GLIBCXX_DEBUG", "-D_GLIBCXX_DEBUG_PEDANTIC"]
_vg = dict(flags=COMMON[:1] + ["-O1", "-g1", "-w", "-DBOOST_ENABLE_ASSERT_HANDLER", "-DVF_VALGRIND"], wrap=["valgrind", "-q", "--error-limit=no", "--num-callers=6"])
CHECKS["P18"] = dict(units=tus("memory.cpp", 18, 8) + tus("memory.cpp", 18, [5, 6, 7], ["DEBUGMODE"], flags=_dbg) + tus("memory.cpp", 18, [8, 9], ["MEMCHECK"], **_vg),
    technique="runtime monitoring: ASan/UBSan, libstdc++ debug mode and valgrind memcheck over generated histories, with instrumented owning types and a counting allocator as lifetime ledger",
    rule="Random histories (all mutating operations, infix forms, copies, moves, conversions, hints, self-operands) run on containers of instrumented owning key/value types with a counting allocator, and on ordinary types, under ASan+UBSan, libstdc++ debug mode and valgrind; after each case every object and block must be gone. Separate histories hold iterators to untouched segments across operations. A case is one history; distinct: the sequence of observed states differs; non-trivial: the container was non-empty (stability cases: at least one held iterator was checked).")
CHECKS["P19"] = dict(units=tus("faults.cpp", 19, 7),
    technique="runtime monitoring with injected faults: every kind of user-type or allocator failure at the events of every operation, judged by a lifetime ledger, ASan and decoded state",
    rule="For random containers and operands every operation is first run to count its events of one kind (allocation, key comparison, key copy, key assignment, key stepping, value operation) and then repeated with a failure at each of them (at most 12 evenly spread ones). A case is one container/operand set with all operations and fault points; distinct: decoded state and outcomes differ; non-trivial: at least one event existed.")
_ts = dict(flags=COMMON[:1] + ["-O1", "-g1", "-w", "-DBOOST_ENABLE_ASSERT_HANDLER", "-fsanitize=thread"])
CHECKS["P20"] = dict(units=tus("threads.cpp", 20, 6, **_ts),
    technique="runtime monitoring: ThreadSanitizer over const operations on shared containers, with results compared to a sequential run",
    rule="Two to five threads each run some 40-60 const operations on the same shared container(s), and mutations of their own copies with shared const operands, every thread in its own random order (some in lock step, with injected yields). ThreadSanitizer watches for races; every result is compared with the same operation run sequentially afterwards. A case is one set of shared containers with all its threads; distinct: the observed interleaving of operations (order of thread ids) differs; non-trivial: more thread switches than threads were seen.")
CHECKS["P21"] = dict(units=tus("elements.cpp", 21, 9) + tus("elements.cpp", 21, [0, 1, 3], ["DEBUGMODE"], flags=_dbg),
    rule="Random histories of 4-21 operations (element/pair, key, key-set and map operands; member, free, in-place, infix and hinted forms; self operands; selections by predicate) run on std::set and icl::map for every trait and several combiners, next to a pointwise model and next to an interval set/map that gets the same operations; contents are compared after every operation, predicates, comparisons, sizes and total selection at the end. A case is one history; distinct: the sequence of contents differs; non-trivial: the container was non-empty at some point.")
CHECKS["P22"] = dict(units=tus("derived.cpp", 22, 7),
    rule=_val + "domain, between, erase_if, add_if, assign_if, absorb_identities, join, the joining and atomizing morphisms, gap computation and the streamed text are compared with what the decoded segments dictate. A case is one container with all its views; distinct: decoded results differ; non-trivial: the container is non-empty.")
CHECKS["P23"] = dict(units=tus("extremes.cpp", 23, 12) + tus("edges.cpp", 23, [0, 2, 4, 6, 7, 8, 10]), thorough_units=tus("edges.cpp", 23, [1, 3, 5, 9, 11, 12, 13]),
    exhaustive="all intervals and all ordered pairs of intervals over the 8 key values at and next to the minimum, the middle and the maximum, per listed key and interval type",
    rule="(1) Every interval with bounds among the 8 key values at and next to the minimum, middle and maximum of 9 integral key types (every kind of bounds, ascending and descending orders) and every ordered pair of them is compared with 128-bit element ranges; (2) random set and map histories over the whole range of a key type, biased to its extremes, are compared after every step with a piecewise function on 128-bit integers; (3) the history and observer machines of P04-P14 run on universes whose first / last element is the minimum / maximum of the key type. A case is one interval against all others, or one history; non-trivial: it compared a non-empty container or interval.")
