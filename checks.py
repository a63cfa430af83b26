"""What each check builds and runs. See DESIGN.md."""

ASAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all"]
QUICK = ["-O0", "-g1", "-D_GLIBCXX_ASSERTIONS"] + ASAN
DEEP = ["-O2", "-g1", "-D_GLIBCXX_ASSERTIONS"] + ASAN
TSAN = ["-O1", "-g1", "-fsanitize=thread"]
SAFE = ["-DBPPTREE_SAFETY_CHECKS"]
WRAP = ["-Wl," + ",".join("--wrap=__tsan_" + f for f in (
    "atomic32_fetch_sub", "atomic32_fetch_add", "atomic64_fetch_sub", "atomic64_fetch_add", "atomic_thread_fence"))]

CONFIGS = ["SeqInt", "MapInt", "MapStr", "SetDesc", "MapBig", "TupKey", "PlainOwn", "SeqWide", "Deep", "SeqStr", "SeqPair", "SeqSp", "SeqVec", "MapCI", "SetCI", "SeqDbl", "MapCust", "MapNull", "SeqFat", "MapFan", "SeqByte", "MapMoney", "SeqLoose"]
TRACKED = ["TrkSeq", "TrkMap", "TrkIdx", "TrkPlain"]
COST = {"Deep": 60, "MapBig": 40, "TupKey": 40, "SeqInt": 38, "MapInt": 38}

TUS = {}


def tu(name, src, flags, cost=20, **kw):
    TUS[name] = dict({"src": src, "flags": flags, "cost": cost}, **kw)
    return name


for c in CONFIGS + TRACKED:
    tu("eng-" + c, "eng_main.cpp", QUICK + ["-DCFG=" + c], COST.get(c, 20))
    tu("eng2-" + c, "eng_main.cpp", DEEP + ["-DCFG=" + c], 3 * COST.get(c, 20))
    tu("plain-" + c, "eng_main.cpp", ["-O0", "-g1", "-DCFG=" + c], COST.get(c, 20) // 2)
    tu("msan-" + c, "eng_main.cpp", ["-O1", "-g1", "-fsanitize=memory", "-fno-sanitize-recover=all", "-DCFG=" + c], 2 * COST.get(c, 20))
for i, n in ((0, "all"), (1, "map"), (2, "str")):
    tu("thr-" + n, "threads.cpp", TSAN + (["-DONLY=%d" % i] if i else []), 15, link=WRAP)
    tu("thra-" + n, "threads.cpp", ["-O1", "-g1"] + ASAN + (["-DONLY=%d" % i] if i else []), 15)


def family(prefix, src, configs, flags=(), base=None, **kw):
    return [tu("%s-%s" % (prefix, c), src, (QUICK if base is None else base) + list(flags) + ["-DCFG=%s" % c], **kw) for c in configs]


MISUSE = family("mis", "misuse.cpp", ["MapInt", "SetDesc", "TupKey", "SeqInt", "MapStr", "MapBig", "SeqStr", "SetCI", "MapCust"], SAFE) + \
    [tu("mis-Exhaust", "misuse.cpp", QUICK + SAFE + ["-DCFG=Tiny", "-DEXHAUST"])]
THROW = family("thw", "throw.cpp", ["ThMap", "ThStr", "ThSet", "ThTrk", "ThSeq", "ThOwn"])
ALIAS = family("als", "alias.cpp", ["AlStr", "AlStrBin", "AlSet", "AlTup", "AlTrk", "SeqStr", "PlainOwn", "SeqWide", "SeqSp", "SeqInt", "SetDesc", "SeqLoose"])
PROXY = family("prx", "proxyops.cpp", ["PxSeq", "PxUns", "PxMap", "PxStr", "PxPair", "SeqInt", "SeqLoose"])
NUMS = ["I32", "I64", "U8", "I8", "U16", "I16", "U32", "U64", "I32W", "F32", "DblI", "MapI", "MapU", "MapL", "MapC"]
NUM = {n: t for n, t in zip(NUMS, family("num", "numeric.cpp", ["Num" + n for n in NUMS]))}
ALGO = family("alg", "algo.cpp", ["AlVec", "AlSeq", "AlStr", "AlPair", "AlPlain", "AlMap", "AlSet"])
INVIDX = family("inv", "invidx.cpp", ["1", "2", "3", "4"], ["-fno-access-control"])
# parts of the example that do not compile: (property, key, what the compiler has to say for it to be that)
INVIDX_MORE = family("invt", "invidx.cpp", ["2", "3"], ["-fno-access-control", "-DBYTERM"], finding=("C20", "lookup-by-term-does-not-compile", "term_doc_iterator2")) + \
    family("invp", "invidx.cpp", ["2", "3"], ["-DPERSIST"], finding=("C20", "persistent-form-does-not-compile", "private|variable 'transient'|does not provide a call operator"))
CAPACITY = family("cap", "capacity.cpp", ["1", "2", "3", "4", "5", "6", "8", "9"], SAFE)
CAPACITY_DEEP = family("cap", "capacity.cpp", ["7"], SAFE)
CAPACITY_NOSAFE = family("capn", "capacity.cpp", ["1", "4"])
SCALE = dict(zip("gap crowd map seq".split(), family("scl", "scale.cpp", ["1", "2", "3", "4"], base=["-O1", "-g1", "-D_GLIBCXX_ASSERTIONS"] + ASAN, cost=25)))
COSTS = family("cst", "cost.cpp", ["CoMap", "CoSeq", "CoBig", "CoPlain"], base=["-O0", "-g1", "-fsanitize-coverage=trace-pc-guard"], cost=30)
EQUIV = [tu("equ-%d" % i, "equiv.cpp", ["-O0", "-g1", "-DEQ=%d" % i] + (SAFE if i >= 8 else []) + (["-DBPPTREE_DISABLE_EXCEPTIONS=true"] if i >= 10 else []), 40 if i in (1, 2) else 25) for i in range(1, 12)]
EQUIV_O2 = [tu("equ2-%d" % i, "equiv.cpp", ["-O2", "-g1", "-DEQ=%d" % i], 90) for i in (2, 6)]

EPISODES = {"Deep": 7, "MapBig": 10}


def eng(tag, configs, episodes=120, seeds=2, **kw):
    jobs = []
    for c in configs:
        n = max(4, episodes * EPISODES.get(c, 40) // 40)
        jobs.append(dict({"tu": "eng-" + c, "tags": tag, "episodes": n, "seeds": seeds, "thorough_episodes": n * 6, "thorough_seeds": 6, "cpu": 240}, **kw))
    for c in CONFIGS if tag != "C11" else TRACKED:
        n = max(8, 500 * EPISODES.get(c, 40) // 40)
        jobs.append(dict({"tu": "eng2-" + c, "tags": tag, "episodes": n, "thorough_episodes": n, "thorough_seeds": 4, "thorough_only": True, "thorough_cpu": 1500}, **kw))
    return jobs


def runs(tag, tus, episodes, seeds=2, deep=15, **kw):
    return [dict({"tu": t, "tags": tag, "episodes": episodes, "seeds": seeds, "thorough_episodes": episodes * deep, "thorough_seeds": 6, "cpu": 240, "thorough_cpu": 1500}, **kw) for t in tus]


VALGRIND = ["valgrind", "-q", "--error-exitcode=99", "--exit-on-first-error=yes", "--leak-check=no", "--num-callers=20"]

def nums(tag, quick):
    return runs(tag, [NUM[n] for n in quick], 300, 2, 8) + runs(tag, [NUM[n] for n in NUMS if n not in quick], 300, 2, 8, thorough_only=True)



def scale(tag, kinds, episodes):
    return [dict(j, cpu=400) for j in runs(tag, [SCALE[k] for k in kinds], episodes, 3, 20)]


HISTORY_RULE = "one case = one operation of a random history and the oracle questions after it; distinct = (build configuration, operation, tree depth, log2 of its size, where in the tree it acts, whether nodes are shared with a snapshot)"
ENGINE = "reference-model monitor over random operation histories, ASan+UBSan builds"
NOTE = "Held on the histories executed, not on all: seeded random histories over the listed configurations, sizes up to a few hundred elements at depths up to 8 or more; tiny nodes make splits, collapses and copy-on-write frequent."

CHECKS = {
    "C01": {"jobs": scale("C01", ["map", "seq"], 8) + eng("C01", ["SeqInt", "MapInt", "PlainOwn", "SeqWide", "SeqVec", "Deep", "SeqPair", "SetDesc", "MapBig", "MapFan", "SeqLoose"])},
    "C02": {"jobs": scale("C02", ["map"], 8) + eng("C02", ["MapInt", "MapStr", "SetDesc", "MapBig", "TupKey", "MapCI", "SetCI", "MapCust", "MapNull", "MapFan"], 100, 3) + nums("C02", ["MapU"])},
    "C03": {"jobs": scale("C03", ["crowd"], 4) + eng("C03", ["MapInt", "SeqInt", "MapStr", "PlainOwn", "SeqStr", "SetDesc", "MapMoney"], 100)},
    "C04": {"jobs": eng("C04", ["MapInt", "SeqInt", "MapStr", "PlainOwn", "SeqStr", "TupKey", "SeqSp"], 100) + runs("C04", ["mis-MapInt", "mis-SetDesc", "mis-MapStr", "mis-SeqInt"], 60, 1)},
    "C05": {"jobs": scale("C05", ["map", "seq"], 8) + eng("C05", ["SeqInt", "MapInt", "MapBig", "TupKey", "SeqWide", "Deep", "SeqSp", "MapCI", "SeqByte", "SeqFat", "MapFan"])},
    "C06": {"jobs": scale("C06", ["map", "seq"], 8) + eng("C06", ["SeqInt", "MapInt", "MapStr", "SetDesc", "MapBig", "TupKey", "Deep", "SeqPair", "MapCI", "SeqDbl", "MapCust", "MapMoney", "SeqByte", "MapFan"]) + nums("C06", ["I32", "U8", "I64", "MapI", "I16", "F32"])},
    "C07": {"jobs": scale("C07", ["map", "seq"], 8) + eng("C07", ["SeqInt", "MapInt", "SetDesc", "MapBig", "TupKey", "SeqStr", "SeqPair", "SeqDbl", "MapCust", "SeqFat", "MapNull"]) + nums("C07", ["U32", "I8", "U16", "MapU", "DblI"])},
    "C08": {"jobs": scale("C08", ["map", "seq"], 8) + eng("C08", ["SeqInt", "MapStr", "PlainOwn", "SeqWide", "Deep", "MapBig", "SeqPair", "MapFan", "SeqFat", "SeqByte", "TupKey"])},
    "C09": {"jobs": scale("C09", ["gap"], 6) + eng("C09", ["SeqInt", "MapStr", "PlainOwn", "SeqWide", "Deep", "MapInt", "SetDesc", "SeqFat"])},
    "C10": {"jobs": eng("C10", CONFIGS, 50)
            + [{"tu": "plain-" + c, "tags": "C10", "episodes": 2, "seeds": 1, "thorough_episodes": 40, "thorough_seeds": 4, "cpu": 300, "thorough_cpu": 3000, "prefix": VALGRIND} for c in ("SeqStr", "MapStr", "SeqPair")]
            + nums("C10", ["I32", "MapL", "I32W"])
            + runs("C10", ["als-AlStr", "als-SeqSp"], 20, 1, 20, thorough_only=True),
            "technique": "ASan+UBSan and memcheck over random operation histories on every configuration",
            "note": "Sanitizers see only the executions produced; red zones miss some intra-object overflows, which memcheck's definedness tracking and the content oracles narrow."},
    "C11": {"jobs": scale("C11", ["crowd"], 4) + eng("C11", TRACKED), "technique": "online checker over the event log of every element's construction, copy, move, assignment and destruction",
            "note": "Held on the histories executed with elements and keys whose life cycle is logged; live sets are compared at quiescent points."},
    "C12": {"jobs": [{"tu": "thr-" + n, "tags": "C12", "episodes": 300, "seeds": 3, "thorough_episodes": 20000, "thorough_seeds": 4, "cpu": 300, "thorough_cpu": 3000} for n in ("map", "str")]
            + [{"tu": "thra-" + n, "tags": "C12", "episodes": 300, "seeds": 1, "thorough_episodes": 10000, "thorough_seeds": 2, "cpu": 300, "thorough_cpu": 3000} for n in ("map", "str")],
            "rule": "one case = one operation of one of several threads that share trees, with delays injected around the atomic operations; distinct = (build, operation, what it acted on)",
            "technique": "ThreadSanitizer with delays injected at the atomics, per-thread reference models, ASan repetition",
            "note": "Held on the interleavings that occurred; TSan's happens-before tracking generalises over reorderings of the same synchronisation. x86 hardware; compiler and weak-memory effects only through TSan's model."},
    "C13": {"jobs": runs("C13", MISUSE, 60, 2), "rule": "one case = one illegal (or legal but borderline) call at a random position of a random tree; distinct = (build, kind of misuse, depth, log2 size, position, shared nodes)",
            "technique": "misuse injection with the exception type and the complete state compared before and after",
            "note": "Held on the misuse cases executed."},
    "C14": {"jobs": runs("C14", THROW, 30, 2), "rule": "one case = one call of a user callback that throws; distinct = (build, operation, which callback call throws, depth, shared nodes)",
            "technique": "fault injection: every n-th callback invocation throws, complete state compared before and after",
            "note": "Callbacks are the updaters and the comparator; exceptions from element constructors and operator new are outside the property."},
    "C15": {"jobs": runs("C15", COSTS, 6, 2, 20), "rule": "one case = one metered operation; distinct = (build, operation, depth, allocations made)",
            "technique": "logical cost counters (executed code edges, allocations, copies, comparisons) compared between sizes",
            "note": "Trees of about n and 64n elements; growth beyond the depth ratio (with slack) is a violation, so a small constant-factor loss is not seen.",
            "assumptions": ["cost is measured in executed edges, allocations, element copies and comparisons, never in time"]},
    "C16": {"jobs": runs("C16", ALIAS, 60, 2), "rule": "one case = one edit whose arguments alias elements of the tree or of a snapshot, compared with the edit with separate copies; distinct = (build, operation and argument form, depth, position of the alias relative to the edit, shared nodes)",
            "technique": "differential monitor: aliased edit against the same edit with copies, under ASan+UBSan",
            "note": "Held on the edits executed."},
    "C17": {"jobs": runs("C17", PROXY, 60, 2) + eng("C17", ["SeqInt", "MapInt", "TupKey"], 30, 1) + nums("C17", ["U64", "MapC", "I8", "F32"]), "rule": "one case = one operator applied through a proxy; distinct = (build, operator, depth, position, shared nodes)",
            "technique": "differential monitor: each operator on a proxy and on a plain value, with the tree's metadata checked after",
            "note": "Held on the operator applications executed."},
    "C18": {"jobs": [dict(j, group="map" if j["tu"][4:].lstrip("-") in ("1", "2", "3", "4", "8", "10") else "seq") for j in
                     runs("C18", EQUIV, 120, 2, 12) + runs("C18", EQUIV_O2, 120, 2, 12, thorough_only=True)],
            "rule": "one case = one operation applied to all variants of a build; distinct = (build, operation, functional or in place, log2 size, position)",
            "technique": "differential monitor: one history on trees that differ in tuning parameters, digests also compared between builds",
            "note": "Twenty variants against the default configuration, with and without safety checks."},
    "C19": {"jobs": runs("C19", ALGO, 100, 2), "rule": "one case = one algorithm call on a random range; distinct = (build, algorithm, log2 size, kind of iterators)",
            "technique": "differential monitor: standard algorithms on tree iterators and on std::vector, under ASan+UBSan",
            "note": "Known finding: std::reverse_iterator over mutable tree iterators."},
    "C20": {"jobs": runs("C20", INVIDX, 60, 2) + runs("C20", INVIDX_MORE, 60, 1), "rule": "one case = one insert or query of a random history; distinct = (build, operation, log2 of terms, log2 of documents)",
            "technique": "reference-model monitor (map of sets) over random insert and query histories of the example index",
            "note": "Held on the histories executed, with several term and document types and node sizes."},
    "C21": {"jobs": runs("C21", CAPACITY, 16, 2, 4) + runs("C21", CAPACITY_NOSAFE, 12, 1, 4) + runs("C21", CAPACITY_DEEP, 8, 1, 2, thorough_only=True),
            "rule": "one case = one insertion, removal or comparison while a tree is filled to its capacity and drained; distinct = (build, phase, depth, log2 size)",
            "technique": "capacity monitor: trees filled to max_size() and drained, depth and contents compared with the stated limits",
            "note": "Small node sizes and depth limits, so that the capacity is reachable."},
}
for _c in CHECKS.values():
    _c.setdefault("rule", HISTORY_RULE)
    _c.setdefault("technique", ENGINE)
    _c.setdefault("note", NOTE)
