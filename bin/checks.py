"""One function per claimed property: Work -> (coverage, findings, assumptions)."""
import os
import vc
from vc import MESHING, NoAnswer

THOROUGH = os.environ.get("VERIF_TIER") == "thorough"


def need(res, **floors):
    """Anchors that vanished mean that the analysis has no answer, not that the property holds."""
    if res.get("broken"):
        raise NoAnswer("; ".join(res["broken"][:5]))
    for k, v in floors.items():
        have = res["counts"].get(k, len(res["sets"].get(k, [])))
        if have < v:
            raise NoAnswer("only %d %s found (at least %d expected): the analysis no longer sees the code it decides" % (have, k, v))


def cov(res, explanation, **kw):
    c = {"explanation": explanation}
    c.update(res["counts"])
    for k, v in res["sets"].items():
        if k not in ("files", "linkage"):
            c[k] = sorted(v)
    c.update(kw)
    return c


def dedupe(fs):
    seen, out = set(), []
    for f in fs:
        k = (f["rule"], f["key"], f["file"], f["line"], f["msg"])
        if k not in seen:
            seen.add(k)
            out.append(f)
    return out


def simple(analysis, selftest, explanation, assumptions, rules=None, quick=(), thorough=(({}, False), ({"OPENMP": 0}, True)), args=(), filt=None, **floors):
    def go(w):
        st = w.selftest(selftest, [analysis], filt)
        fs, last, n = [], None, 0
        for opts, seed in [({}, True)] + list(quick) + (list(thorough) if THOROUGH else []):
            n += 1
            res = w.analyse(analysis, w.program(opts, seed=seed, tag="prog%d" % n), MESHING, extra=args)
            fs += [f for f in res["findings"] if not rules or f["rule"] in rules]
            if not fs:  # what was found is reported even where something else is out of sight
                need(res, **floors)
            last = last or res
        return cov(last, explanation, selftest=st, build_variants_analysed=n), dedupe(fs), assumptions
    return go


CHECKS = {}

CHECKS["R01"] = simple(
    "race", "race",
    "Every OpenMP parallel region is interpreted abstractly, context-sensitively through all callees; each pair of shared accesses of which one writes must be separated by an index that is injective in the thread id or work-shared loop variable, a common lock, atomicity, a barrier or a single-thread guard.",
    ["OpenMP semantics of the clang lowering (__kmpc_*)", "distinct per-thread slots hold distinct allocations", "library functions without a summary do not retain their pointer arguments"],
    thorough=(({}, False),), parallel_regions=5, race_shared_writes=50)


# ---------------------------------------------------------------- F01: every build option combination
def f01(w):
    import itertools, re, subprocess
    from concurrent.futures import ThreadPoolExecutor
    macros = {m for p in vc.OPTIONS.values() for m in p}
    files = vc.sources()
    used = {}
    # which options a translation unit can see: macros named in preprocessor conditions of it and the repo headers
    hdrs = [os.path.join(MESHING, f) for f in os.listdir(MESHING) if f.endswith(".h")]
    text = {f: re.sub(r"\\\n", " ", open(f, errors="replace").read()) for f in files + hdrs}
    cond = {f: set(re.findall(r"\w+", " ".join(re.findall(r"^[ \t]*#[ \t]*(?:el)?if.*$", t, re.M)))) for f, t in text.items()}
    inc = {f: set(re.findall(r'^[ \t]*#[ \t]*include[ \t]*["<]([\w./]+)[">]', t, re.M)) for f, t in text.items()}
    byname = {os.path.basename(h): h for h in hdrs}

    def seen(f):
        s, todo = set(), [f]
        while todo:
            x = todo.pop()
            if x in s:
                continue
            s.add(x)
            todo += [byname[i] for i in inc.get(x, ()) if i in byname]
        return s
    jobs = []
    for f in files:
        names = set().union(*(cond[x] for x in seen(f)))
        opts = sorted({"OPENMP", "EXODUS"} | {o for o, p in vc.OPTIONS.items() if names & set(p)})
        axes = opts + (["SEED"] if "FIXED_RNG_SEED" in names else [])
        used[os.path.basename(f)] = axes
        for c in itertools.product((0, 1), repeat=len(axes)):
            d = dict(zip(axes, c))
            jobs.append((f, d))
    if not any("USE_OPEN_MP" in c for c in cond.values()):
        raise NoAnswer("the option macros are no longer visible in the sources: %s" % used)
    stds = ["c++11", "c++17"] if THOROUGH else ["c++11"]
    comps = ["clang++-18", "g++"] if THOROUGH else ["clang++-18"]

    def one(j):
        f, d, std, comp = j
        opts = dict(vc.DEFAULT, **{k: v for k, v in d.items() if k != "SEED"})
        tag = "".join(str(int(bool(opts[k]))) for k in vc.OPTIONS)
        hdr = os.path.join(w.dir, "cfg" + tag)
        if not os.path.exists(hdr):
            vc.generate_headers(hdr, opts)
        fl = vc.flags(hdr, opts, d.get("SEED", 1), std)
        if comp == "g++":
            fl = [x for x in fl if x != "-I" + os.path.join(vc.VERIF, "include")]
        if not opts["MPICXX"]:
            fl = [x for x in fl if x != vc.MPI_INC and x != "-isystem"]
        r = vc.run([comp] + fl + ["-I" + os.path.join(vc.VERIF, "include", "stubs"), "-fsyntax-only", f])
        return j, r
    all_jobs = [(f, d, s, c) for f, d in jobs for s in stds for c in comps]
    for j in all_jobs:
        opts = dict(vc.DEFAULT, **{k: v for k, v in j[1].items() if k != "SEED"})
        vc.generate_headers(os.path.join(w.dir, "cfg" + "".join(str(int(bool(opts[k]))) for k in vc.OPTIONS)), opts)
    fs = []
    with ThreadPoolExecutor(8) as ex:
        for (f, d, std, comp), r in ex.map(one, all_jobs):
            if r.returncode == 0:
                continue
            m = re.search(r"^(\S+?):(\d+):\d+: (?:fatal )?error: (.*)$", r.stdout, re.M)
            loc = (os.path.basename(m.group(1)), int(m.group(2)), m.group(3)) if m else (os.path.basename(f), 0, r.stdout[:200])
            fs.append({"rule": "configuration", "file": loc[0], "line": loc[1], "func": os.path.basename(f), "key": "%s|%s" % (os.path.basename(f), loc[2]),
                       "msg": "does not compile with %s (%s, %s): %s" % (", ".join("%s=%s" % kv for kv in sorted(d.items())), comp, std, loc[2]), "notes": []})
    # link completeness: in each threading configuration every repository function that is called is defined
    und = 0
    for omp in (0, 1):
        for exo in ((0, 1) if THOROUGH else (0,)):
            try:
                opts = dict(vc.DEFAULT, OPENMP=omp, EXODUS=exo)
                hdr = os.path.join(w.dir, "lk%d%d" % (omp, exo))
                vc.generate_headers(hdr, opts)
                bc = w.bitcode(files, vc.flags(hdr, opts) + ["-I" + os.path.join(vc.VERIF, "include", "stubs")], "lk%d%d.o" % (omp, exo))
            except NoAnswer as e:
                if not fs:
                    raise
                continue
            r = vc.run(["llvm-nm-18", "--undefined-only", "-C", bc])
            for l in r.stdout.splitlines():
                s = l.split(" ", 1)[-1].strip()[2:] if " U " in l else ""
                und += bool(s)
                if re.match(r"(Meshing|VoroCrust|vcm_)", s):
                    fs.append({"rule": "undefined", "file": "", "line": 0, "func": s, "key": "undefined|" + s, "msg": "%s is used but defined nowhere with OPENMP=%d EXODUS=%d" % (s, omp, exo), "notes": []})
    # self-test: a translation unit that needs the OpenMP branch must be rejected without it
    st = os.path.join(vc.VERIF, "selftest", "config.cpp")
    hdr = os.path.join(w.dir, "st")
    rc = []
    for omp in (0, 1):
        vc.generate_headers(hdr, dict(vc.DEFAULT, OPENMP=omp))
        rc.append(vc.run([vc.CLANG] + vc.flags(hdr, {"OPENMP": omp}) + ["-fsyntax-only", st]).returncode)
    if rc[0] == 0 or rc[1] != 0:
        raise NoAnswer("self-test: configuration-dependent error not detected %s" % rc)
    return ({"explanation": "The type checker is run on every translation unit under every combination of the build options (and the fixed-seed define) that its preprocessed text can depend on; every repository function used must be defined in each threading configuration.",
             "translation_units": len(files), "configurations_type_checked": len(all_jobs), "options_per_unit": used, "undefined_symbols_examined": und},
            fs, ["Exodus II and Kokkos are represented by stand-in headers with their documented prototypes", "gcc and clang accept the same code up to their libraries"])


CHECKS["F01"] = f01

CHECKS["D01"] = simple(
    "nondet", "nondet",
    "Interprocedural taint from every run-dependent source (clocks, entropy, process and machine identity, address values and address-ordered containers) through values, out-parameters, class fields and string streams; any flow into a branch, index, stored data or a data file is a violation, console output and timers are not. In parallel regions: no arrival-order-dependent update (non-commutative update or call under a lock, floating-point atomic or reduction, dynamic schedule, single, task).",
    ["the fixed-seed build, as the tests use it", "the number of threads actually used is part of the input", "uninitialised reads are decided by U01 and races by R01"],
    thorough=(), run_dependent_sources_followed=3, parallel_regions_checked_for_order=5)

CHECKS["I01"] = simple(
    "tokens", "tokens",
    "Every element access of a vector of text fields that was filled from an input row must be dominated by branch conditions that imply index < size() (linear facts from dominating branches, killed by intervening writes).",
    ["the standard library's vector and stream semantics"],
    field_accesses=19)

CHECKS["I02"] = simple(
    "parsed", "parsed",
    "Every integer converted from input text is followed through values, fields and containers to the places where it becomes an index, a size, a count or a loop bound; each must be dominated by a check of both ends of its range before it is stored.",
    ["numbers become indices, sizes or counts only in the ways listed in tool/parsed.cpp"],
    numbers_parsed=1)

_STATUS = ["a failed stream operation sets the stream's state no later than the next flush, endl or close", "a function that returns non-zero reports a failure"]
CHECKS["E01"] = simple(
    "status", "status",
    "For every input stream and every call of a function that opens one, the control flow is followed under the hypothesis that the open (the call) failed, with constants propagated: every return reached must carry a non-zero status, up to and including main.",
    _STATUS, rules={"read-status"}, input_streams=3, status_call_sites=12)
CHECKS["E02"] = simple(
    "status", "status",
    "For every output stream and every write to it, the control flow is followed under the hypothesis that this write failed: a state test after the data reached the file must turn into a non-zero return; and every call of a function that writes files must pass its failure on, up to and including main.",
    _STATUS, rules={"write-status"}, output_streams=4, write_operations_followed=100, status_call_sites=12)

# ---------------------------------------------------------------- kd-trees
_KD = ["real arithmetic: rounding of coordinates and distances is not modelled", "coordinates are not NaN"]
_KDF = dict(traversals=12, inserters=2, builders=2, query_entries=8, build_entries=2, insert_entries=1, pruning_proofs=500, distance_arguments=40)
CHECKS["K01"] = simple(
    "kdtree", "kdtree",
    "Every recursive traversal is followed path by path with its branch conditions as linear constraints: a path that skips a child must entail that the splitting plane is farther than the search radius; a path that accepts (rejects) a node must entail that it is (is not) within it; every entry must pass the root, dimension 0, and arrays of one tree; every limit distance must be set afresh before the query.",
    _KD + ["spoke trimming: a seed that shortens the spoke lies within 2*length + origin distance of the query"], rules={"descent", "pruning", "acceptance", "distance", "radius", "pass-through", "enumeration", "read-only", "dimension", "entry", "coherence", "orientation", "limit", "exclusion", "trimming"}, **_KDF)
CHECKS["K02"] = simple(
    "kdtree", "kdtree",
    "Every path of the insertion links the point exactly once, at a place tested to be free, on the side that the comparison of its coordinate entails; the recursion of the construction inserts the middle, left and right parts exactly once on every path, starts with all positions 0..n-1, and its partition step only permutes.",
    _KD, rules={"insertion", "construction", "dimension", "orientation"}, **_KDF)
CHECKS["K03"] = simple(
    "kdtree", "kdtree",
    "At every entry into a traversal, a construction or an insertion, the number of points must be known to be non-zero from dominating branches, there or at all callers.",
    ["a tree's root exists exactly when it has points"], rules={"empty"}, emptiness_proofs=8, query_entries=8)

CHECKS["U01"] = simple(
    "uninit", "uninit",
    "Every read of a local scalar is followed back: a declaration-to-read path without assignment, in which every call through a reference assigns only if its summary says so, is a violation unless the conditions on it contradict each other; every constructor is followed to its end, through the functions it calls, and must have assigned every scalar member that is read anywhere.",
    ["a call that reports through its result or another output that it found nothing is followed until that report is tested", "elements of arrays are not tracked"],
    quick=(({"EXODUS": 1}, False),), thorough=(({"OPENMP": 0}, True), ({"OPENMP": 0, "EXODUS": 1}, False)), variables=1820, constructors=5, members=60)

CHECKS["G01"] = simple(
    "grow", "grow",
    "Every branch that replaces arrays by larger copies when a count meets a capacity is an obligation: the untaken branch must entail count < capacity, the new capacity must exceed the old one and be recorded, each new array must be at least as large, receive entries [0, count) at unchanged positions and replace the old one, every array appended to at that count must be among them, and no path may lead from an append to another without passing the branch. Every call of a function that appends must pass an array with its own count and capacity.",
    ["a count never exceeds its capacity when a function is entered"],
    growth_sites=12, arrays_enlarged=20, copies_checked=20, appending_calls=30, first_allocations=20)

CHECKS["B01"] = simple(
    "extents", "extents",
    "Every element access of an array whose allocation is known (in the function, or at the callers, to which the demand is passed on) is an obligation: index < number of elements allocated, by linear and product entailment from dominating conditions and loop bounds. It is a violation when the last round of the loops refutes it, or when index limit and size are unrelated numbers. For arrays that come from elsewhere, the code's own other uses are the oracle: a list always run over to the count kept with it may not be run over to that count inclusive, and an array may not be handed over with a number of entries it is too small for in the relation all other calls have.",
    ["an index that was loaded from an array or counted while filling is not decided (see the counts)"],
    accesses_examined=1970, accesses_proved=1090, demands_on_callers=490, loops_over_lists_from_elsewhere=350, sizes_handed_over_compared=90)

CHECKS["M01"] = simple(
    "release", "release",
    "Typestate analysis of every function over all its paths, with summaries at calls: a value that was released (delete, delete[], free, or by a callee) is not dereferenced, passed on, returned or released again, and no object or argument of a caller is left pointing to released memory when a function returns (destructors, and functions only they call, excepted). A release is followed together with the conditions found on the way from it, so a use that these exclude is none. Forms: by unification of what pointers may point to, each release has the form of all allocations that can reach it.",
    ["two names for the same element of an array, at indices not known to be equal, are taken for different elements", "releases through containers other than std::vector are not followed"],
    releases=390, releases_followed=390, functions_followed=140)

CHECKS["W01"] = simple(
    "writers", "writers",
    "Every function that opens a file for output is followed along all its paths; what it writes is put together as lines of words (literals, values, and loops as symbolic repetitions). Counts that a file announces must be the number of rounds of the loop that writes the records, or, where records are left out, be counted in a loop over the same range under the same conditions; record loops run from the first to the last record and are not left early; the fields of a record have the types and number that the format or the first line asks for on every path; neighbouring numbers of one array have neighbouring columns; index bases, the numbering of cells and the number of digits are those of the format. Readers: the words of a line are stored in the order of the words, without gaps or overlaps, vertex numbers less 1.",
    ["the C++ library prints numbers and literals as given", "conditions that cannot be compared (opaque values in a loop) leave a count undecided"],
    writers=3, record_loops=4, announced_counts=6, values_read=4, numbers_checked=40)

CHECKS["P01"] = simple(
    "cover", "cover",
    "Every counting loop that indexes a list with its counter is an obligation: its first round is the first entry, its limit leaves out no last entry, and where a loop starts later or ends earlier, the entries left out are used by name (in the same way) or by a loop that belongs to it, or every round uses its neighbour's entry too. Loops over pairs take every pair. Loops over the corners of a face end with the third, loops over coordinates with the third. Loops that OpenMP hands out are read from the bounds that the compiler passes on. Where a thread's number times a share gives its first entry, the share must be the number of entries it does, must be the total divided by the number of threads that runs and rounded up, and the total must be the limit of the list; lists with one entry for each thread must have as many entries as threads run; a part that takes the rest must be the last one.",
    ["loops whose limits are other numbers (not one more or less than a number of entries) are taken to mean them", "which entries a condition inside a loop skips is not judged"],
    thorough=(({}, False),), loops_over_lists=480, divided_work=1, parallel_for_loops=4, parallel_regions=6, per_thread_arrays=8)

CHECKS["J01"] = simple(
    "spaces", "spaces",
    "Every index of a list (or array) that conditions compare with numbers of entries is an obligation: the largest sum of numbers it is known to have reached must be what is subtracted from it (nothing, where it is below the first), the list must be the one whose number of entries is left between its bounds, or whose number is not among those subtracted; marks for no entry must be the number of entries of the list searched; and numbers that a search of one list returned must have that same sum added when they join the combined range. What allocations, loops and calls say about which number belongs to which list is carried through parameters (by value and by reference, into parallel regions too); a call that hands a list over with the number of another list, and work on one list that depends on another one having entries, contradict it.",
    ["which list a number belongs to is taken from the comparisons in the code; lists over all entries together are recognised by being indexed with such a sum added"],
    combined_indices_examined=870, lists_handed_on_with_a_number=200, lists_identified=60, shifted_indices_examined=30, translated_indices_examined=16, no_entry_marks_examined=16, numbers_moved_to_combined_range=4, functions_that_index_their_object=20)

CHECKS["C01"] = simple(
    "options", "options",
    "The value of each KEY of the option file is followed from the comparison with \"KEY\" through variables, parameters, members, files and parallel regions. No place may receive two different options, or an option at one call and a constant or a multiple at another; parameters that hold an option in the confirmed tree must still; upper limits are only R_MAX, slopes and 1-x only LIP_CONST, cosines only of VC_ANGLE in degrees, thread numbers only NUM_THREADS; every option must reach a use of its kind; flags are false unless given; and the file a flag is named after is written or read on a path that exists exactly when the flag is set.",
    ["which keys exist and what each stands for is taken from the option file's documentation in the code; values are followed by name of variable or member, not by heap cell"],
    options_recognised=5, uses_checked=60, places_holding_option_values=50)

CHECKS["S01"] = simple(
    "caps", "caps",
    "Every place where a sphere's radius is chosen is an obligation: the value stored must, on every path, be at most R_MAX, the value of the closest point of the sizing function (unless there is none), 0.5 or less of the distance to the closest point of each set of features, and, for edge, surface and interior spheres, each neighbour's radius plus Lip times the distance; a seed's size must be at most the radii of its three spheres. Every change of a radius must be dominated by new <= old of the same entry, and on every path from it the function must report it to its caller or repeat its loop; a caller that is told must repeat its own.",
    ["the configured minimum radii may raise a radius above a limit", "radii returned by resolve_sliver are taken to be below the given ones", "that the loop over the neighbours visits all of them is taken from its having a limit on every pass"],
    spheres_made=5, radii_changed=8, changes_reported=10)
