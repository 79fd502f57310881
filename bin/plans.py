"""What each property's check builds, runs and accepts as a violation."""

DBG = ["-g1", "-fno-omit-frame-pointer"]
ASAN = ["-std=c++17", "-O0"] + DBG + ["-fno-sanitize-recover=all", "-fsanitize=address,undefined"]
VSCHED = dict(two_step=True, objs=[("clang++", "vsched.cpp", ["-O2", "-std=c++17"])])

BUILDS = {}
PLANS = {}


def build(name, src, flags, cxx="clang++", **kw):
    BUILDS[name] = dict(src=src, flags=list(flags), cxx=cxx, **kw)


FIXED = ("leak", "enum", "sweep", "full", "probe", "mt")


def job(build, profile, quick, thorough, accept="*", **kw):
    if profile not in FIXED and "wrap" not in kw:   # what fits into about a minute on 8 cores
        k = 4 if build.startswith("vs") else 2 if build.startswith(("tsan", "gtsan", "rasan")) else 3
        quick *= k
        thorough *= k
    return dict(build=build, profile=profile, quick=quick, thorough=thorough, accept=accept, **kw)


def plan(pid, jobs, rule, level="exploration", require=(), assumptions=(), evaluations=("cases",), **kw):
    PLANS[pid] = dict(jobs=jobs, rule=rule, level=level, require=list(require), assumptions=list(assumptions), evaluations=list(evaluations), **kw)


# ---------------------------------------------------------------- builds
ASAN20 = ["-std=c++20", "-DNDEBUG"] + ASAN[1:]
NDEB = ["-std=c++20", "-DNDEBUG", "-O2", "-g1", "-w"]     # judged by the lockstep model only
for pol in ("Atomic", "Local", "Track", "Std"):
    build("seq" + pol, "seq_main.cpp", (ASAN20 if pol == "Local" else ASAN) + ["-DPOLICY=P" + pol])
build("seqAtomicN", "seq_main.cpp", NDEB + ["-DPOLICY=PAtomic"], cxx="g++")
for lib in ("LX", "LS"):
    build("uniq" + lib, "uniq_main.cpp", ASAN + ["-DLIB=" + lib])
build("uniqLXN", "uniq_main.cpp", NDEB + ["-DLIB=LX"], cxx="g++")
for pol in ("Atomic", "TrackMT", "Std"):
    f = ["-std=c++17", "-g1", "-DPOLICY=P" + pol]
    build("vs" + pol, "conc_main.cpp", f + ["-O1", "-fsanitize=thread"], soft=True, **VSCHED)
    build("tsan" + pol, "conc_main.cpp", f + ["-O1", "-DREAL", "-fsanitize=thread", "-pthread"])
    build("gtsan" + pol, "conc_main.cpp", f + ["-O2", "-DREAL", "-fsanitize=thread", "-pthread", "-w"], cxx="g++")
    build("rasan" + pol, "conc_main.cpp", f + ["-O1", "-DREAL", "-fno-sanitize-recover=all", "-fsanitize=address,undefined", "-pthread"])
N20 = ["-std=c++20", "-DNDEBUG", "-g1"]     # the other language mode, assertions off
for pol in ("Atomic",):
    build("vs20" + pol, "conc_main.cpp", N20 + ["-DPOLICY=P" + pol, "-O1", "-fsanitize=thread", "-w"], soft=True, **VSCHED)
for pol in ("Atomic", "Std"):
    build("rasan20" + pol, "conc_main.cpp", N20 + ["-DPOLICY=P" + pol, "-O2", "-DREAL", "-fno-sanitize-recover=all", "-fsanitize=address,undefined", "-pthread", "-w"], cxx="g++")

# ---------------------------------------------------------------- texts
SEQ_RULE = ("A case is a seeded random program (20-80 operations plus destructor scripts) over a pool of shared, weak, converted, aliased and member pointers "
            "to objects of several types, executed by the real library in lockstep with an ownership model which is compared after every operation. "
            "Distinct: different hash of the executed operation/outcome sequence; non-trivial: at least one object was disposed of.")
SEQ_ASSUME = ["clang 18 / libstdc++, x86-64", "the ownership model in harness/seq.hpp states the property correctly (it stays silent on std::shared_ptr over the same programs)"]
CONC_RULE = ("A case is a small random concurrent program (2-5 threads) run by the real code on fibers: the scheduler of harness/vsched.cpp picks the next thread at every "
             "instrumented access and atomic operation (random walk and PCT, stale atomic reads and spurious CAS failures injected), plus the same programs on real threads under "
             "TSan/ASan. Distinct: different hash of the (thread, event) sequence; non-trivial: at least one context switch inside library code.")
CONC_ASSUME = ["clang's -fsanitize=thread instrumentation reports every access of the code under test", "interleavings are sampled, not enumerated",
               "weak memory is modelled by vector clocks and bounded stale reads, not by a full C++ memory model"]
ALLSEQ = ("Atomic", "Local", "Track")

# ---------------------------------------------------------------- plans
LIFE = ("destroy.", "deleter.", "ctor.", "leak")

HUGE = ("strong.", "weak.", "cb.")
C01 = LIFE + ("strong.count", "strong.moved", "create.addr")
plan("C01",
     [job("seq" + p, pr, q, q * 12, C01) for p in ALLSEQ for pr, q in (("own", 6000), ("reent", 4000), ("bulk", 100), ("storage", 1500))] +
     [job("seqAtomicN", "own", 10000, 150000, C01), job("dels", "mix", 4000, 100000, C01), job("delsN", "mix", 4000, 100000, C01),
      job("huge", "many", 12, 200, C01 + HUGE), job("hugeN", "leak", 4, 8, C01 + HUGE, shards=8, timeout=600, stall=400)],
     SEQ_RULE, require=["owners_created", "checks_above_2_31_owners", "disposals_observed", "pointer_state_checks", "ownership_groups"], assumptions=SEQ_ASSUME)

C02 = ("strong.", "create.addr", "conv.strong", "storage.value", "storage.count", "unique.moved", "cmp.same_owner")
plan("C02",
     [job("seq" + p, pr, q, q * 12, C02) for p in ALLSEQ for pr, q in (("values", 6000), ("own", 3000), ("conv", 3000), ("reent", 1500), ("all", 1500))] +
     [job("seqAtomicN", "values", 10000, 150000, C02)],
     SEQ_RULE, require=["pointer_state_checks", "operations", "ops_on_pointers_inside_objects"], assumptions=SEQ_ASSUME)

C03 = ("weak.", "conv.weak", "cb.", "leak", "destroy.", "alloc.", "strong.count")
plan("C03",
     [job("seq" + p, pr, q, q * 12, C03) for p in ALLSEQ for pr, q in (("weak", 7000), ("conv", 4000), ("all", 2000), ("sfrom", 2000))] +
     [job("seqAtomicN", pr, 5000, 80000, C03) for pr in ("weak", "conv")] +
     [job("hugeN", "many", 12, 200, C03 + HUGE), job("huge", "leak", 4, 8, C03 + HUGE, shards=8, timeout=600, stall=400)],
     SEQ_RULE, require=["observers_created", "references_never_released", "locks_successful", "locks_failed", "group_releases_checked", "conversions_of_expired_weak"], assumptions=SEQ_ASSUME)


def conc(pols, profs, accept, scale=1.0, real=True):
    js = []
    for p in pols:
        for pr, q in profs:
            js.append(job("vs" + p, pr, int(q * scale), int(q * scale * 15), accept))
        if real:
            for pr, q in profs:
                for b in ("tsan", "gtsan", "rasan"):
                    js.append(job(b + p, pr, 800, 40000, accept, timeout=600, shards=4))
                if p in ("Atomic", "Std"):
                    js.append(job("rasan20" + p, pr, 800, 40000, accept, timeout=600, shards=4))
        if p == "Atomic":
            for pr, q in profs:
                js.append(job("vs20" + p, pr, int(q * scale / 5), int(q * scale * 3), accept))
    return js


CREQ = ["executions"]
C04 = ("destroy.", "deleter.", "weak.", "strong.", "conv.", "sfrom.")
plan("C04", conc(("Atomic",), (("own", 300000), ("sfrom", 100000), ("slot", 60000)), C04),
     CONC_RULE, require=CREQ + ["stalled_threads", "weak_conversions_to_virtual_base_expired", "locks_successful", "locks_failed", "disposals_observed", "ownership_operations"], assumptions=CONC_ASSUME)

C05 = ("race",)
plan("C05", conc(("Atomic",), (("own", 200000), ("slot", 150000), ("sfrom", 100000)), C05),
     CONC_RULE, require=CREQ + ["disposals_observed"], assumptions=CONC_ASSUME)

C06 = ("slot.", "storage.", "race", "destroy.", "strong.")
plan("C06", conc(("Atomic",), (("slot", 400000),), C06) + [job("seq" + p, "storage", 4000, 50000, C06) for p in ("Atomic", "Track", "AtomicN")],
     CONC_RULE, require=CREQ + ["histories_checked", "overlapping_operation_pairs", "cas_successes", "cas_failures"], assumptions=CONC_ASSUME)

C07 = ("slot.", "race", "destroy.", "deleter.", "strong.", "weak.", "storage.", "leak")
plan("C07", conc(("Atomic",), (("slot", 350000),), C07) + [job("seq" + p, "storage", 4000, 50000, C07) for p in ("Atomic", "Local", "AtomicN")],
     CONC_RULE, require=CREQ + ["slot_operations_from_destructors", "disposals_observed", "cas_failures"], assumptions=CONC_ASSUME)

# ---------------------------------------------------------------- single-file harnesses
SAN2 = ["-fno-sanitize-recover=all", "-fsanitize=address,undefined"]
for n in ("make", "alloc", "fault", "cmp", "sfrom", "dels"):
    build(n, n + ".cpp", ASAN + ["-w"])
for n in ("cmp", "fault", "dels"):
    build(n + "N", n + ".cpp", NDEB, cxx="g++")
build("huge", "huge.cpp", ["-std=c++17", "-O2", "-g1", "-w"])
build("hugeN", "huge.cpp", NDEB, cxx="g++")
for pol in ("Atomic", "Local", "Track"):
    build("conv" + pol, "conv.cpp", (ASAN20 if pol == "Local" else ASAN) + ["-w", "-DPOLICY=P" + pol])
build("convStd", "conv.cpp", ASAN + ["-w", "-DPOLICY=PStd", "-DCONV_STD"])
build("counter", "counter.cpp", ASAN + ["-pthread"])
build("counterO2", "counter.cpp", ["-std=c++17", "-O2", "-g1", "-pthread"])
build("counterGcc", "counter.cpp", ["-std=c++20", "-DNDEBUG", "-O2", "-g1", "-pthread", "-w"], cxx="g++")
build("counterTsan", "counter.cpp", ["-std=c++17", "-O1", "-g1", "-pthread", "-fsanitize=thread"])
build("seqdiff", "seqdiff_main.cpp", ASAN)
build("prog", "prog.cpp", ASAN + ["-w"])
build("progGcc20", "prog.cpp", ["-std=c++20", "-DNDEBUG", "-O1", "-g1", "-w"], cxx="g++")
# the matrix of C20: other compilers, language modes, optimisation levels, memory checkers
build("seqMsan", "seq_main.cpp", ["-std=c++17", "-O1", "-g1", "-w", "-fsanitize=memory", "-DPOLICY=PAtomic"])
build("seqMsanLocal", "seq_main.cpp", ["-std=c++20", "-DNDEBUG", "-O1", "-g1", "-w", "-fsanitize=memory", "-DPOLICY=PLocal"])
build("uniqMsan", "uniq_main.cpp", ["-std=c++17", "-O1", "-g1", "-w", "-fsanitize=memory", "-DLIB=LX"])
build("seqGcc20", "seq_main.cpp", ["-std=c++20", "-DNDEBUG", "-O0", "-g1", "-w", "-DPOLICY=PAtomic"] + SAN2, cxx="g++")
build("seqGccO2", "seq_main.cpp", ["-std=c++17", "-O2", "-g1", "-w", "-DPOLICY=PLocal"], cxx="g++")
build("seqClang20", "seq_main.cpp", ["-std=c++20", "-DNDEBUG", "-O2", "-g1", "-w", "-DPOLICY=PTrack"])
build("uniqClang20", "uniq_main.cpp", ["-std=c++20", "-DNDEBUG", "-O2", "-g1", "-w", "-DLIB=LX"] + SAN2)
build("uniqGccO2", "uniq_main.cpp", ["-std=c++17", "-O2", "-g1", "-w", "-DLIB=LX"], cxx="g++")
build("uniqGcc20", "uniq_main.cpp", ["-std=c++20", "-DNDEBUG", "-O1", "-g1", "-w", "-DLIB=LX"] + SAN2, cxx="g++")
build("makeGcc", "make.cpp", ["-std=c++20", "-DNDEBUG", "-O0", "-g1", "-w"] + SAN2, cxx="g++")
build("allocGcc", "alloc.cpp", ["-std=c++20", "-DNDEBUG", "-O0", "-g1", "-w"] + SAN2, cxx="g++")
build("sfromGcc", "sfrom.cpp", ["-std=c++20", "-DNDEBUG", "-O0", "-g1", "-w"] + SAN2, cxx="g++")
build("convGcc", "conv.cpp", ["-std=c++20", "-DNDEBUG", "-O0", "-g1", "-w", "-DPOLICY=PTrack"] + SAN2, cxx="g++")
build("seqVg", "seq_main.cpp", ["-std=c++17", "-O1", "-g1", "-w", "-DPOLICY=PAtomic"])
VG = ["valgrind", "--error-exitcode=99", "--quiet", "--leak-check=no", "--num-callers=20"]
UNIQ_RULE = ("A case is a seeded random program over a pool of unique pointers (objects and arrays; default, stateful, move-only, reference, "
             "function and polymorphic deleters; pointers stored inside the objects they own) executed by the real library in lockstep with an ownership model. "
             "Distinct: different hash of the executed operation/outcome sequence; non-trivial: at least one disposal.")
MODEL_ASSUME = ["clang 18 / gcc 13, libstdc++, x86-64", "the ownership models of the harness state the property correctly (they stay silent on the standard pointers over the same programs)"]

DELS = ("destroy.", "deleter.", "unique.", "leak", "strong.get", "alloc.arena", "alloc.align", "weak.expired", "track.error")
C08 = ("unique.", "deleter.", "destroy.", "ctor.", "heap.", "leak")
plan("C08", [job("uniqLX", "mix", 60000, 1200000, C08), job("uniqLXN", "mix", 40000, 1200000, C08), job("seqAtomic", "conv", 1500, 20000, ("unique.", "deleter.", "destroy.")),
              job("dels", "mix", 6000, 200000, C08 + DELS), job("delsN", "mix", 10000, 300000, C08 + DELS)],
     UNIQ_RULE, require=["deleter_kinds", "deleter_instances_traced", "disposals_observed", "array_disposals", "converting_moves", "releases", "unique_to_shared", "empty_deleters_checked"], assumptions=MODEL_ASSUME)

C09 = ("destroy.", "deleter.", "strong.", "weak.", "unique.", "cb.", "leak", "ctor.")
plan("C09", [job("seq" + p, pr, q, q * 15, C09) for p in ALLSEQ for pr, q in (("reent", 12000), ("storage", 1500), ("all", 1000))] +
     [job("uniqLX", "mix", 40000, 800000, C09), job("uniqLXN", "mix", 20000, 800000, C09), job("seqAtomicN", "reent", 10000, 150000, C09)],
     SEQ_RULE, require=["ops_destroying_their_own_operand", "destructor_script_ops", "visibility_checks_in_destructors", "ops_on_pointers_inside_objects"], assumptions=MODEL_ASSUME)

C10 = ("fault.", "alloc.noncreating", "leak", "track.error", "destroy.garbage", "ctor.unexpected", "heap.", "deleter.leak")
plan("C10", [job("fault", "enum", 1632, 1632, C10), job("fault", "rand", 20000, 600000, C10), job("faultN", "rand", 20000, 600000, C10)] +
     [job("seq" + p, "all", 3000, 60000, C10) for p in ALLSEQ],
     "Profile enum is a complete list: every creating operation x kind of pointer x type x which of the allocations/constructions it performs fails. Profile rand makes random "
     "programs with a fault armed at a random point. Distinct: different (operation, types, fault point, outcome); non-trivial: a fault fired or the operation ran allocation-free. "
     "The seq jobs count allocations made by operations which create no ownership.",
     level="fault_enumeration", require=["faults_allocation", "faults_constructor", "faults_allocator", "exceptions_propagated", "allocation_free_ops_checked"], assumptions=MODEL_ASSUME)

C11 = ("track.", "leak", "cb.")
plan("C11", [job("seqTrack", pr, q, q * 15, C11) for pr, q in (("own", 6000), ("values", 6000), ("weak", 6000), ("conv", 4000), ("reent", 5000), ("storage", 4000), ("sfrom", 4000))] +
     [job("vsTrackMT", pr, q, q * 15, C11) for pr, q in (("own", 60000), ("slot", 60000), ("sfrom", 30000))] +
     [job(b + "TrackMT", pr, 800, 20000, C11, timeout=600, shards=4) for b in ("tsan", "rasan") for pr in ("own", "slot")] +
     [job("seqClang20", "all", 8000, 200000, C11), job("convTrack", "mix", 8000, 100000, C11), job("sfrom", "mix", 6000, 60000, C11)],
     SEQ_RULE + " After every operation the addresses on record in each user-supplied control block are compared, as multisets, with the addresses of the live pointers of its group.",
     require=["control_block_record_checks", "pointer_state_checks", "executions"], assumptions=MODEL_ASSUME + CONC_ASSUME)

C12 = ("alloc.", "place.", "heap.", "leak", "destroy.early", "destroy.missing", "destroy.garbage", "deleter.garbage", "cb.")
plan("C12", [job("alloc", "direct", 20000, 400000, C12), job("alloc", "groups", 40000, 800000, C12), job("allocGcc", "groups", 4000, 100000, C12),
             job("fault", "rand", 4000, 40000, ("heap.", "alloc.", "leak"))] +
     [job("seq" + p, "all", 3000, 60000, C12) for p in ALLSEQ],
     "A case is either a series of direct requests to the library's allocator (element types of many sizes and alignments, counts including unrepresentable ones) or a random history of ownership "
     "groups made with default and stateful allocators; the global allocation functions are replaced by a monitor which records every block. Distinct: different hash of requests/history.",
     require=["direct_allocations", "overflowing_requests", "groups_through_user_allocator", "overaligned_objects_placed", "heap_blocks_monitored"], assumptions=MODEL_ASSUME)

C13 = ("sfrom.", "weak.expired", "leak", "track.error", "alloc.arena", "strong.count", "strong.get", "strong.owner", "destroy.", "race")
plan("C13", [job("sfrom", "mix", 40000, 600000, C13), job("sfrom", "probe", 2, 2, C13, shards=1), job("sfromGcc", "mix", 3000, 50000, C13)] +
     [job("seq" + p, "sfrom", 5000, 80000, C13) for p in ALLSEQ] + conc(("Atomic",), (("sfrom", 120000),), C13),
     "A case creates objects of six classes (association at offset zero, elsewhere, in a base, in a virtual base) in 17 ways or runs a random program over them and asks each for its owners in every state "
     "(owned, unowned, under construction, being destroyed, copied, assigned); the concurrent workload asks from several threads. Distinct: different (class, way, operation sequence) hash.",
     require=["owned_objects_queried", "objects_owned_repeatedly", "unowned_objects_queried", "queries_under_construction", "queries_during_destruction", "object_copies_and_assignments", "shared_from_calls", "shared_from_calls_on_disposed_objects", "executions"],
     assumptions=MODEL_ASSUME + ["objects whose ownership ended without destroying them are recorded findings (see DESIGN.md), probed separately"])

plan("C14", [job("seqdiff", pr, q, q * 20, "*") for pr, q in (("diff", 2500), ("diff.weak", 2000), ("diff.conv", 1500), ("diff.reent", 2500), ("diff.cmp", 1000), ("diff.sfrom", 1000))] +
     [job("uniqLX", "mix", 10000, 200000, "*"), job("prog", "mix", 3000, 100000), job("progGcc20", "mix", 10000, 400000)],
     "A case is a seeded random program (over the lockstep pool, or one of 13 ordinary programs: containers and algorithms, maps and sets, trees, lists, graphs, observers, polymorphism, deleters, arrays, shared_from_this, printing) executed three times: with the standard pointers, with xmem's atomic and with its local ones; the recorded observations (addresses relative to the program's objects, truth values, "
     "counts, lock and comparison results, constructor/destructor/deleter order) are compared one by one. Distinct: different hash of the observations; non-trivial: at least one disposal.",
     require=["observations_compared", "disposals_observed", "objects_in_programs"], assumptions=["libstdc++ is the reference for the standard pointers"])

C15 = ("storage.", "slot.", "race", "make.", "cmp.", "sfrom.", "weak.expired", "leak", "destroy.", "strong.", "deleter.")
plan("C15", [job("make", "xstd", 6000, 60000, C15), job("cmp", "xstd", 6000, 60000, C15), job("sfrom", "xstd", 12000, 120000, C15)] +
     [job("seqStd", pr, q, q * 15, C15) for pr, q in (("storage", 5000), ("values", 2000), ("sfrom", 3000), ("cmp", 1500))] +
     conc(("Std",), (("slot", 300000), ("sfrom", 40000)), C15) +
     [job("makeGcc", "xstd", 3000, 30000, C15), job("cmpN", "xstd", 6000, 60000, C15), job("sfromGcc", "xstd", 3000, 30000, C15)],
     CONC_RULE + " The single-threaded workloads ask the helpers about random pools of standard pointers and compare with the ownership model.",
     require=["histories_checked", "values_copied", "values_moved", "owner_pairs_compared", "owned_objects_queried", "slot_operations_from_destructors"], assumptions=CONC_ASSUME + ["std::shared_ptr itself is correct"])

C16 = ("make.", "leak", "heap.", "destroy.garbage", "ctor.")
plan("C16", [job("make", "mix", 30000, 500000, C16), job("makeGcc", "mix", 5000, 50000, C16)],
     "A case calls every make function for a random choice of types (counting, aggregate, padded, over-aligned, array, overloaded operators), arguments of all value categories and array sizes, on memory filled with a random byte, "
     "and compares constructions, argument categories, copies, values and bytes. Distinct: different hash of the choices.",
     require=["objects_made", "arguments_traced", "arguments_of_other_types_traced", "arrays_made", "array_elements_checked", "zero_bytes_checked", "untouched_bytes_checked", "values_copied", "values_moved"], assumptions=MODEL_ASSUME)

C17 = ("conv.", "strong.", "weak.", "destroy.", "deleter.", "unique.moved", "leak")
plan("C17", [job("conv" + p, "mix", 12000, 250000, C17) for p in ALLSEQ] + [job("seq" + p, "conv", 3000, 40000, C17) for p in ALLSEQ],
     "A case is a random walk of implicit conversions, casts, aliases and erasures over shared, weak and unique pointers to a class lattice with multiple, virtual and non-virtual duplicate bases, const variants, arrays and void, "
     "each step compared with the same conversion of the raw pointer. Distinct: different hash of the walk; non-trivial: a conversion between different types.",
     require=["implicit_conversions", "pointer_casts", "failed_dynamic_casts", "conversions_of_expired_weak", "conversions_to_virtual_bases", "unique_conversions", "erasures_to_void", "disposals_observed"], assumptions=MODEL_ASSUME)

C18 = ("counter.", "race")
plan("C18", [job("counter", "seq", 40000, 400000, C18), job("counterO2", "sweep", 4096, 4096, C18, timeout=600), job("counterGcc", "sweep", 1024, 4096, C18, timeout=600), job("counterGcc", "seq", 40000, 400000, C18),
             job("counterO2", "mt", 400, 8000, C18, timeout=600, shards=2), job("counterTsan", "mt", 100, 3000, C18, timeout=600, shards=2),
             job("counterO2", "full", 0, 4, C18, timeout=3000, stall=2000, shards=4), job("vsAtomic", "counter", 250000, 4000000, C18), job("vs20Atomic", "counter", 50000, 1000000, C18)],
     "Sequential cases drive both counters through random histories from chosen and reached values; sweep checks each operation over all neighbourhoods of powers of two and a grid of the 32-bit range; full (thorough) steps through all 2^32 values. "
     "Concurrent cases are small programs on one counter whose histories are checked for linearizability. Distinct: different history hash.",
     require=["counter_operations", "conditional_increments_of_zero", "started_at_chosen_values", "counters_run_down_to_zero", "executions"], assumptions=CONC_ASSUME)

C19 = ("cmp.", "heap.")
plan("C19", [job("cmp", "mix", 60000, 1000000, C19), job("cmpN", "mix", 40000, 1000000, C19), job("uniqLX", "mix", 8000, 100000, C19)] + [job("seq" + p, "cmp", 3000, 40000, C19) for p in ALLSEQ],
     "A case builds a random pool of pointers (owners, aliases into one object and others, weak, expired, empty, converted, all deleter kinds) and compares all pairs and triples with the addresses and the ownership history. Distinct: different hash of the pool.",
     require=["value_comparisons", "owner_pairs_compared", "owner_triples_checked", "expired_pointers_compared", "aliases_compared", "comparison_rounds"], assumptions=MODEL_ASSUME)

C20 = ("heap.", "destroy.garbage", "deleter.garbage", "leak", "alloc.arena", "place.", "deleter.leak", "cb.")
plan("C20", [job("seqMsan", "all", 6000, 120000, C20), job("seqMsan", "conv", 3000, 60000, C20), job("seqMsanLocal", "all", 0, 120000, C20), job("uniqMsan", "mix", 10000, 200000, C20),
             job("seqGcc20", "all", 4000, 80000, C20), job("seqGccO2", "all", 20000, 400000, "*"), job("seqClang20", "all", 10000, 400000, "*"),
             job("uniqClang20", "mix", 10000, 200000, C20), job("uniqGccO2", "mix", 20000, 400000, "*"), job("uniqGcc20", "mix", 10000, 100000, C20),
             job("makeGcc", "mix", 4000, 40000, C20), job("allocGcc", "groups", 4000, 40000, C20), job("sfromGcc", "mix", 2500, 40000, C20), job("convGcc", "mix", 2500, 40000, C20),
             job("fault", "rand", 3000, 60000, C20), job("seqVg", "all", 160, 4000, C20, wrap=VG, timeout=800, stall=300)],
     "The programs of the other checks (random programs over every pointer kind, element type, control block and allocator, placed in memory filled with random bytes) run under AddressSanitizer, UndefinedBehaviorSanitizer, MemorySanitizer and valgrind, "
     "with clang and gcc, C++17 and C++20, unoptimised and optimised; unsanitised optimised builds are judged by the same lockstep oracle. Distinct: different program hash.",
     require=["disposals_observed", "heap_blocks_monitored", "objects_made"], assumptions=MODEL_ASSUME)
