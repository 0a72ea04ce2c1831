"""What each check runs. A run: build (chk, release, asan, tsan, miri), suite, number of cases, time cap."""

CASE = ("A case is a random history of public operations from one 64 bit seed, over adversarial key and value families "
        "(sizes around every representation boundary), watched step by step by an executable model. ")
NT = "Non-trivial: at least one tree held two or more entries. Distinct: different operation/argument sequences."
ASSUME = ["the reference model (std BTreeMap and the join/prefix definitions in harness/src/world.rs) is right",
          "holds for the executions of this run only; a passing run is not a proof"]


NOTE = "Held on the executions counted in the evidence file; says nothing about executions not driven. Trusts the reference model and the harness."

NOTE_T = NOTE + " Sanitizers and the interpreter only see executed paths and the interleavings that occurred."

NOTE_B = NOTE + " Runs natively: what only exists in a browser is replaced by stand-ins in browser/shim."

NOT_APPLICABLE = {}

SAN = [("c01", 1500), ("c02", 1000), ("c03", 1500), ("c04", 1500), ("c05", 3000), ("c06", 1000), ("c07", 1500), ("c08", 3000), ("c09", 800),
       ("c10", 1000), ("c12", 1000), ("c13", 3000), ("c14", 2000), ("c18", 1000), ("c21", 4000), ("c22", 8000), ("c25", 1000), ("c26", 1000), ("big", 36)]


# 32 bit
P32 = [("c01", 4000), ("c02", 3000), ("c03", 4000), ("c04", 4000), ("c05", 6000), ("c06", 2000), ("c07", 6000), ("c08", 6000), ("c09", 1500), ("c10", 1500),
       ("c11", 3000), ("c12", 4000), ("c12_golden", 270), ("c13", 8000), ("c14", 4000), ("c18", 1500), ("c21", 8000), ("c22", 30000), ("c25", 1000), ("c26", 6000)]


def f(tier):
    return 12 if tier == "thorough" else 1


def s(tier):
    return 5 if tier == "thorough" else 1



def model(suite, quick, factor=12, release=0.5):
    def runs(tier, seed):
        k = factor if tier == "thorough" else 1
        rs = [dict(build="chk", suite=suite, cases=quick * k, secs=240 * (5 if k > 1 else 1))]
        if release:
            rs.append(dict(build="release", suite=suite, cases=int(quick * k * release), secs=240 * (5 if k > 1 else 1), seed=seed + 1000003))
        return rs
    return runs


PROPS = {
    "C01": dict(technique='model-based runtime monitoring: random histories, sorted-map oracle after every step', note=NOTE, runs=lambda tier, seed: model("c01", 60000)(tier, seed) + [dict(build="chk", suite="c01_deep", cases=1500 * f(tier), secs=120 * s(tier), seed=seed + 2000003), dict(build="chk", suite="big", cases=240 * f(tier), secs=120 * s(tier))], rule=CASE + NT, assumptions=ASSUME,
                min={"ev.deep_trees": 1000, "ev.many_entries": 60, "ev.huge_fields": 60, "ev.fat_nodes": 60, "op.insert": 200000, "op.remove": 100000, "op.remove_prefix": 10000, "ev.verify": 200000, "ev.get": 200000, "ev.infallible_calls": 10000}),
    "C02": dict(technique='model-based runtime monitoring: every prefix and extremal query compared with a sorted map', note=NOTE, runs=model("c02", 40000), rule=CASE + NT, assumptions=ASSUME,
                min={"ev.prefix_query": 100000, "q.inside_edge": 5000, "q.at_branch": 2000, "q.at_inner_key": 2000, "q.at_leaf": 5000, "q.miss": 5000, "ev.extremes": 20000, "ev.group_by": 20000, "op.filter_prefix": 50000}),
    "C03": dict(technique='model-based runtime monitoring: recorded combiner calls and results against the join definition', note=NOTE, runs=model("c03", 60000), rule=CASE + NT, assumptions=ASSUME,
                min={"ev.combiner_calls": 100000, "op.join_new": 50000, "op.join_with_detached": 50000, "op.join_with_same_store": 20000, "ev.pred_true": 10000, "ev.pred_false": 10000}),
    "C04": dict(technique='model-based runtime monitoring: prefix-set operations against their definition', note=NOTE, runs=model("c04", 60000), rule=CASE + NT, assumptions=ASSUME,
                min={"op.retain_prefix_with": 100000, "op.remove_prefix_with": 100000, "ev.prefix_set_partial": 30000}),
    "C05": dict(technique='runtime monitoring of held snapshots, iterators and values across later mutations', note=NOTE, runs=model("c05", 60000), rule=CASE + NT, assumptions=ASSUME,
                min={"ev.held_checked": 100000, "op.clone": 50000}),
    "C06": dict(technique='runtime monitoring: equality and shape against content, for differently built trees', note=NOTE, runs=model("c06", 60000), rule=CASE + NT, assumptions=ASSUME,
                min={"ev.eq_true": 50000, "ev.eq_related": 300000, "ev.eq_false": 30000, "ev.shape": 200000}),
    "C07": dict(technique='runtime monitoring: round trips through stores with all id lengths against a model', note=NOTE, runs=model("c07", 40000), rule=CASE + NT, assumptions=ASSUME,
                min={"op.reload": 50000, "op.reattach": 50000, "op.attach": 30000, "op.detach": 30000, "ev.long_ids_refused": 1000, "store.custom": 5000, "store.paged_dyn": 1000, "store.mem_dyn": 1000}),
    "C08": dict(technique='model-based runtime monitoring of attached trees with persist/reload at arbitrary points', note=NOTE, runs=lambda tier, seed: model("c08", 50000)(tier, seed) + [dict(build="release", suite="big", cases=240 * f(tier), secs=120 * s(tier), seed=seed + 3000003)], rule=CASE + NT, assumptions=ASSUME,
                min={"op.reload": 100000, "op.insert": 100000, "op.remove": 50000, "op.join_with_detached": 20000, "op.join_with_same_store": 20000, "op.foreign_operand": 20000, "op.retain_prefix_with": 20000, "ev.many_entries": 60, "ev.huge_fields": 60, "ev.fat_nodes": 60}),
    "C09": dict(technique='runtime monitoring: every root id ever issued is reloaded and compared, file bytes compared', note=NOTE, runs=model("c09", 30000), rule=CASE + NT, assumptions=ASSUME,
                min={"ev.old_version_checked": 100000, "ev.versions": 50000, "store.paged_reopened": 2000}),
    "C11": dict(technique='runtime monitoring of the store traffic: every read and write logged and attributed to tree nodes by an independent decoder', note=NOTE, runs=model("c11", 40000), rule=CASE + NT, assumptions=ASSUME,
                min={"ev.persist_after_change": 50000, "ev.selective_lookup": 20000, "ev.selective_scan": 10000, "ev.untouched_subtrees": 300000, "ev.mutations_without_write": 50000, "ev.queries": 100000}),
    "C12": dict(technique='runtime monitoring: independent decoder over every stored blob, independent encoder, and blobs recorded from the original code', note=NOTE,
                runs=lambda tier, seed: model("c12", 20000)(tier, seed) + [dict(build="chk", suite="c12_golden", cases=270, secs=120)], rule=CASE + NT, assumptions=ASSUME + ["the golden blobs in harness/golden.txt were written by the original commit"],
                min={"ev.trees_decoded": 30000, "ev.encoded": 3000, "ev.encoded_variant": 3000, "ev.golden_trees": 24, "ev.golden_blobs": 100, "ev.indirect_fields": 100000, "ev.record_size_varying": 20000, "ev.record_size_const": 20000, "ev.odd_roots": 20000}),
    "C10": dict(level="fault_enumeration", technique='fault injection at every store access of every operation, with a model deciding result, content and retry', note=NOTE, runs=model("c10", 12000, factor=8), rule="A case builds partly stored trees and, for 2-6 operations each, fails every store access (sampled above 32) once and from there on. " + NT, assumptions=ASSUME + ["an operation in place on a detached tree cannot report errors of its operand (its error type has no value); these panic by design and are not driven"],
                min={"ev.faults_injected": 200000, "ev.failed_ops": 200000, "ev.retries": 200000, "ev.iterators_failed_midway": 5000, "ev.persisted_after_failure": 20000, "ev.failed_in_history": 5000}),
    "C13": dict(technique='model-based runtime monitoring of blob stores: every write recorded, every read and held blob compared', note=NOTE, runs=lambda tier, seed: model("c13", 60000)(tier, seed) + [dict(build="chk", suite="c13_large", cases=2 if tier == "quick" else 8, secs=200, threads=1, min_cases=2), dict(build="chk", suite="c13_many", cases=12 * f(tier), secs=200)], rule="A case is a history of writes, reads, invalid reads and held blobs on one store. Non-trivial: at least two writes succeeded. Distinct: different operation sequences.", assumptions=ASSUME,
                min={"ev.read_checked": 500000, "ev.held_checked": 500000, "ev.page_turnover": 100000, "ev.too_large_refused": 30000, "ev.invalid_id_refused": 80000, "ev.held_after_store_dropped": 100000, "store.mem": 3000, "store.paged": 10000, "ev.boundary_crossed": 3, "ev.many_blobs": 500000}),
    "C14": dict(technique='runtime monitoring of close/reopen histories of paged files against a record of all writes', note=NOTE, runs=lambda tier, seed: model("c14", 30000)(tier, seed) + [dict(build="chk", suite="c14_large", cases=1 if tier == "quick" else 4, secs=200, threads=1, min_cases=1)], rule="A case is a file, a page size and 2-7 sessions of writes and reads with a reopen between them. Non-trivial: at least two writes succeeded. Distinct: different operation sequences.", assumptions=ASSUME,
                min={"ev.reopened": 50000, "ev.read_checked": 500000, "ev.last_id_checked": 50000, "ev.filled_page": 20000, "ev.page_turnover": 100000, "ev.bad_page_size_refused": 500, "ev.boundary_crossed": 3}),
    "C15": dict(level="fault_enumeration", technique='crash-point enumeration over the recorded file effects (libc interposition), reopening every crash image', note=NOTE,
                runs=lambda tier, seed: [dict(build="chk", bin="vio", suite="c15", cases=12000 * (12 if tier == "thorough" else 1), secs=240 * (5 if tier == "thorough" else 1)),
                                         dict(build="release", bin="vio", suite="c15", cases=4000 * (12 if tier == "thorough" else 1), secs=240 * (5 if tier == "thorough" else 1), seed=seed + 1000003)],
                rule="A case is a random history of opens, writes, syncs and reads on one file; every prefix of its file effects is reopened as a crash image, and after a sync subsets of the unforced effects. Non-trivial: at least two writes. Distinct: different histories.",
                assumptions=ASSUME + ["the 8 byte size field in the header is written atomically (one sector)", "fsync and fdatasync force all earlier effects; unforced effects survive in any combination, in 512 byte sectors"],
                min={"ev.crash_points": 100000, "ev.crash_points_inside_write": 80000, "ev.torn_writes": 10000, "ev.crash_in_recovery": 20000, "ev.power_failures": 50000, "ev.syncs": 3000}),
    "C16": dict(level="fault_enumeration", technique='system-call fault injection (errors, short and empty transfers) at every file operation of a history, with a record of all blobs', note=NOTE,
                runs=lambda tier, seed: [dict(build="chk", bin="vio", suite="c16", cases=1600 * (15 if tier == "thorough" else 1), secs=300 * (4 if tier == "thorough" else 1)),
                                         dict(build="release", bin="vio", suite="c16", cases=400 * (15 if tier == "thorough" else 1), secs=300 * (4 if tier == "thorough" else 1), seed=seed + 1000003)],
                rule="A case is a random history; it is re-run once for every file operation and every kind of failure of that operation. Non-trivial: at least two writes. Distinct: different histories.",
                assumptions=ASSUME + ["the 8 byte size field in the header is written all or nothing", "a write that reported an error may have taken effect"],
                min={"ev.faults_injected": 100000, "ev.errors_reported": 80000, "ev.reads_after_fault": 200000, "fault.write": 50000, "fault.read": 3000, "fault.seek": 10000, "fault.map": 2000, "fault.len": 2000, "fault.sync": 500, "ev.calls_during_fault": 30000}),
    "C17": dict(technique='stress with recorded concurrent histories checked offline (unique ids, real-time order, contents, last_id), and ThreadSanitizer', note=NOTE_T,
                runs=lambda tier, seed: [dict(build="chk", suite="c17", cases=30000 * f(tier), secs=240 * s(tier), threads=3, racy=True),
                                         dict(build="release", suite="c17", cases=10000 * f(tier), secs=240 * s(tier), threads=3, racy=True, seed=seed + 1000003),
                                         dict(build="tsan", suite="c17", cases=8000 * f(tier), secs=240 * s(tier), threads=3, racy=True, seed=seed + 2000003)],
                rule="A case is one store and 2-5 threads with a random program each, started together. Non-trivial: at least two writes succeeded. Distinct: different programs or different order of the steps of the threads.",
                assumptions=ASSUME + ["interleavings are those the scheduler produced here, with random delays; they are sampled, not enumerated"],
                min={"ev.writes": 300000, "ev.overlapping_writes": 50000, "ev.cases_interleaved": 10000, "ev.thread_alternations": 200000, "op.read_shared_id": 50000, "ev.last_id_checked": 10000}),
    "C18": dict(technique='stress on trees sharing nodes, each thread checked against its own model; ThreadSanitizer, AddressSanitizer and Miri', note=NOTE_T,
                runs=lambda tier, seed: [dict(build="chk", suite="c18", cases=16000 * f(tier), secs=240 * s(tier), threads=3, racy=True),
                                         dict(build="tsan", suite="c18", cases=6000 * f(tier), secs=240 * s(tier), threads=3, racy=True, seed=seed + 1000003),
                                         dict(build="asan", suite="c18", cases=3000 * f(tier), secs=240 * s(tier), threads=3, racy=True, seed=seed + 2000003),
                                         dict(build="miri", suite="c18", cases=48 * s(tier), secs=60 * s(tier), shards=8, min_cases=1, seed=seed + 3000003)],
                rule="A case is one tree and 3-5 threads that own clones and derived trees, iterators, keys and values of it, with a random program each. Non-trivial: the tree held two or more entries. Distinct: different programs or different order of the steps of the threads.",
                assumptions=ASSUME + ["interleavings are those the scheduler produced here, with random delays; they are sampled, not enumerated", "Miri runs without its (experimental) aliasing models"],
                min={"ev.cases_interleaved": 8000, "ev.thread_alternations": 100000, "op.read_shared_tree": 30000, "ev.held_checked": 30000, "op.iterate_and_send": 20000, "ev.received": 20000}),
    "C19": dict(technique='AddressSanitizer, MemorySanitizer and Miri on the real code under the workloads of all suites', note=NOTE_T,
                runs=lambda tier, seed: [dict(build="asan", suite=x, cases=n * f(tier), secs=120 * s(tier)) for x, n in SAN]
                + [dict(build="msan", suite=x, cases=n // 2 * f(tier), secs=120 * s(tier), seed=seed + 1000003) for x, n in SAN]
                + [dict(build="miri", suite="mix", cases=64 * s(tier), secs=60 * s(tier), shards=8, min_cases=1, seed=seed + 2000003)],
                rule=CASE + "The oracle here is the sanitizer or interpreter. " + NT,
                assumptions=["holds for the executions of this run only; a passing run is not a proof", "Miri runs without its (experimental) aliasing models"],
                min={"ev.verify": 200000, "ev.held_checked": 100000, "ev.corrupt_reads": 20000, "ev.faults_injected": 25000}),
    "C20": dict(technique='counting and marking allocator, mappings and file handles of the process read before and after every case', note=NOTE,
                runs=lambda tier, seed: [dict(build="chk", bin="vmem", suite="selftest", cases=1, secs=60, threads=1, selftest=True),
                                         dict(build="chk", bin="vmem", suite="c20", cases=64000 * f(tier), secs=240 * s(tier), threads=1, shards=8),
                                         dict(build="release", bin="vmem", suite="c20", cases=24000 * f(tier), secs=240 * s(tier), threads=1, shards=8, seed=seed + 1000003)],
                rule="A case is a case of one of the other suites, run between two readings of the counters (and again when they differ). Non-trivial and distinct as in that suite.",
                assumptions=ASSUME + ["allocations the runtime makes once are excluded: a difference counts when it comes back in a repetition"],
                min={"ev.balanced": 70000, "ev.blocks_released": 200000000, "inner.c10": 3000, "inner.c18": 3000, "inner.c14": 3000}),
    "C21": dict(technique='damaged store contents under overflow checks, AddressSanitizer, MemorySanitizer and Miri, with undamaged controls compared', note=NOTE,
                runs=lambda tier, seed: [dict(build="chk", suite="c21", cases=60000 * f(tier), secs=240 * s(tier)),
                                         dict(build="asan", suite="c21", cases=30000 * f(tier), secs=240 * s(tier), seed=seed + 1000003),
                                         dict(build="msan", suite="c21", cases=15000 * f(tier), secs=240 * s(tier), seed=seed + 2000003),
                                         dict(build="miri", suite="c21", cases=96 * s(tier), secs=60 * s(tier), shards=8, min_cases=1, seed=seed + 3000003)],
                rule="A case is a tree in a store that returns damaged bytes for some blobs, and a history of operations on it. Non-trivial: two or more entries. Distinct: different histories.",
                assumptions=ASSUME + ["Miri runs without its (experimental) aliasing models"],
                min={"ev.corrupt_reads": 300000, "ev.errors": 100000, "ev.results": 500000, "ev.controls_checked": 100000, "ev.full_nodes": 5000, "ev.file_bytes_damaged": 30000}),
    "C22": dict(technique='runtime monitoring of random blob programs against byte vectors, also under AddressSanitizer and Miri', note=NOTE,
                runs=lambda tier, seed: [dict(build="chk", suite="c22", cases=200000 * f(tier), secs=240 * s(tier)),
                                         dict(build="release", suite="c22", cases=200000 * f(tier), secs=240 * s(tier), seed=seed + 1000003),
                                         dict(build="asan", suite="c22", cases=60000 * f(tier), secs=240 * s(tier), seed=seed + 2000003),
                                         dict(build="miri", suite="c22", cases=160 * s(tier), secs=60 * s(tier), shards=8, min_cases=1, seed=seed + 3000003)],
                rule="A case is a random program over blobs of all sources. Non-trivial: two or more blobs. Distinct: different programs.", assumptions=ASSUME,
                min={"ev.slices": 1000000, "ev.slices_refused": 1000000, "ev.slice_refs": 1000000, "ev.foreign_refs_refused": 500000, "ev.compared": 1000000, "ev.held_checked": 10000000}),
    "C23": dict(technique='model-based runtime monitoring of the browser paged file over an in-memory backing store with recorded requests and faults', note=NOTE_B,
                runs=lambda tier, seed: [dict(build="bchk", suite="c23", cases=20000 * f(tier), secs=240 * s(tier)),
                                         dict(build="brelease", suite="c23", cases=10000 * f(tier), secs=240 * s(tier), seed=seed + 1000003),
                                         dict(build="bchk", suite="c23_tree", cases=10000 * f(tier), secs=240 * s(tier), seed=seed + 2000003)],
                rule="A case is a history of writes, reads, syncs, faults and reopens on one paged file; every request to the backing store is a crash point. Non-trivial: at least two writes succeeded. Distinct: different histories.",
                assumptions=ASSUME + ["the stand-ins for the browser interfaces behave like a browser: each Cache request is atomic and they take effect in order"],
                min={"ev.read_inside": 100000, "ev.read_anywhere": 100000, "ev.read_checked": 5000000, "ev.crash_points": 80000, "ev.near_limit": 120000, "ev.page_turnover": 120000, "ev.reopened": 25000, "ev.requests_rejected": 10000, "ev.too_large_refused": 20000, "ev.invalid_id_refused": 16000, "ev.held_checked": 400000, "ev.tree_stored": 40000}),
    "C24": dict(level="fault_enumeration", technique='model-based runtime monitoring of the browser file system; every recorded Cache request is a crash point and a possible rejection', note=NOTE_B,
                runs=lambda tier, seed: [dict(build="bchk", suite="c24", cases=20000 * f(tier), secs=240 * s(tier)),
                                         dict(build="brelease", suite="c24", cases=10000 * f(tier), secs=240 * s(tier), seed=seed + 1000003)],
                rule="A case is a history of file operations on several files and directories; every request to the browser cache is a crash point, and requests are rejected at random. Non-trivial: at least two writes succeeded. Distinct: different histories.",
                assumptions=ASSUME + ["the stand-ins for the browser interfaces behave like a browser: each Cache request is atomic and they take effect in order"],
                min={"op.path_name": 500, "ev.space_checked": 20000, "ev.read_far_beyond": 5000, "ev.truncate_far": 2000, "ev.odd_names": 8000, "ev.huge_blob_refused": 400, "ev.huge_files": 100, "ev.many_pieces": 100, "ev.crash_points": 200000, "ev.crash_points_inside_write": 50000, "ev.verify": 300000, "ev.overwrites": 80000, "ev.errors_reported": 25000, "ev.read_checked": 80000, "ev.truncated": 9000, "ev.concurrent_appends": 120000, "ev.vfs_read_checked": 15000, "ev.deleted": 7000, "ev.dir_deleted": 12000, "ev.blob_read_checked": 5000}),
    "C25": dict(level="fault_enumeration", technique='callbacks and stores that panic, fail or re-enter at chosen calls, with a model of all handles; AddressSanitizer, Miri and allocation balance', note=NOTE_T,
                runs=lambda tier, seed: [dict(build="chk", suite="c25", cases=12000 * f(tier), secs=240 * s(tier)),
                                         dict(build="release", suite="c25", cases=6000 * f(tier), secs=240 * s(tier), seed=seed + 1000003),
                                         dict(build="asan", suite="c25", cases=2000 * f(tier), secs=240 * s(tier), seed=seed + 2000003),
                                         dict(build="chk", bin="vmem", suite="c25_leak", cases=2000 * f(tier), secs=240 * s(tier), threads=1, shards=8, seed=seed + 3000003),
                                         dict(build="miri", suite="c25", cases=48 * s(tier), secs=60 * s(tier), shards=8, min_cases=1, seed=seed + 4000003)],
                rule="A case builds trees sharing nodes, and for each of several operations lets callbacks and store accesses panic, fail or re-enter at chosen calls. " + NT,
                assumptions=ASSUME + ["panics unwind (with panic=abort nothing is left to observe)", "Miri runs without its (experimental) aliasing models"],
                min={"ev.callback_panics": 10000, "ev.callback_errors": 10000, "ev.store_panics": 10000, "ev.half_done_trees": 1000, "ev.reentrant_ops": 10000, "ev.reentrant_store_ops": 100000, "ev.retries": 10000}),
    "C26": dict(technique='runtime monitoring of a content-addressed store: ids and write sequences of trees of equal content with different histories', note=NOTE,
                runs=lambda tier, seed: model("c26", 80000)(tier, seed),
                rule=CASE + NT, assumptions=ASSUME, min={"ev.ids_compared": 200000, "ev.write_sequences": 20000}),
    "C27": dict(technique='runtime monitoring of allocations and store accesses of single operations on large trees against the cost of the touched path', note=NOTE,
                runs=lambda tier, seed: [dict(build="chk", bin="vmem", suite="c27", cases=8000 * f(tier), secs=240 * s(tier), threads=1, shards=8),
                                         dict(build="release", bin="vmem", suite="c27", cases=4000 * f(tier), secs=240 * s(tier), threads=1, shards=8, seed=seed + 1000003),
                                         dict(build="chk", bin="vmem", suite="c27_store", cases=1600 * f(tier), secs=120 * s(tier), threads=1, shards=8, seed=seed + 2000003)],
                rule="A case builds a tree of 1000 to 8000 entries (thorough: up to 40000) and meters about 80 operations on it. " + NT,
                assumptions=ASSUME + ["the bounds leave a factor of about 2.5 over the highest cost seen on the unchanged tree, so that smaller losses of sharing are not noticed"],
                min={"ev.metered_far_below_content": 100000, "ev.insert_into_clone": 20000, "ev.filter_prefix": 10000, "ev.bulk_with_small": 20000, "ev.store_reads": 50000, "ev.commits": 4000, "ev.blobs_written": 20000, "ev.iter": 3000, "ev.versions_kept": 20000, "ev.smaller_than_its_keys": 500, "ev.store_far_below_content": 1000000, "ev.store_read_far_below_content": 500, "ev.long_labels": 500}),
    "C28": dict(technique='runtime monitoring of native 32 bit code (all model suites), and of the stored bytes of the same cases on 64 bit, 32 bit and (interpreted) big endian machines', note=NOTE_B,
                runs=lambda tier, seed: [dict(build="chk", suite="c28", cases=16000 * f(tier), secs=240 * s(tier)),
                                         dict(build="i686", suite="c28", cases=16000 * f(tier), secs=240 * s(tier))]
                + [dict(build="i686", suite=x, cases=n * f(tier), secs=120 * s(tier), seed=seed + 1000003) for x, n in P32]
                + [dict(build="i686", suite=x, cases=n, secs=200, threads=1, min_cases=n, seed=seed + 1000003) for x, n in [("c13_large", 2), ("c14_large", 1)]]
                + [dict(build=x, suite="c28_foreign", cases=60 * f(tier), secs=120 * s(tier), threads=1, seed=seed + 1000003) for x in ("chk", "i686")]
                + [dict(build="i686", suite="big", cases=12 * f(tier), secs=120 * s(tier), threads=2, seed=seed + 1000003)]
                + [dict(build="bi686", suite=x, cases=n * f(tier), secs=120 * s(tier), seed=seed + 1000003) for x, n in [("c23", 4000), ("c23_tree", 3000), ("c24", 3000)]]
                + [dict(build="chk", suite="c28", cases=4000, secs=120, seed=seed + 2000003, small=True),
                   dict(build="miri-i686", suite="c28", cases=32 * s(tier), secs=25 * s(tier), shards=8, min_cases=1, seed=seed + 2000003),
                   dict(build="miri-s390x", suite="c28", cases=32 * s(tier), secs=25 * s(tier), shards=8, min_cases=1, seed=seed + 2000003)],
                rule=CASE + "Cases of all other model suites run as 32 bit code; cases of c28 run on several machines and leave a digest of all stored bytes. " + NT,
                assumptions=ASSUME + ["32 bit x86 stands for the 32 bit target of browsers (wasm32), whose standard library is not available here", "big endian machines are interpreted (Miri), without files"],
                min={"ev.digests_compared": 15000, "ev.bytes_compared": 50000000, "ev.verify": 1000000, "ev.golden_trees": 12, "ev.full_store_refused": 2, "ev.bad_page_size_refused": 4, "ev.read_inside": 10000, "ev.foreign_large_files": 40, "ev.foreign_blob_kept": 400, "ev.foreign_blob_refused": 100}),
}
