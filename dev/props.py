#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (development aid)."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
P = []
NA = []


def prop(id, title, statement, over, q, why, files, mech, technique=None, note=None, state=(), observe=()):
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=q), why_tests_cant=why,
                   anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                                **({"state": [dict(name=a, meaning=b, where=c) for a, b, c in state]} if state else {}),
                                **({"observe_at": list(observe)} if observe else {}))), technique, note))


def na(id, reason):
    NA.append((id, reason))


PDR = "src/mlio/parallel_data_reader.cc"
PATHS = "exhaustive path-sensitive abstract interpretation of the type-checked AST (symbolic heap, loop abstraction)"

prop("C01", "Examples arrive in dataset order, each exactly once",
     "Whatever the number of prefetched examples and parallel reads and however background tasks are scheduled, successive reads return every batch that decodes, in dataset order, exactly once. A batch whose decoding yields nothing is skipped without displacing, duplicating or losing any other. The number of examples held at once stays within the configured limits.",
     ["schedules", "inputs", "configurations"], "every schedule of the background tasks, every dataset and every setting of num_prefetched_examples and num_parallel_reads",
     "The tests run one small dataset per reader on whatever schedule the machine happens to produce; an order or loss bug shows only under particular interleavings.",
     [PDR, "src/mlio/instance_batch_reader.cc"],
     [("flow graph: source, limiter, unlimited decode, sequencer, serial queue", PDR + ": Parallel_data_reader::init_graph"),
      ("consecutive batch numbers feed the sequencer", "src/mlio/instance_batch_reader.cc: read_instance_batch"),
      ("two queues swapped under the queue mutex", PDR + ": read_example_core")],
     "typestate and dataflow over all paths of the flow-graph construction, its node bodies and the read path (order, multiplicity, forwarding, bounds)",
     "Graph shape, node concurrency, forwarding on every path of each node body, numbering of batches, and the conservation of examples between the queues are checked on every path; TBB's documented node semantics are assumed.",
     observe=["Data_reader::read_example"])
prop("C02", "Shared reader state is only touched under its lock and waiters are woken",
     "State that the reading thread and the background threads of a data reader share is accessed by both only while holding the same lock, or through atomics. Every wait re-tests its condition, and every change that can make a wait's condition true is followed by a notification of that wait, so neither side can sleep forever or observe a torn value.",
     ["schedules"], "every interleaving of the caller with the background thread and the tasks it runs",
     "Data races and lost wake-ups appear only under rare interleavings; the tests cannot enumerate schedules.",
     [PDR, "include/mlio/parallel_data_reader.h"],
     [("queue mutex, fill and read conditions", PDR + ": read_example_core, stop, run_pipeline, init_graph"), ("atomic run state", "include/mlio/parallel_data_reader.h")],
     "lockset dataflow and wait/notify pairing over all paths of both threads' entry points",
     "For each field the locksets of all foreground and background accesses are intersected, accesses ordered by thread start and join excepted; each wait predicate's dependencies are matched with notifications.")
prop("C03", "Stopping a reader always ends and joins its background thread",
     "Destroying or resetting a data reader at any moment, including while the prefetch buffer is full, while batches are being decoded or after a failure, ends its background work, waits for it and leaves nothing of it running, without deadlock. Background work never outlives the objects it uses, and a background thread that fails to start leaves the reader usable.",
     ["schedules", "fault_sequences"], "every moment at which a reader is destroyed or reset and every outcome of starting the thread",
     "Tests destroy readers at a handful of quiescent points; the dangerous moments are schedules.",
     [PDR, "src/mlio/csv_reader.cc", "src/mlio/image_reader.cc", "src/mlio/text_line_reader.cc", "src/mlio/recordio_protobuf_reader.cc", "src/mlio/util/thread.h"],
     [("stop: cancel, empty, notify, join", PDR + ": stop"), ("every reader's destructor stops it first", "src/mlio/*_reader.cc"), ("signals blocked in the background thread", "src/mlio/util/thread.h")],
     "typestate (idle/running/joined) over all paths of the stop, reset and destructor functions, in each concrete reader's class hierarchy",
     "Join on every path where a thread may exist, cancel before join, wake-up of the blocked queue body between them, no lock held while joining, restoration of the signal mask, and recovery after a failed start.")
prop("C04", "Background failures are reported by reads until the reader is reset",
     "Any exception raised while the dataset is read or decoded in the background is thrown to the caller by the read that would otherwise report the end of the data, never swallowed, never ending the process, and never turned into a normal end. Every later read throws it again until the reader is reset.",
     ["fault_sequences", "schedules", "inputs"], "every exception type and every point in the background work at which it is thrown",
     "Tests provoke a few decode errors; they cannot throw every type at every point.",
     [PDR], [("entry point catches everything and stores the exception", PDR + ": run_pipeline"), ("read path rethrows in the failed state", PDR + ": read_example_core")],
     "exception-flow analysis from the node bodies through the thread entry point to the caller's read path, all paths",
     "The faulting sites are all opaque calls in the node bodies and graph set-up; the state machine values are read from the code.")
prop("C05", "A reset returns a reader to the very beginning",
     "After a reset, reading yields the dataset again from its first instance exactly as a newly constructed reader would: no peeked or buffered element, position, counter, error or end-of-data mark survives. With shuffling the order is reproduced exactly unless reshuffling each epoch was requested. Only facts computed once from the dataset, such as its schema, are kept.",
     ["histories", "configurations"], "every history of reads, peeks, failures and resets, and every combination of reader options",
     "Each member that is not restored shows only after a particular history (peek before reset, reset mid-file, reset after a failure); tests cover very few.",
     [PDR, "src/mlio/data_reader_base.cc", "src/mlio/csv_reader.cc", "src/mlio/instance_batch_reader.cc", "src/mlio/instance_readers/"],
     [("reset chain", PDR + ": reset; src/mlio/instance_readers/*: reset_core"), ("engine re-seeded", "src/mlio/instance_readers/shuffled_instance_reader.cc: reset_core")],
     "effect analysis: members written by any reading function versus members restored on every path of reset, per concrete reader class",
     "Members written only under a guard that they are still empty count as computed once. Restored values are compared with the constructor's.")


exec(open(os.path.join(HERE, "props_more.py")).read()) if os.path.exists(os.path.join(HERE, "props_more.py")) else None


def main():
    claimed = [p for p, t, n in P if t]
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p, t, n in P:
            f.write(json.dumps(p) + "\n")
    nas = list(NA)
    man = dict(version=1, setup_cmd="bash setup.sh",
               checks=[dict(property=p["id"], quick_cmd="./check.sh " + p["id"], thorough_cmd="./check.sh %s --thorough" % p["id"], technique="static analysis: " + t, level="other", level_note=n) for p, t, n in P if t],
               not_applicable=[dict(property=i, reason=r) for i, r in nas],
               notes="All checks decide from /repo's current source: a libTooling extractor dumps the type-checked AST, a Python path-sensitive abstract interpreter and per-property rules judge it. No code of /repo is run.")
    json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
    ids = {p["id"] for p, t, n in P}
    un = [p["id"] for p, t, n in P if not t and p["id"] not in {i for i, r in nas}]
    assert not un, un
    assert all(i in ids for i, r in nas)
    for p, t, n in P:
        assert len(p["title"]) <= 80, p["id"]
        if t:
            assert os.path.exists(os.path.join(V, "analysis/checks/%s.py" % p["id"].lower())), p["id"]
    print(len(P), "properties,", len(claimed), "claimed,", len(nas), "not applicable")


main()
