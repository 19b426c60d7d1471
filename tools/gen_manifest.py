#!/usr/bin/env python3
"""Source of /verif/MANIFEST.json (run to regenerate)."""
import json, os
T = "deterministic simulation with fault injection: "
CH = []
def check(p, tech, note, level="exploration"):
    CH.append({"property": p, "quick_cmd": f"python3 check.py {p}", "thorough_cmd": f"python3 check.py {p} --tier thorough",
               "evidence_file": f"evidence/{p}.json", "technique": T + tech, "level": level, "level_note": note})
COMMON = (" Sampled by seed, not exhaustive. Trusts the simulator runtime (sim/csrc/simrt.c), LLVM's instrumentation and the harness's plan interpreter;"
          " memory is sequentially consistent between scheduling points, so weak-memory effects are seen only as data races.")
check("C01", "seeded single-access scheduling of racing first uses of every load-once accessor, with identity, content and race oracles",
      "Every simulated run races threads through first calls of the real accessors (OnceLock code included) under random, PCT and stalled schedules with spurious and inverted wake-ups." + COMMON)
check("C02", "seeded single-access scheduling of multi-threaded API programs; happens-before race detector; each call compared with the same call alone in a fresh process",
      "Refinement against solo executions of the real code; a functional error that is the same alone and concurrently is out of scope of this property." + COMMON)
check("C03", "seeded call histories over several same-named puzzles with address reuse, poisoned memory, clock jumps and failures; each call compared with a fresh-process call",
      "History independence as refinement against fresh-process executions of the real code." + COMMON)
check("C04", "seeded definitions, hash seeds and map orders; verdict and every move's value compared with a small reference model",
      "The reference model (sim/src/judge.rs) is independent of the code; graphs of derived moves stay small (up to about 8 keys)." + COMMON)
check("C05", "same program under seeded process and thread hash seeds and map insertion orders, compared with fresh-process calls under other seeds; hash coherence of equal values",
      "Randomness enters only through getrandom, which the simulator owns." + COMMON)
check("C06", "seeded corruption of stored bytes and data maps (truncation, bit flips, torn/duplicated ranges, field edits) checked against a reference loader, with memory checks",
      "Refusing or accepting is compared with what the bytes describe; loaded values are then used under bounds, lifetime and initialisation checks." + COMMON)
check("C07", "every write to descriptors 1 and 2 goes to a simulated stream with seeded short, interrupted and failing results; each call compared with a fresh-process call under working streams",
      "On the current tree the library writes nothing to the streams, so the faults bite only if a change makes it write." + COMMON)
check("C08", "the real alg binary run against a scripted standard input (chunking, EINTR, EAGAIN, EIO, truncation after a read error) and compared with the same text as an argument",
      "Every read, write, clock and random call of the process is served by an interposed stand-in driven by the plan; the process is single-threaded." )
check("C09", "the real alg binary run against scripted standard output and error (short, EINTR, ENOSPC, EPIPE, EIO, zero-length writes) with a prefix/exit-status oracle",
      "Every read, write, clock and random call of the process is served by an interposed stand-in driven by the plan; the process is single-threaded." )
check("C10", "seeded multi-threaded create/clone/hand-over/drop programs on a simulated heap checking bounds, lifetime, layout, initialisation of compared bytes and balance over repeated rounds",
      "Leaks are growth between repeated rounds of the same work." + COMMON)
check("C11", "systematic injection of an allocation failure at every allocation (up to 160 per plan) of seeded programs",
      "The only accepted end of a run after the injected failure is the standard out-of-memory abort at that request." + COMMON, "fault_enumeration")
check("C12", "seeded histories of buffer updates, reads, transfers and failing updates, each compared with plain application in a fresh process",
      "Reference is the real code's fresh application; mixed-puzzle updates are part of the histories." + COMMON)
check("C13", "printing and serialising into simulated sinks with seeded short, interrupted, failing and zero-length writes at every offset; prefix and retry oracle",
      "The full text is what a working sink receives in a fresh process." + COMMON)
check("C14", "deserialising from simulated readers with seeded chunking, interruptions, errors and early ends, compared with in-memory reading",
      "The reference value is read from the complete bytes in a fresh process." + COMMON)
check("C15", "seeded panics thrown from sinks, readers and hashers and by out-of-range arguments at arbitrary points, with other threads running; all other values and later calls compared with fresh-process calls; heap balance",
      "Panics unwind (the harness builds with panic=unwind, as the crate's default profile does)." + COMMON)
check("C17", "seeded calls made from inside simulated sinks, readers, hashers, panic hooks, unwinding destructors and thread-local destructors of ending threads, compared with the same calls made apart in a fresh process",
      "Every inner call is made at a seeded transfer of the outer call on the same thread, with other threads running." + COMMON)
check("C16", "the whole example program under the simulator: seeded random bytes, clock, schedule, interrupted and partial writes of its output; several executions of one scramble compared with each other and every printed solution with a reference puzzle",
      "Scrambles up to three slots from solved and depths to 3; the example's own slot test looks at edges only (recorded in DESIGN.md), which the statement does not depend on." + COMMON)
CLAIMED = json.loads(os.environ.get("CLAIMED", "null"))
pure = "A pure function of its input: no schedule, clock, I/O, fault or randomness takes part, so deterministic simulation has nothing to decide (input generation alone would be another technique). "
NA = [("N01", pure), ("N02", pure), ("N03", pure), ("N04", pure), ("N05", pure), ("N06", pure), ("N07", pure)]
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
import sys
skip = set(sys.argv[1:])
checks = [c for c in CH if c["property"] not in skip]
na = [{"property": p, "reason": r.strip()} for p, r in NA]
na += [{"property": p, "reason": "The check for this property is still being built."} for p in sorted(skip)]
assert sorted([c["property"] for c in checks] + [x["property"] for x in na]) == sorted(ids), (ids,)
json.dump({"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: every seam is the compiler's memory-access instrumentation, the global allocator and the C library interface, all outside /repo. Repairs of genuine defects are the fix: commits listed in known_findings.txt."},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
