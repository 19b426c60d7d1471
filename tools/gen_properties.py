#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (one place to edit; run to regenerate)."""
import json, os
K = "cubing_core/src/kpuzzle/packed/"
A = "cubing_core/src/alg/"
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

prop("C01", "Built-in and load-once puzzle values are created once and shared by all",
 "A puzzle, pattern or transformation obtained from a built-in puzzle accessor or from a load-once JSON-file macro is one fully initialised value: every call on every thread returns a reference to the same instance with the content of its file, no matter which threads race to make the first call. Every racing caller gets its value (no caller hangs, crashes or sees a partly built value).",
 ["schedules"], "every interleaving of any number of threads making first and later calls to any mix of the accessors, including accessors that initialise through one another",
 "Tests call the accessors from one thread (or after initialisation is already over); a race in first use needs a specific preemption inside initialisation.",
 ["cubing_core/src/kpuzzle/json_macros.rs", "cubing_core/src/puzzles/lib.rs", A + "special_notation.rs"],
 [("kpuzzle_from_json_file!/kpattern_from_json_file!/ktransformation_from_json_file! OnceLock get_or_init", "cubing_core/src/kpuzzle/json_macros.rs"),
  ("cube2x2x2_kpuzzle / cube3x3x3_kpuzzle", "cubing_core/src/puzzles/lib.rs")],
 [("*_kpuzzle_cell", "the once-initialised static behind each accessor", "cubing_core/src/kpuzzle/json_macros.rs")],
 ["address and content of the reference returned to each thread"])

prop("C02", "Concurrent use gives exactly the results of solo use, without data races",
 "When several threads parse, print, invert, build, convert, compose and apply algs, moves, puzzles, patterns and transformations that they share by reference, clone or hand over to each other, every call returns exactly what the same call returns when it runs alone, and shared inputs are left unchanged. No interleaving makes a call hang or crash or touch memory in a data race.",
 ["schedules", "programs"], "every interleaving, at the granularity of single memory accesses, of every set of per-thread programs over the public API that share values",
 "The three thread tests spawn at most two threads once each on the OS scheduler and share nothing mutable; they sample essentially one interleaving of one program.",
 [K + "packed_orbit_data.rs", K + "kpattern.rs", K + "ktransformation.rs", K + "kpuzzle.rs", A + "special_notation.rs", A + "grouping.rs", A + "parse.rs"],
 [("unsafe impl Send/Sync for packed data", K + "packed_orbit_data.rs"), ("Arc-shared immutable puzzle data and alg nodes", K + "kpuzzle.rs"),
  ("OnceLock cells for Square-1 quantum moves", A + "special_notation.rs")],
 [("packed bytes", "the heap block of one pattern or transformation, shared by &", K + "packed_orbit_data.rs")],
 ["returned values, texts and error kinds of each call on each thread"])

prop("C03", "Results depend only on a call's own arguments, never on the history of calls",
 "What a call returns depends only on the values passed to it: not on which calls came before in the process, on which other puzzles (even ones with the same name, move names or shape) exist or existed, on memory being reused at the same address, on the clock, or on earlier calls having failed or panicked. Repeating a call later in the process gives an equal result.",
 ["histories", "configurations"], "every finite history of API calls over several puzzles with overlapping names, object lifetimes and failures, under any allocator address reuse and any clock",
 "Each test starts from a fresh process state and uses one or two puzzles with short straight-line histories; none repeats a call after unrelated work or failures.",
 [K + "kpuzzle.rs", K + "lookup_move.rs", K + "kpattern.rs", K + "ktransformation.rs", A + "parse.rs", A + "special_notation.rs"],
 [("pure functions over Arc-shared immutable definitions; no caches besides once-initialised constants", K + "kpuzzle.rs"),
  ("move lookup takes the definition explicitly", K + "lookup_move.rs")],
 None, ["returned values, texts and error kinds"])

prop("C04", "A puzzle definition's verdict is right for every hash-map iteration order",
 "Constructing a puzzle from a definition fails if some derived move that can be looked up needs, directly or through other derived moves, itself or a move the puzzle does not have, if the data of a move cannot be a transformation of the puzzle's orbits, or if an orbit has no or more orientations than the build supports; otherwise it succeeds. The verdict is the same however the process orders the definition's maps, and every move of an accepted puzzle can then be evaluated, in any order and in either direction, without error, endless recursion or panic.",
 ["configurations", "inputs"], "every definition, every insertion order of its maps and every random hashing state of the process",
 "One test uses one recursive definition with two derived moves; whether an order-dependent mistake shows depends on the random hash seed of that one run.",
 [K + "derived_moves_validator.rs", K + "lookup_move.rs", K + "kpuzzle.rs"],
 [("depth-first visit over derived moves with in-progress/done marks", K + "derived_moves_validator.rs"),
  ("KPuzzle::try_new", K + "kpuzzle.rs")],
 [("derived_move_visit_statuses", "visit state per derived move, filled in hash order", K + "derived_moves_validator.rs")],
 ["Ok/Err of construction", "Ok/Err and value of evaluating each move"])

prop("C05", "No result depends on the process's random hashing state",
 "For any random hashing state of the process or thread, and any insertion order of the maps handed in, the same program gives equal patterns, transformations, data maps, texts and verdicts. Equal moves, patterns and transformations hash equally under every hasher state, so that values put into hash-based collections are always found again.",
 ["configurations", "programs"], "every hash seed (per process and per thread) and every map insertion order, for every program over the API",
 "Every test run draws one hash seed and compares nothing across seeds; tests do not put patterns into hashed collections.",
 ["cubing_core/src/kpuzzle/definition.rs", K + "kpattern.rs", K + "packed_orbit_data.rs", K + "kpuzzle.rs", A + "move.rs", A + "quantum_move.rs"],
 [("orbit order taken from the definition's list, maps only looked up by key", K + "kpuzzle.rs"), ("Hash/PartialEq on packed bytes", K + "packed_orbit_data.rs"),
  ("derived Hash/Eq on Move and QuantumMove", A + "move.rs")],
 None, ["returned values", "membership in HashSet/HashMap keyed by moves and patterns"])

prop("C06", "Damaged stored pattern or transformation data is rejected or loaded faithfully",
 "Loading a pattern or transformation for a puzzle from JSON bytes or from a data map that were truncated, bit-flipped, torn, duplicated or otherwise corrupted either returns an error or returns a value whose data equals what the bytes describe. It never panics, and a loaded value can be composed, inverted, applied and printed without panics or reads outside its own memory.",
 ["fault_sequences", "inputs"], "every corruption of stored bytes or entries (truncation, bit flips, torn and duplicated ranges, altered, missing or extra numbers, missing orbits), alone and in sequence, for every puzzle shape",
 "Tests only load well-formed files compiled into the binary; no test loads damaged data.",
 [K + "kpattern.rs", K + "ktransformation.rs", "cubing_core/src/kpuzzle/definition.rs"],
 [("KPattern::try_from_json / try_from_data", K + "kpattern.rs"), ("KTransformation::try_from_json / try_from_data", K + "ktransformation.rs")],
 None, ["Ok/Err and to_data() of the loaded value", "behaviour of later operations on it"])

prop("C07", "Library calls return their result whatever the process's output streams do",
 "Parsing valid or invalid algs and moves, directly or through deserialisation, and evaluating algs that are valid or invalid for a puzzle returns the same value or error whether writes to standard error and standard output succeed, are short or interrupted, or fail because the disk is full or the reader is gone. A failing stream never turns a returned error into a panic, or affects other threads or later calls.",
 ["fault_sequences", "schedules"], "every sequence of write results (success, short, EINTR, EAGAIN, EPIPE, ENOSPC, EIO) on the process's standard streams during any program of library calls on one or more threads",
 "Tests run with working standard streams; none makes a diagnostic write fail.",
 [A + "parse.rs", A + "alg.rs", K + "kpuzzle.rs"],
 [("diagnostic written to standard error when an alg fails to parse", A + "parse.rs")],
 None, ["Ok/Err of each call"])

prop("C08", "The command-line tool's result depends only on the bytes it reads from stdin",
 "For `alg parse --stdin` and `alg invert --stdin`, splitting, delaying or interrupting the input stream in any way changes neither standard output nor the exit status: they are those of the same text given as an argument. If reading fails, or the text is not valid UTF-8 or not a valid alg, the tool exits unsuccessfully and prints no result; it never reports success on, or prints the inverse of, a part of the input. (A standard stream that was closed before the start counts, as the standard library documents, as an empty one.)",
 ["fault_sequences", "inputs"], "every chunking of the input, every placement of EINTR, of a hard read error and of early end-of-file-less failure, for every text",
 "The command-line tool has no tests at all.",
 ["alg_cli/main.rs", A + "parse.rs"],
 [("read_to_string(stdin()) before parsing", "alg_cli/main.rs")], None, ["stdout bytes", "exit status"])

prop("C09", "The command-line tool reports success only if its full result was delivered",
 "Whatever happens to writes on standard output and standard error (short writes, interruptions, full disk, closed pipe, I/O errors), what reaches standard output is a prefix of the one correct result, and the exit status is success only if the whole result was accepted. With streams that work (accepting everything, at once or in pieces and with interruptions), `invert` prints exactly the inverted alg and `parse` exits successfully exactly when the alg is valid; `completions` follows the same rule for the shell script it prints.",
 ["fault_sequences"], "every sequence of write results on both output streams, for every input text and both subcommands",
 "The command-line tool has no tests at all.",
 ["alg_cli/main.rs", A + "alg.rs"],
 [("println! of the inverted alg; exit codes", "alg_cli/main.rs")], None, ["stdout bytes", "exit status"])

prop("C10", "Memory of every value is released exactly once, on any thread and any path",
 "For any interleaving of creating, cloning, handing over and dropping algs, puzzles, patterns, transformations and buffers on several threads, including calls that return errors, each block of memory is released exactly once in the form it was requested, after the last use, and nothing accumulates when the same work is repeated. No call reads or writes outside a live block, compares bytes that were never written, or requests a zero-sized block.",
 ["schedules", "histories"], "every interleaving of creation, cloning, transfer and dropping over all value kinds and puzzle shapes, including empty orbits and puzzles, and error paths",
 "Tests never look at the allocator: leaks, double frees of reused blocks, wrong layouts and reads of uninitialised bytes are invisible to assertions on values.",
 [K + "packed_orbit_data.rs", K + "kpattern.rs", K + "ktransformation.rs", K + "kpuzzle.rs"],
 [("manual alloc/dealloc with the puzzle's layout; Drop and Clone of the packed bytes", K + "packed_orbit_data.rs")],
 [("bytes", "owning raw pointer", K + "packed_orbit_data.rs"), ("layout", "layout used for both alloc and dealloc", K + "kpuzzle.rs")],
 ["allocator calls", "memory accesses"])

prop("C11", "An allocation failure ends in the standard out-of-memory abort, nothing else",
 "If any single memory request made by any call fails, the process stops through the standard out-of-memory abort at that request. The call does not continue, return a result, or read or write through the missing block.",
 ["fault_sequences", "schedules"], "failure of the k-th allocation for every k, in every call of every program, also while other threads are running",
 "No test makes an allocation fail.",
 [K + "packed_orbit_data.rs"], [("allocation of the packed bytes", K + "packed_orbit_data.rs")], None, ["process outcome after the injected failure"])

prop("C12", "Update-in-place buffers and destinations always equal plain application",
 "After any history of updates, reads, copies and moves between threads, the current value of a pattern or transformation buffer equals applying the same transformations one after another to its initial value, and buffers compare equal exactly if their current values do. Applying into an existing destination gives the same value as a fresh application, whatever the destination held before, and leaves the source unchanged; an update that panics leaves the buffer's current value as it was.",
 ["histories", "schedules"], "every sequence of updates, reads, comparisons, transfers and failing updates on any number of buffers and destinations of any puzzle shape",
 "No test uses the buffers or the apply-into calls at all.",
 [K + "kpattern.rs", K + "ktransformation.rs"],
 [("two-slot buffers with a current flag", K + "kpattern.rs"), ("apply_transformation_into", K + "ktransformation.rs")],
 [("a, b, a_is_current", "the two slots and which one is current", K + "kpattern.rs")], ["current()", "=="])

prop("C13", "Printing and serialising to a failing or slow sink is exact and never panics",
 "Printing or serialising an alg, move, quantum move, error or puzzle definition into a sink delivers exactly the same text however the sink splits or delays the writes. If the sink fails, the call reports failure, what was delivered is a prefix of the full text and nothing is delivered after the failure, there is no panic, and printing the same value again to a working sink gives the full text.",
 ["fault_sequences", "inputs"], "every position at which the sink fails (permanently or once), every chunking and interruption of writes, for every printable value",
 "Tests print only into in-memory strings, which never fail.",
 [A + "alg.rs", A + "grouping.rs", A + "commutator.rs", A + "conjugate.rs", A + "move.rs", A + "amount.rs", A + "line_comment.rs", "cubing_core/src/kpuzzle/definition.rs"],
 [("Display implementations forward every write result", A + "grouping.rs"), ("Serialize through the text form", A + "alg.rs")], None, ["bytes delivered to the sink and the returned Result"])

prop("C14", "Deserialising from a stream is independent of chunking; faults give errors",
 "Reading algs, moves, quantum moves, puzzle definitions, pattern data and transformation data from a reader gives the same value as reading the same bytes from memory, however the reader splits, delays or interrupts them. If the reader fails or ends early the result is an error, never a different value, a partial value or a panic, and a later read of the intact bytes succeeds.",
 ["fault_sequences", "inputs"], "every chunking, interruption, failure position and truncation position of the byte stream, for every serialised value",
 "Tests deserialise only from complete in-memory strings.",
 [A + "alg.rs", A + "move.rs", A + "quantum_move.rs", "cubing_core/src/kpuzzle/definition.rs"],
 [("string visitors that must accept transient strings", A + "alg.rs"), ("derived Deserialize of the definition types", "cubing_core/src/kpuzzle/definition.rs")], None, ["returned Result"])

prop("C15", "A panic during a call leaves every other value intact and usable",
 "If a call panics part-way (because a sink, reader, hasher or formatter supplied by the caller panics, or because an index or orientation argument is out of the documented range), then, once the panic is caught or its thread is gone, every other value, on any thread, still has the content it had and every later call behaves as if the panicking call had never been made. No memory is leaked, released twice or left half-initialised in a reachable value.",
 ["fault_sequences", "schedules", "histories"], "every point at which a caller-supplied component can panic and every out-of-range argument, alone or repeated, with other threads running",
 "No test makes a callback panic or continues after a caught panic.",
 [K + "kpattern.rs", K + "ktransformation.rs", K + "packed_orbit_data.rs", A + "alg.rs"],
 [("range assertions before unchecked writes", K + "kpattern.rs"), ("Drop of partly built values during unwinding", K + "packed_orbit_data.rs")], None, ["content of all other values after the panic", "allocator balance"])

prop("C17", "Calls from inside callbacks, while unwinding or at thread end are ordinary calls",
 "A sink, reader, hasher or panic hook supplied by the caller may itself call the library while the library is calling it; a destructor may call it while its thread unwinds; a thread may go on calling it, and release values, in the destructors of its thread-local values while it ends; and a caller may hold iterators and references obtained from the library meanwhile. The outer call and the inner call each return what they return on their own, all other values keep their content, and nothing hangs, panics, crashes or stays allocated, whatever other threads do.",
 ["schedules", "programs", "fault_sequences"], "every pair of an outer and an inner call, every transfer at which the inner call is made, every point of a thread's end, with any other threads running",
 "No test calls the library from a callback, a destructor or a panic hook.",
 [A + "alg.rs", A + "move.rs", A + "quantum_move.rs", "cubing_core/src/kpuzzle/definition.rs", K + "kpattern.rs", K + "kpuzzle.rs"],
 [("Display, Serialize, Deserialize and Hash implementations that call the caller's code", A + "alg.rs"), ("orbit_info_iter and the other accessors that lend references", K + "kpuzzle.rs")], None, ["results of the outer and of the inner call", "progress of every thread"])

prop("C16", "The example solver's answers are right and do not depend on its random order",
 "Every full solution the f2lfast example prints solves the given scramble, and its link carries the same scramble and solution. For a fixed scramble and depth the set of full solutions printed is the same for every random ordering, random seed and clock, and the program's worker threads always finish.",
 ["configurations", "schedules"], "every random order of the search frames, every process randomness and clock, and every schedule of its threads, for every scramble within the depth limit",
 "The example has no tests; each run draws one random order.",
 ["cubing/examples/f2lfast/search.rs", "cubing/examples/f2lfast/main.rs", K + "kpattern.rs", A + "alg_builder.rs"],
 [("depth-limited search that shuffles frames with thread_rng", "cubing/examples/f2lfast/search.rs")], None, ["the printed solutions and links"])

# ---- properties with no schedule, clock, fault or randomness in them: listed, not claimed
prop("N01", "Printing an alg and parsing it back gives the same alg",
 "For every alg text that parses, printing the parsed alg gives a text that parses to an equivalent alg, and printing that again gives the same text. Numbers, layer prefixes, comments, newlines and puzzle-specific suffixes are preserved.",
 ["inputs"], "every alg text", "Tests print and re-parse a few dozen literals.",
 [A + "parse.rs", A + "alg.rs", A + "grouping.rs", A + "move.rs"], [("nom grammar and Display implementations", A + "parse.rs")])
prop("N02", "Inverting an alg gives an alg that undoes it",
 "For every alg valid on a puzzle, applying it and then its inverse restores every pattern, and inverting twice gives an equivalent alg.",
 ["inputs"], "every alg and puzzle", "Tests invert a handful of algs.", [A + "alg.rs", A + "grouping.rs", A + "commutator.rs", A + "conjugate.rs", A + "move.rs"],
 [("invert on every node kind", A + "alg_node.rs")])
prop("N03", "Transformations form a group and act on patterns consistently with algs",
 "Composition of transformations is associative with the identity neutral and inverses inverting, and applying an alg to a pattern equals applying its moves one after another, including repeats, groupings, commutators and conjugates.",
 ["inputs"], "every puzzle, alg and pattern", "Tests check a few fixed products on two puzzles.",
 [K + "ktransformation.rs", K + "kpattern.rs", K + "kpuzzle.rs"], [("apply_transformation, invert, self_multiply", K + "ktransformation.rs")])
prop("N04", "Moves resolve to the documented definition for every amount and direction",
 "A move with any amount is resolved through the puzzle's own or derived definition for the amount-one move, else for the exact move, else for its inverse, and its transformation is the corresponding power; a move without such a definition is an error.",
 ["inputs"], "every definition and move", "Tests look up moves of the two built-in puzzles only.", [K + "lookup_move.rs"], [("lookup_move", K + "lookup_move.rs")])
prop("N05", "Orientations with a modulus follow modular arithmetic for every orbit size",
 "For every supported number of orientations and every divisor used as orientation modulus, applying a twist adds it modulo that divisor, and reading back gives exactly the value written.",
 ["inputs"], "every (number of orientations, modulus, orientation, twist)", "One test uses one orbit with 12 orientations.",
 [K + "orientation_packer.rs"], [("packing, unpacking and transformation tables", K + "orientation_packer.rs")])
prop("N06", "Compile-time alg and move literals equal run-time parsing",
 "A move or alg literal accepted at compile time yields exactly the value that parsing the same text at run time yields, and texts that do not parse are rejected at compile time.",
 ["inputs", "programs"], "every literal", "Tests use one move and two alg literals.", ["cubing_macros/src/lib.rs"], [("parse_alg!, parse_move!", "cubing_macros/src/lib.rs")])
prop("N07", "Every text is either parsed or rejected in bounded time and stack",
 "For every text, parsing ends with a value or an error, in time and stack depth bounded by a modest function of its length.",
 ["inputs"], "every text", "Tests parse short well-formed texts and one list of a thousand moves.", [A + "parse.rs"], [("recursive-descent nom parser with many0", A + "parse.rs")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
