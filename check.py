#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]      decide one property
   check.py --setup                               build everything
   check.py --replay FILE                         run a replay file again
   check.py --selftest [PROPERTY...]              determinism self-check

Exit 0: the property held on every simulated run.  Exit 1: a line
`VIOLATION property=<id> replay=<path>` names the violation.  Exit 2: the
check itself is in trouble.  All randomness comes from VERIF_SEED."""
import fcntl, glob, hashlib, json, os, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
TARGET = os.path.join(HERE, "target")
CLIDIR = os.path.join(HERE, "cli")
SIMDIR = os.path.join(HERE, "sim")
F2LDIR = os.path.join(HERE, "f2l")
BIN = os.path.join(TARGET, "sim/x86_64-unknown-linux-gnu/debug")
SIM, F2L = os.path.join(BIN, "sim"), os.path.join(BIN, "f2l")
WORKERS = int(os.environ.get("VERIF_WORKERS", "8"))
sys.path.insert(0, HERE)

# plans per check; thorough runs explore the same sequence further
QUICK = {"C01": 14000, "C02": 6500, "C03": 7000, "C04": 30000, "C05": 11000, "C06": 40000, "C07": 10000,
         "C10": 18000, "C11": 1400, "C12": 7500, "C13": 13000, "C14": 12000, "C15": 7500, "C16": 4000, "C17": 10500}
CLI_QUICK = {"C08": 16000, "C09": 9000}
THOROUGH_FACTOR = 25
QUICK_SECS, THOROUGH_SECS = 260, 3600

FAULTS = ["preemption at a single memory access or synchronisation point", "long stall of one thread", "spurious futex wake-up", "clock jump",
          "process/thread random bytes (hash seeds) drawn", "allocation failure", "stream write: short", "stream write: EINTR", "stream write: EAGAIN",
          "stream write: EPIPE", "stream write: ENOSPC", "stream write: EIO", "memory block reused at the same address", "fresh memory filled with seeded poison",
          "futex wake-up in inverted order", "switch while blocked", "reallocation moved the block",
          "sink: short write", "sink: interrupted", "sink: error", "sink: panic", "sink: accepts zero bytes", "reader: short read", "reader: interrupted", "reader: error",
          "reader: early end", "reader: panic", "a call panicked", "fault 11", "map insertion order permuted", "value handed to another thread", "hasher: panic",
          "call from inside a call", "call from a sink", "call from a reader", "call from a hasher", "call while unwinding", "call from the panic hook",
          "call while an iterator or reference of the library is held", "thread works on in a thread-local destructor"]

REAL = ["cubing_core and cubing (all code: alg, kpuzzle, puzzles, macros' expansion), built from /repo's working tree",
        "Rust standard library (OnceLock, Arc, Mutex/futex code, std::thread, HashMap, formatting, io), rebuilt with instrumentation",
        "third-party crates serde, serde_json, nom, derive_more, more-asserts"]
STUB = ["thread scheduling and preemption (seeded scheduler, one thread runs at a time)", "futex, sched_yield, sleep, clocks (simulated)",
        "random bytes behind RandomState (getrandom, seeded)", "heap (simulated: poison, redzones, seeded reuse, injected failures)",
        "writes to file descriptors 1 and 2 (simulated stream with injected results)", "callers' sinks, readers and hashers (fault-injecting harness objects)"]


def die(msg):
    print("check: " + msg, file=sys.stderr)
    sys.exit(2)


def tree_hash(dirs):
    h = hashlib.sha256()
    for d in dirs:
        files = []
        for base, sub, names in os.walk(d):
            sub[:] = sorted(x for x in sub if x not in ("target", ".git"))
            files += [os.path.join(base, n) for n in names]
        for f in sorted(files):
            if os.path.islink(f) or not os.path.isfile(f):
                continue
            h.update(f.encode() + b"\0")
            with open(f, "rb") as fh:
                h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


def base_env():
    e = dict(os.environ)
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin")
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    for k in ("RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_INCREMENTAL", "CARGO_PROFILE_DEV_DEBUG", "RUSTUP_TOOLCHAIN", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_RUSTFLAGS"):
        e.pop(k, None)
    return e


def cargo_build(name, env_extra, args, cwd, dirs, fresh_pkgs, product, stampname="sources"):
    """Build, forcing the packages under test to be rebuilt when the sources
    differ from the last build in any way (not only by timestamps)."""
    tdir = os.path.join(TARGET, name)
    os.makedirs(tdir, exist_ok=True)
    with open(os.path.join(TARGET, name + ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        stamp = os.path.join(tdir, stampname + ".sha256")
        now = tree_hash(dirs)
        old = open(stamp).read() if os.path.exists(stamp) else ""
        if now != old:
            if os.path.exists(stamp):
                os.remove(stamp)
            for f in glob.glob(os.path.join(tdir, "**/.fingerprint/*"), recursive=True):
                if os.path.basename(f).rsplit("-", 1)[0] in fresh_pkgs:
                    shutil.rmtree(f, ignore_errors=True)
        env = base_env()
        env["CARGO_TARGET_DIR"] = tdir
        env.update(env_extra)
        t0 = time.time()
        for attempt in range(2):
            r = subprocess.run(["cargo", "+stable", "build", "--offline"] + args, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode == 0 and os.path.exists(product):
                break
            # a build that was cut short can leave unusable leftovers
            if attempt == 0 and "error[E" not in r.stdout:
                for f in glob.glob(os.path.join(tdir, "*")):
                    shutil.rmtree(f, ignore_errors=True)
                continue
            sys.stderr.write(r.stdout[-6000:])
            die("the harness does not build against /repo")
        with open(stamp, "w") as fh:
            fh.write(now)
        return time.time() - t0


SIM_ENV = {"RUSTC_BOOTSTRAP": "1", "RUSTFLAGS": "-Zsanitizer=thread -Zexternal-clangrt -Cllvm-args=-tsan-instrument-func-entry-exit=0"}
SIM_ARGS = ["--target", "x86_64-unknown-linux-gnu", "-Zbuild-std=std,panic_unwind"]
LIB = [REPO + "/cubing", REPO + "/cubing_core", REPO + "/cubing_macros"]


def build_sim(prop=None):
    if prop == "C16":
        return cargo_build("sim", SIM_ENV, SIM_ARGS, F2LDIR, LIB + [F2LDIR, SIMDIR], {"cubing", "cubing_core", "cubing_macros", "f2l"}, F2L, "f2l")
    return cargo_build("sim", SIM_ENV, SIM_ARGS, SIMDIR, LIB + [SIMDIR], {"cubing", "cubing_core", "cubing_macros", "sim"}, SIM)


def binary(prop):
    return F2L if prop == "C16" else SIM


def build_cli():
    """the real alg binary, the library reference and the stream stand-in"""
    tdir = os.path.join(TARGET, "cli")
    alg, ref, shim = os.path.join(tdir, "debug/alg"), os.path.join(tdir, "debug/algref"), os.path.join(tdir, "shim.so")
    dirs = [REPO + "/cubing", REPO + "/cubing_core", REPO + "/cubing_macros", REPO + "/alg_cli", CLIDIR]
    pk = {"cubing", "cubing_core", "cubing_macros", "alg-cli", "algref"}
    # --locked: cargo must not write in /repo
    t = cargo_build("cli", {}, ["--locked", "-p", "alg-cli", "--manifest-path", REPO + "/Cargo.toml"], CLIDIR, dirs, pk, alg)
    t += cargo_build("cli", {}, [], CLIDIR, dirs, pk, ref)
    src = os.path.join(CLIDIR, "shim.c")
    tmp = f"{shim}.{os.getpid()}"
    r = subprocess.run(["gcc", "-O1", "-Wall", "-shared", "-fPIC", "-o", tmp, src], stderr=subprocess.PIPE, text=True)
    if r.returncode:
        die("shim: " + r.stderr)
    os.rename(tmp, shim)
    return t, (alg, shim, ref)


def known():
    """[(property, match text, description)] of the recorded findings"""
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding:"):
                f = l[len("finding:"):].split("|")
                out.append((f[0].strip(), f[1].strip(), f[2].strip()))
    return out


def sim_env():
    e = {k: v for k, v in os.environ.items() if k in ("PATH", "HOME", "TMPDIR", "LANG")}
    e["RUST_BACKTRACE"] = "0"
    return e


def run_workers(prop, seed, n, secs, scratch):
    stop = os.path.join(scratch, "stop")
    ps = []
    for w in range(WORKERS):
        out = os.path.join(scratch, f"w{w}.json")
        cmd = [binary(prop), "explore", "--prop", prop, "--seed", str(seed), "--from", "0", "--to", str(n), "--step", str(WORKERS), "--offset", str(w), "--secs", str(secs), "--out", out, "--stop", stop]
        err = open(os.path.join(scratch, f"w{w}.err"), "w")
        ps.append((subprocess.Popen(cmd, env=sim_env(), stdin=subprocess.DEVNULL, stdout=err, stderr=err), out, w))
    best = None
    pending = list(ps)
    res = []
    while pending:
        time.sleep(0.05)
        for x in list(pending):
            p, out, w = x
            rc = p.poll()
            if rc is None:
                continue
            pending.remove(x)
            if rc not in (0, 1, 2) or not os.path.exists(out):
                for q, _, _ in pending:
                    q.kill()
                sys.stderr.write(open(os.path.join(scratch, f"w{w}.err")).read()[-3000:])
                die(f"worker {w} ended with {rc}")
            d = json.load(open(out))
            res.append(d)
            f = d.get("found")
            if f and (best is None or f["index"] < best["index"]):
                best = f
                with open(stop + ".tmp", "w") as fh:
                    fh.write(str(f["index"]))
                os.rename(stop + ".tmp", stop)
    return res, best


def replay_file(path):
    r = subprocess.run([binary(json.load(open(path)).get("property")), "replay", path], env=sim_env(), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    try:
        return r.returncode, json.loads(r.stdout.strip().splitlines()[-1])
    except Exception:
        return 2, {"error": (r.stdout + r.stderr)[-2000:]}


def bits(hexes):
    n = 0
    for h in hexes:
        n |= int(h, 16)
    return bin(n).count("1")


def merge(prop, tier, seed, res, found, n, wall, build_s, level):
    S = lambda k: sum(d[k] for d in res)
    runs, plans = S("runs"), S("plans")
    summ = {k: sum(d["sum"][k] for d in res) for k in res[0]["sum"] if k not in ("loghash", "schedhash")}
    scheds = set()
    for d in res:
        scheds.update(d["scheds"])
    faults = {}
    for i, name in enumerate(FAULTS):
        c, r = sum(d["fault"][i] for d in res), sum(d["faultruns"][i] for d in res)
        if c:
            faults[name] = {"injected": c, "in_runs": r}
    calls, outcomes, foreign = {}, {}, {}
    for d in res:
        for src, dst in (("calls", calls), ("outcomes", outcomes), ("foreign", foreign)):
            for k, v in d[src].items():
                dst[k] = dst.get(k, 0) + v
    busy = max(d["wall"] for d in res)
    cov = {
        "evaluations": runs,
        "distinct_nontrivial": S("nontrivial"),
        "rule": "one evaluation is one simulated process: a seeded plan (programs for 1-6 threads over generated and built-in puzzles, algs and data, plus a schedule, hash seed and fault sequence) executed under the simulator and judged; "
                "non-trivial and distinct: the plan has at least two calls and the run's event log (every allocation, atomic, futex, clock read, stream write and scheduling decision) has a hash no earlier run of the same worker had",
        "samples": [s for d in res[:2] for s in d["samples"]][:3],
        "plans": plans, "plans_requested": n, "cut_by_deadline": any(d["cut"] for d in res),
        "seed_range": {"base_seed": seed, "plan_indices": [0, n]},
        "runs_per_hour": int(runs / max(busy, 0.01) * 3600), "plans_per_hour": int(plans / max(busy, 0.01) * 3600),
        "simulated_time_s": round(summ["simns"] / 1e9, 3),
        "simulator_steps": summ["steps"], "memory_accesses_race_checked": summ["races_checked"], "atomic_operations": summ["natomic"], "futex_calls": summ["nfutex"],
        "thread_switches": summ["switches"], "preemptions": summ["preempts"], "allocations": summ["allocs"],
        "faults": faults,
        "distinct_interleavings": len(scheds),
        "distinct_interleavings_measure": "distinct hashes of the sequence of (step, thread, program point) scheduling decisions of a run, over all workers",
        "distinct_preemption_pairs": bits(d["cov"] for d in res), "program_points_reached": bits(d["pcs"] for d in res),
        "preemption_pairs_measure": "bits set in a 65536-bit map of hashed (program point preempted, program point resumed) pairs; program points likewise",
        "calls_of_the_api": calls, "call_outcomes": outcomes,
        "reference_calls_in_fresh_processes": sum(d["solo"]["calls"] for d in res), "reference_calls_answered_from_memo": sum(d["solo"]["hits"] for d in res),
        "reference_calls_not_rebuildable": sum(d["solo"]["unbuilt"] + d["solo"]["crashed"] for d in res),
        "findings_of_other_properties_ignored": foreign,
        "runs_not_judged": [h for d in res for h in d["harness"]][:20],
        "components_real": REAL, "components_stubbed": STUB, "build_s": round(build_s, 1),
    }
    if prop == "C16":
        cov["rule"] = ("one evaluation is one simulated process that runs the whole example program f2lfast on the command line of a seeded plan (a scramble up to three slots away from solved, depth 0 to 3), with seeded random bytes, clock, "
                       "results of its writes and schedule; the executions of one plan are compared with each other and with a reference puzzle; non-trivial and distinct: it searched, and its event log has a hash no earlier run of the same worker had")
        cov["executions_by_flags"] = cov.pop("calls_of_the_api")
        cov["components_real"] = ["cubing/examples/f2lfast (all of it, from main on)"] + REAL + ["clap, rand, url"]
        cov["components_stubbed"] = STUB[:-1]
    if prop == "C11":
        cov["runs_that_ended_in_the_standard_oom_abort"] = S("cleanoom")
    if prop == "C06":
        cov["loads_refused"], cov["loads_accepted"] = sum(d["c06"][0] for d in res), sum(d["c06"][1] for d in res)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov, "wall_s": round(wall, 2), "violations": 1 if found else 0,
          "assumptions": ["sequentially consistent memory between scheduling points; weak-memory effects show only as data races",
                          "sampled, not exhaustive: a clean batch is evidence, not proof",
                          "the instrumented debug build (debug assertions, overflow checks) stands for the shipped build"]}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    p = os.path.join(HERE, "evidence", prop + ".json")
    with open(p + ".tmp", "w") as fh:
        json.dump(ev, fh, indent=1)
    os.rename(p + ".tmp", p)


def check_sim(prop, tier, seed, level):
    t0 = time.time()
    build_s = build_sim(prop)
    n = QUICK[prop] * (THOROUGH_FACTOR if tier == "thorough" else 1)
    secs = int(os.environ.get("VERIF_SECS", THOROUGH_SECS if tier == "thorough" else QUICK_SECS))
    scratch = os.path.join(TARGET, "run", f"{prop}.{os.getpid()}")
    shutil.rmtree(scratch, ignore_errors=True)
    os.makedirs(scratch)
    try:
        print(f"{prop}: seed {seed}, {n} plans, {WORKERS} workers", flush=True)
        res, best = run_workers(prop, seed, n, secs, scratch)
        harness = [h for d in res for h in d["harness"]]
        # a run that exceeded a limit of the simulator itself is no verdict; a few
        # such runs are listed in the evidence, more mean that nothing was decided
        few = len(harness) <= 3 or len(harness) * 500 <= sum(d["runs"] for d in res)
        for h in harness[:10]:
            print("not judged: " + h, file=sys.stderr)
        if harness and not best and not few:
            merge(prop, tier, seed, res, None, n, time.time() - t0, build_s, level)
            die("runs that could not be judged")
        path = None
        if best:
            raw = os.path.join(scratch, "found.json")
            json.dump(best, open(raw, "w"))
            os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
            path = os.path.join(HERE, "replays", f"{prop}-seed{seed}-plan{best['index']}.json")
            small = os.path.join(scratch, "min.json")
            budget = 120 if tier == "thorough" else 60
            try:
                subprocess.run([binary(prop), "min", raw, small, "--secs", str(budget)], env=sim_env(), stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=budget + 150)
            except subprocess.TimeoutExpired:
                pass
            ok = None
            for cand in (small, raw):
                if not os.path.exists(cand):
                    continue
                rc, rep = replay_file(cand)
                if rc == 1 and rep.get("kind") == best["verdict"]["kind"]:
                    ok = (cand, rep)
                    break
            if not ok:
                die(f"plan {best['index']} failed ({best['verdict']}) but does not replay: simulator nondeterminism")
            shutil.copyfile(ok[0], path)
            rep = ok[1]
            rel = os.path.relpath(path, HERE)
            for kp, match, desc in known():
                if kp == f"property={prop}" and match in rep["kind"] + ": " + rep["msg"]:
                    # a listed finding stops the search at this plan; see DESIGN.md
                    print(f"KNOWN-FINDING: property={prop} {desc}")
                    merge(prop, tier, seed, res, None, n, time.time() - t0, build_s, level)
                    return 0
            print(f"{rep['kind']}: {rep['msg']}")
            print(f"replay again with: python3 /verif/check.py --replay /verif/{rel}")
        merge(prop, tier, seed, res, best, n, time.time() - t0, build_s, level)
        if best:
            print(f"VIOLATION property={prop} replay={path}", flush=True)
            return 1
        print(f"{prop}: held on {sum(d['runs'] for d in res)} simulated runs in {time.time() - t0:.0f} s", flush=True)
        return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def check_cli(prop, tier, seed, level):
    sys.path.insert(0, CLIDIR)
    import driver as D
    t0 = time.time()
    build_s, bins = build_cli()
    n = CLI_QUICK[prop] * (THOROUGH_FACTOR if tier == "thorough" else 1)
    secs = int(os.environ.get("VERIF_SECS", THOROUGH_SECS if tier == "thorough" else QUICK_SECS))
    scratch = os.path.join(TARGET, "run", f"{prop}.{os.getpid()}")
    shutil.rmtree(scratch, ignore_errors=True)
    os.makedirs(scratch)
    try:
        print(f"{prop}: seed {seed}, {n} plans, {WORKERS} workers", flush=True)
        res = D.explore_all(prop, seed, n, secs, WORKERS, scratch, bins)
        found = min((r["found"] for r in res if r["found"]), key=lambda f: f["index"], default=None)
        path = None
        if found:
            c, v = found["c"], found["verdict"]
            R = D.Runner(scratch, "min", *bins)
            if not D.same(R, c, v[0]):
                die(f"plan {found['index']} failed ({v}) but does not replay")
            c = D.minimise(R, c, v[0], 60)
            v, o = D.judge(R, c, {})
            R.close()
            os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
            path = os.path.join(HERE, "replays", f"{prop}-seed{seed}-plan{found['index']}.json")
            D.save(c, v, o, path, seed, found["index"])
            rc, rep = D.replay(path, scratch, bins)
            if rc != 1 or not rep["trace_identical"]:
                die("the minimised case does not replay exactly")
            print(f"{prop}: {v[0]}: {v[1]}")
            print(f"replay again with: python3 /verif/check.py --replay {path}")
        S = lambda k: sum(r[k] for r in res)
        M = {}
        for k in ("faults", "faultruns", "subs", "exits"):
            M[k] = {}
            for r in res:
                for a, b in r[k].items():
                    M[k][a] = M[k].get(a, 0) + b
        traces = set().union(*(r["traces"] for r in res))
        busy = max(r["wall"] for r in res)
        cov = {"evaluations": S("runs"), "distinct_nontrivial": S("nontrivial"),
               "rule": "one evaluation is one execution of the real alg binary with every stream result served from a seeded plan; plans hold one text (valid or invalid alg, possibly not UTF-8, 0 to ~60 KB) and six stream scripts; "
                       "non-trivial and distinct: at least two stream calls, and a combination of text, subcommand, stream trace and output no earlier run of the same worker had",
               "samples": [x for r in res for x in r["samples"]][:3],
               "plans": S("plans"), "plans_requested": n, "cut_by_deadline": any(r["cut"] for r in res), "cases_without_reference": S("skipped"),
               "seed_range": {"base_seed": seed, "plan_indices": [0, n]}, "runs_per_hour": int(S("runs") / max(busy, 0.01) * 3600), "plans_per_hour": int(S("plans") / max(busy, 0.01) * 3600),
               "simulated_time_s": 0, "simulated_time_note": "the tool neither reads the clock nor waits; delays of a stream are not observable to it other than as short, interrupted or would-block results",
               "stream_calls": {"reads": S("reads"), "writes": S("writes")},
               "faults": {k: {"injected": M["faults"][k], "in_runs": M["faultruns"][k]} for k in sorted(M["faults"])},
               "distinct_interleavings": len(traces), "distinct_interleavings_measure": "distinct hashes of (text, subcommand, sequence of stream calls with their results, output); the process has one thread",
               "runs_per_subcommand": M["subs"], "exit_statuses": M["exits"],
               "components_real": ["alg_cli/main.rs, cubing, cubing_core (the shipped binary, unmodified build from /repo's working tree)", "clap, clap_complete, nom", "Rust standard library", "C library other than the calls below"],
               "components_stubbed": ["read/readv on descriptor 0", "write/writev on descriptors 1 and 2", "getrandom", "clock_gettime"], "build_s": round(build_s, 1)}
        ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov, "wall_s": round(time.time() - t0, 2), "violations": 1 if found else 0,
              "assumptions": ["sampled, not exhaustive: a clean batch is evidence, not proof", "EBADF is left out: the standard library documents a closed standard stream as an empty or swallowing one",
                              "C08 compares the stream with the same text as an argument, C09 with the library's own inverse"]}
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        p = os.path.join(HERE, "evidence", prop + ".json")
        with open(p + ".tmp", "w") as fh:
            json.dump(ev, fh, indent=1)
        os.rename(p + ".tmp", p)
        if found:
            for kp, match, desc in known():
                if kp == f"property={prop}" and match in v[0] + ": " + v[1]:
                    print(f"KNOWN-FINDING: property={prop} {desc}")
                    return 0
            print(f"VIOLATION property={prop} replay={path}", flush=True)
            return 1
        print(f"{prop}: held on {S('runs')} runs of the tool in {time.time() - t0:.0f} s", flush=True)
        return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def selftest(props):
    """Every run twice, in different processes, ranges and worker counts: the
    event logs must be identical."""
    build_sim()
    build_sim("C16")
    bad = 0
    for prop in [p for p in props or sorted(CLI_QUICK) if p in CLI_QUICK]:
        sys.path.insert(0, CLIDIR)
        import driver as D
        bins = build_cli()[1]
        scratch = os.path.join(TARGET, "run", f"self.{os.getpid()}")
        os.makedirs(scratch)
        sets = []
        for k in (2, 7):
            res = D.explore_all(prop, int(os.environ.get("VERIF_SEED", "1")), 300, 600, k, scratch, bins)
            sets.append((set().union(*(r["traces"] for r in res)), sum(r["plans"] for r in res)))
        shutil.rmtree(scratch, ignore_errors=True)
        same = sets[0] == sets[1]
        bad += not same
        print(prop, "identical event logs" if same else "DIFFER", len(sets[0][0]), flush=True)
    for prop in [p for p in props or sorted(QUICK) if p in QUICK]:
        logs = []
        for parts in (1, 5):
            ps = [subprocess.Popen([binary(prop), "det", "--prop", prop, "--seed", os.environ.get("VERIF_SEED", "1"), "--from", str(k), "--to", "200", "--step", str(parts)], env=sim_env(), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True) for k in range(parts)]
            lines = []
            for p in ps:
                lines += p.communicate()[0].splitlines()
            logs.append(sorted(lines))
        same = logs[0] == logs[1] and len(logs[0]) == 200
        bad += not same
        print(prop, "identical event logs" if same else "DIFFER", len(logs[0]), flush=True)
    return 2 if bad else 0


def main():
    a = sys.argv[1:]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        i = a.index("--tier")
        tier = a[i + 1]
        del a[i:i + 2]
    if tier not in ("quick", "thorough"):
        die("tier")
    if a == ["--setup"]:
        print(f"simulator built in {build_sim():.0f} s")
        print(f"simulator for the example program built in {build_sim('C16'):.0f} s")
        print(f"command-line tool built in {build_cli()[0]:.0f} s")
        return 0
    if a and a[0] == "--selftest":
        return selftest(a[1:])
    if len(a) == 2 and a[0] == "--replay":
        if json.load(open(a[1])).get("engine") == "cli":
            sys.path.insert(0, CLIDIR)
            import driver as D
            scratch = os.path.join(TARGET, "run", f"replay.{os.getpid()}")
            os.makedirs(scratch)
            try:
                rc, rep = D.replay(a[1], scratch, build_cli()[1])
            finally:
                shutil.rmtree(scratch, ignore_errors=True)
        else:
            build_sim(json.load(open(a[1])).get("property"))
            rc, rep = replay_file(a[1])
        print(json.dumps(rep, indent=1))
        return rc
    if len(a) != 1 or a[0] not in QUICK and a[0] not in CLI_QUICK:
        die("usage: check.py PROPERTY | --setup | --replay FILE | --selftest")
    if a[0] in CLI_QUICK:
        return check_cli(a[0], tier, seed, "exploration")
    level = "fault_enumeration" if a[0] == "C11" else "exploration"
    return check_sim(a[0], tier, seed, level)


if __name__ == "__main__":
    sys.exit(main())
