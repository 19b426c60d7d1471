"""Simulated runs of the real `alg` binary (C08, C09): every read of standard
input and every write to standard output and error is answered by shim.c from
a seeded plan, so one (seed, plan index) is one exactly repeatable execution."""
import base64, errno, hashlib, json, mmap, multiprocessing, os, random, signal, struct, subprocess, sys, time

MB = 1 << 20
SIZE, OPS, EVMAX = 8 * MB, 4096, 100000
MAXTEXT = MB - 1
ARGMAX = 131000
SUBS = ["parse", "invert"]
SHELLS = ["bash", "elvish", "fish", "powershell", "zsh"]
# op: [0, n] move up to n bytes; [1, errno] fail; [2, 0] zero-length write
READ_ERRS = ["EIO", "EISDIR", "EINVAL", "ENOMEM", "ECONNRESET", "ETIMEDOUT"]
WRITE_ERRS = ["ENOSPC", "EPIPE", "EIO", "EDQUOT", "EFBIG", "ECONNRESET"]


class Runner:
    def __init__(self, scratch, name, alg, shim, ref):
        self.alg = alg
        self.shm = os.path.join(scratch, f"shm.{name}")
        with open(self.shm, "wb") as f:
            f.truncate(SIZE)
        self.fd = os.open(self.shm, os.O_RDWR)
        self.m = mmap.mmap(self.fd, SIZE)
        self.env = {"LD_PRELOAD": shim, "CLI_SHM": self.shm, "PATH": "/usr/bin:/bin", "RUST_BACKTRACE": "0"}
        self.null = os.open("/dev/null", os.O_RDWR)
        self.refbin, self.ref = ref, None
        self.runs = 0

    def close(self):
        self.m.close()
        os.close(self.fd)
        os.unlink(self.shm)
        if self.ref:
            self.ref.stdin.close()
            self.ref.wait()

    def reference(self, text):
        """(valid, inverse text) from the library, or None if the call itself failed"""
        for _ in range(2):
            if not self.ref:
                self.ref = subprocess.Popen([self.refbin], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env={"PATH": "/usr/bin:/bin"})
            try:
                self.ref.stdin.write(struct.pack("<I", len(text)) + text)
                self.ref.stdin.flush()
                h = self.ref.stdout.read(5)
                st, n = struct.unpack("<BI", h)
                out = self.ref.stdout.read(n) if n else b""
                return None if st == 2 else (st == 1, out)
            except (BrokenPipeError, struct.error):
                self.ref.wait()
                self.ref = None
        return None

    def run(self, args, data=b"", ins=(), outs=(), errs=(), tin=0, tout=0, terr=0, seed=1):
        """One process; returns its observable behaviour."""
        m = self.m
        m[0:128] = bytes(128)
        assert len(data) <= MAXTEXT and max(len(ins), len(outs), len(errs)) <= OPS
        h = [0] * 18
        h[4], h[6], h[7], h[8], h[9], h[10], h[11], h[12] = len(data), len(ins), len(outs), len(errs), tout, terr, tin, seed & 0xffffffff
        m[0:72] = struct.pack("<18I", *h)
        for w, ops in enumerate((ins, outs, errs)):
            if ops:
                b = b"".join(struct.pack("<II", k, min(n, 0xffffffff)) for k, n in ops)
                m[4096 + w * OPS * 8:4096 + w * OPS * 8 + len(b)] = b
        if data:
            m[MB:MB + len(data)] = data
        acts = [(os.POSIX_SPAWN_DUP2, self.null, 0), (os.POSIX_SPAWN_DUP2, self.null, 1), (os.POSIX_SPAWN_DUP2, self.null, 2)]
        pid = os.posix_spawn(self.alg, ["alg"] + args, self.env, file_actions=acts, setsigdef=[signal.SIGALRM, signal.SIGPIPE])
        _, st = os.waitpid(pid, 0)
        self.runs += 1
        h = struct.unpack("<18I", m[0:72])
        nev = min(h[0], EVMAX)
        o = {"out": bytes(m[2 * MB:2 * MB + h[1]]), "err": bytes(m[4 * MB:4 * MB + h[2]]), "flag": h[3], "inpos": h[5],
             "exit": os.waitstatus_to_exitcode(st), "events": bytes(m[5 * MB:5 * MB + 16 * nev])}
        if o["exit"] == 98:
            raise RuntimeError("shim did not start")
        return o


def ev_list(raw, cap=400):
    names = {1: "read", 2: "write"}
    out = []
    for i in range(0, min(len(raw), cap * 16), 16):
        c, fd, want, got = struct.unpack("<IIIi", raw[i:i + 16])
        out.append(f"{names[c]}(fd {fd}, {want}) = " + (str(got) if got >= 0 else errno.errorcode.get(-got, str(got))))
    return out


# ---------------------------------------------------------------- texts
FAM = ["R", "U", "F", "L", "D", "B", "r", "Rw", "x", "y", "M", "UR", "ALL", "U_SQ_", "BR", "u", "_SLASH_", "dr", "DL"]
WORDS = ["cross", "OLL", "größe", "日本語", "🧊 cube", "a//b", "(x", "[R, U", "1. F2L", "tab\there", "é" * 7, "…"]


def amount(r):
    return r.choice(["", "", "", "'", "2", "2'", "3", str(r.randrange(0, 120)), str(r.randrange(0, 2147483648)) + r.choice(["", "'"])])


def move(r):
    x = r.random()
    f = r.choice(FAM)
    if x < 0.70:
        return f + amount(r)
    if x < 0.78:
        return str(r.randrange(1, 20)) + f + amount(r)
    if x < 0.84:
        return f"{r.randrange(1, 9)}-{r.randrange(1, 20)}{f}" + amount(r)
    if x < 0.90:
        return f + r.choice(["++", "--"])
    if x < 0.97:
        return f + str(r.randrange(0, 7)) + r.choice("+-")
    return "/"


def node(r, depth):
    x = r.random()
    if depth > 0 and x < 0.07:
        return "(" + alg(r, r.randrange(0, 5), depth - 1) + ")" + amount(r)
    if depth > 0 and x < 0.12:
        return "[" + alg(r, r.randrange(1, 4), depth - 1) + r.choice([", ", ": ", ",", ":"]) + alg(r, r.randrange(1, 4), depth - 1) + "]"
    if x < 0.15:
        return f"({r.randrange(-6, 7)}, {r.randrange(-6, 7)})"
    if x < 0.18:
        return "."
    if x < 0.22:
        return "\n"
    if x < 0.27:
        return "// " + " ".join(r.choice(WORDS) for _ in range(r.randrange(0, 4))) + "\n"
    return move(r)


def alg(r, n, depth):
    return " ".join(node(r, depth) for _ in range(n))


def text(r):
    """A byte string: mostly valid algs of all sizes, some invalid, some not UTF-8."""
    x = r.random()
    n = r.choice([0, 1, 1, 2, 3, 4, 6, 9, 14, 25, 25, 60, 200])
    if x < 0.06:
        n = r.randrange(1500, 6000)
    t = alg(r, n, 3)
    if r.random() < 0.15:
        t += r.choice([" ", "\n", "\n\n", " // end", "//"])
    if r.random() < 0.1:
        t = r.choice([" ", "\n", "// start\n", "\ufeff", "   "]) + t
    if 0.06 <= x < 0.08 and t:  # beyond the sizes of pipes and buffers
        n = r.choice([65536, 65537, 70000, 100000, 131072, 140000, 262145, 500000])
        t = (t + " ") * (n // (len(t) + 1)) + alg(r, 3, 0)
    b = t.encode()
    y = r.random()
    if y < 0.14 and b:  # invalid in some way
        k = r.randrange(5)
        i = r.randrange(len(b) + 1)
        if k == 0:
            b = b[:i] + r.choice(["$", "\0", "]", ")", "\r\n", "R R", "\t", "''", "2", "[", "(", ","]).encode() + b[i:]
        elif k == 1:
            b = b[:i] + r.choice([b"\xff", b"\xc3", b"\xe6\x97", b"\xf0\x9f\xa7", b"\x80", b"\xed\xa0\x80", b"\xc0\xaf"]) + b[i:]
        elif k == 2:
            b = b[:i]
        elif k == 3:
            b = b + r.choice([" R'2U(", " \0", " [R, U", " // caf\xc3", " \xe6\x97\xa5"]).encode("latin-1")
        else:
            i = min(i, len(b) - 1)
            b = b[:i] + bytes([b[i] ^ (1 << r.randrange(8))]) + b[i + 1:]
    return b[:MAXTEXT]


def chunk_size(r, n):
    return r.choice([1, 1, 2, 3, 7, 15, 16, 31, 32, 33, 64, 100, 1023, 4096, 8191, 8192, 8193, 65536, max(1, n // 2), max(1, n - 1), max(1, n)])


def read_ops(r, n):
    """Deliveries of n bytes: short reads, interruptions, would-block, errors."""
    ops, style, pos = [], r.randrange(6), 0
    fixed = chunk_size(r, n)
    while pos < n and len(ops) < OPS - 64:
        while r.random() < (0.0, 0.3, 0.3, 0.05, 0.5, 0.2)[style] and len(ops) < OPS - 64:
            ops.append([1, errno.EINTR])
        k = 1 if style == 2 and n < 3000 else fixed if style in (1, 3) else chunk_size(r, n)
        ops.append([0, k])
        pos += k
    if r.random() < 0.3:
        ops += [[1, errno.EINTR]] * r.randrange(1, 4)
    return ops


def write_ops(r, n):
    ops, style = [], r.randrange(5)
    for _ in range(r.choice([0, 1, 2, 3, 5, 8, 20, 60])):
        x = r.random()
        ops.append([1, errno.EINTR] if x < (0.1, 0.5, 0.0, 0.3, 0.2)[style] else [0, r.choice([1, 1, 2, 3, 5, 17, 100, 1000, max(1, n // 2), max(1, n - 1)])])
    return ops


def plan(prop, seed, i):
    r = random.Random(f"{prop}:{seed}:{i}")
    t = text(r)
    cases = []
    if prop == "C08":
        for _ in range(6):
            sub = r.choice(SUBS)
            c = {"sub": sub, "ins": read_ops(r, len(t)), "tin": 0, "seed": r.randrange(1 << 32)}
            x = r.random()
            if x < 0.35:  # the read fails for good after some bytes (possibly after all of them)
                cut = r.randrange(len(c["ins"]) + 1) if r.random() < 0.7 else len(c["ins"])
                c["ins"] = c["ins"][:cut]
                c["tin"] = getattr(errno, r.choice(READ_ERRS))
            elif x < 0.5:  # would-block now and then
                for _ in range(r.randrange(1, 4)):
                    c["ins"].insert(r.randrange(len(c["ins"]) + 1), [1, errno.EAGAIN])
            elif x < 0.6:  # one passing error
                c["ins"].insert(r.randrange(len(c["ins"]) + 1), [1, getattr(errno, r.choice(READ_ERRS))])
            cases.append(c)
    else:
        for _ in range(6):
            x = r.random()
            sub = "invert" if x < 0.72 else "parse" if x < 0.9 else "completions"
            c = {"sub": sub, "stdin": r.random() < 0.5, "outs": write_ops(r, len(t)), "errs": write_ops(r, 30), "tout": 0, "terr": 0, "ins": read_ops(r, len(t)) if r.random() < 0.3 else [], "seed": r.randrange(1 << 32)}
            if sub == "completions":
                c["shell"] = r.choice(SHELLS)
                c["outs"] = write_ops(r, 3000)
            if r.random() < 0.2:
                c["outs"], c["errs"] = [], []
            y = r.random()
            for which, tail, p in (("outs", "tout", 0.55), ("errs", "terr", 0.3)):
                if r.random() < p:
                    z = r.random()
                    e = getattr(errno, r.choice(WRITE_ERRS))
                    if z < 0.6:
                        c[tail] = e
                    elif z < 0.8:
                        c[which].insert(r.randrange(len(c[which]) + 1), [1, e])
                    elif z < 0.9:
                        c[which].insert(r.randrange(len(c[which]) + 1), [1, errno.EAGAIN])
                    else:
                        c[which].insert(r.randrange(len(c[which]) + 1), [2, 0])
            cases.append(c)
    for c in cases:
        c["prop"], c["text"] = prop, t
    return cases


# ---------------------------------------------------------------- oracles
def stream_faults(events):
    """errors and zero-length results the process was given: {fd: set}"""
    f = {0: set(), 1: set(), 2: set()}
    for i in range(0, len(events), 16):
        c, fd, want, got = struct.unpack("<IIIi", events[i:i + 16])
        if got < 0:
            f[fd].add(-got)
        elif got == 0 and c == 2 and want:
            f[fd].add(0)
    return f


def show(b):
    return repr(b if len(b) <= 120 else b[:60] + b"..." + b[-50:])


def utf8(b):
    try:
        b.decode()
        return True
    except UnicodeDecodeError:
        return False


def as_argument(R, sub, t, memo):
    k = (sub, t)
    if k not in memo:
        if b"\0" in t or len(t) > ARGMAX:
            o = R.run([sub, "--stdin"], t)
        else:
            o = R.run([sub, "--", t.decode()])
        if len(memo) > 64:
            memo.clear()
        memo[k] = (o["out"], o["exit"], o["flag"])
    return memo[k]


def judge(R, c, memo):
    """Run one case; (verdict or None, observation)."""
    t, sub = c["text"], c["sub"]
    if c["prop"] == "C08":
        o = R.run([sub, "--stdin"], t, ins=c["ins"], tin=c["tin"], seed=c["seed"])
        f = stream_faults(o["events"])
        hard = f[0] - {errno.EINTR, errno.EAGAIN}
        if o["flag"]:
            return ("endless", "the tool does not finish"), o
        quiet_failure = o["exit"] != 0 and o["out"] == b""
        if hard:
            # what was read so far must not be taken for the whole input
            if quiet_failure:
                return None, o
            if not c["tin"] and utf8(t):  # a passing error: reading on to the true end also counts as reading it all
                out, ex, _ = as_argument(R, sub, t, memo)
                if (o["out"], o["exit"]) == (out, ex) and o["inpos"] == len(t):
                    return None, o
            return ("partial-input", f"reading failed after {o['inpos']} of {len(t)} bytes, but exit status {o['exit']} and output {show(o['out'])}"), o
        if not utf8(t):
            if quiet_failure:
                return None, o
            return ("not-utf8", f"the input is not UTF-8, but exit status {o['exit']} and output {show(o['out'])}"), o
        out, ex, fl = as_argument(R, sub, t, memo)
        if errno.EAGAIN in f[0] and quiet_failure:
            return None, o
        if fl:
            return None, o
        if o["exit"] != ex:
            return ("exit-status", f"exit status {o['exit']} instead of {ex} for the same text as an argument; output {show(o['out'])} instead of {show(out)}"), o
        if o["out"] != out:
            return ("output", f"output {show(o['out'])} instead of {show(out)}"), o
        if ex != 0 and out != b"":
            return ("result-with-failure", f"unsuccessful exit {ex} but output {show(out)}"), o
        ref = R.reference(t)
        if len(t) > ARGMAX and ref is not None and ref[0] and (ex != 0 or out != (ref[1] + b"\n" if sub == "invert" else b"")):
            return ("output", f"output {show(out)} and exit status {ex} for a valid alg of {len(t)} bytes"), o
        if ref is not None and not ref[0] and (ex == 0 or out):
            return ("invalid-alg", f"not a valid alg, but exit status {ex} and output {show(out)}"), o
        return None, o
    # C09
    if sub == "completions":
        args, data = ["completions", c["shell"]], b""
        k = ("completions", c["shell"])
        if k not in memo:
            w = R.run(args)
            memo[k] = (w["out"], w["exit"], w["flag"])
        full, ex0, fl = memo[k]
        want = 0
        if ex0 != 0 or fl or not full:
            return ("completions", f"completions with working streams: exit status {ex0}, {len(full)} bytes"), {"exit": ex0, "out": full, "err": b"", "events": b"", "flag": fl}
    else:
        if c["stdin"] or b"\0" in t or len(t) > ARGMAX or not utf8(t):
            args, data = [sub, "--stdin"], t
        else:
            args, data = [sub, "--", t.decode()], b""
        ref = R.reference(t)
        if ref is None:
            return None, None
        valid, inv = ref
        full = inv + b"\n" if valid and sub == "invert" else b""
        want = 0 if valid else 1
    o = R.run(args, data, ins=c["ins"], outs=c["outs"], errs=c["errs"], tout=c["tout"], terr=c["terr"], seed=c["seed"])
    f = stream_faults(o["events"])
    if o["flag"]:
        return ("endless", "the tool does not finish"), o
    if not full.startswith(o["out"]):
        return ("wrong-output", f"delivered {show(o['out'])}, which is no prefix of {show(full)}"), o
    if want == 1 and o["exit"] == 0:
        return ("success-on-invalid", "exit status 0 for an invalid alg"), o
    if o["exit"] == 0 and o["out"] != full:
        return ("lost-output", f"exit status 0, but only {len(o['out'])} of {len(full)} bytes of the result were accepted"), o
    works = not (f[1] - {errno.EINTR}) and not (f[2] - {errno.EINTR})
    if works and (o["exit"] != 0) != (want != 0):
        return ("exit-status", f"exit status {o['exit']} although the streams work and the alg is {'valid' if want == 0 else 'invalid'}"), o
    if works and o["out"] != full:
        return ("incomplete", f"the streams work, but {len(o['out'])} of {len(full)} bytes were printed"), o
    return None, o


# ---------------------------------------------------------------- exploration
def explore(a):
    prop, seed, off, step, n, secs, scratch, bins = a
    R = Runner(scratch, f"{prop}.{off}", *bins)
    st = {"plans": 0, "runs": 0, "faults": {}, "faultruns": {}, "traces": set(), "nontrivial": 0, "subs": {}, "exits": {}, "skipped": 0, "cut": False, "samples": [], "found": None, "reads": 0, "writes": 0, "bytes_in": 0, "bytes_out": 0}
    t0 = time.time()
    stop = os.path.join(scratch, "stop")
    try:
        for i in range(off, n, step):
            if time.time() - t0 > secs:
                st["cut"] = True
                break
            if i % 64 < step and os.path.exists(stop) and int(open(stop).read() or "0") < i:
                break
            memo = {}
            for j, c in enumerate(plan(prop, seed, i)):
                v, o = judge(R, c, memo)
                if o is None:
                    st["skipped"] += 1
                    continue
                st["subs"][c["sub"]] = st["subs"].get(c["sub"], 0) + 1
                st["exits"][str(o["exit"])] = st["exits"].get(str(o["exit"]), 0) + 1
                h = hashlib.sha256(o["events"] + o["out"] + b"|" + c["sub"].encode() + b"|" + c["text"]).digest()[:8]
                if h not in st["traces"]:
                    st["traces"].add(h)
                    st["nontrivial"] += len(o["events"]) > 16
                seen = {}
                for k in range(0, len(o["events"]), 16):
                    cl, fd, want, got = struct.unpack("<IIIi", o["events"][k:k + 16])
                    name = {0: "stdin", 1: "stdout", 2: "stderr"}[fd]
                    st["reads" if cl == 1 else "writes"] += 1
                    if got < 0:
                        key = f"{name}: {errno.errorcode.get(-got, -got)}"
                    elif cl == 2 and got < want:
                        key = f"{name}: " + ("zero-length write" if got == 0 else "short write")
                        st["bytes_out"] += got
                    elif cl == 1 and 0 < got < want:
                        key = f"{name}: short read"
                        st["bytes_in"] += got
                    else:
                        continue
                    seen[key] = seen.get(key, 0) + 1
                for k, x in seen.items():
                    st["faults"][k] = st["faults"].get(k, 0) + x
                    st["faultruns"][k] = st["faultruns"].get(k, 0) + 1
                if len(st["samples"]) < 2 and len(seen) >= 2 and len(o["events"]) <= 16 * 30:
                    st["samples"].append({"plan": i, "case": j, "sub": c["sub"], "text": show(c["text"]), "exit": o["exit"], "stdout": show(o["out"]), "events": ev_list(o["events"])})
                if v:
                    st["found"] = {"index": i, "case": j, "verdict": v, "c": c}
                    break
            st["plans"] += 1
            if st["found"]:
                with open(stop + f".{off}", "w") as f:
                    f.write(str(i))
                os.rename(stop + f".{off}", stop)
                break
        st["runs"] = R.runs
        st["wall"] = time.time() - t0
    finally:
        R.close()
    return st


def same(R, c, kind):
    v, o = judge(R, c, {})
    return v is not None and v[0] == kind


def minimise(R, c, kind, secs):
    """Shortest text and fewest stream results that still fail the same way."""
    end = time.time() + secs
    c = dict(c)

    def shrink(get, put):
        seq = get(c)
        size = max(1, len(seq) // 2)
        while size >= 1 and time.time() < end:
            i, changed = 0, False
            while i < len(seq) and time.time() < end:
                cand = seq[:i] + seq[i + size:]
                d = put(dict(c), cand)
                if same(R, d, kind):
                    seq = cand
                    c.update(d)
                    changed = True
                else:
                    i += size
            if not changed or size == 1:
                if size == 1:
                    break
            size = max(1, size // 2)

    for key in ("tin", "tout", "terr"):
        if c.get(key):
            d = dict(c, **{key: 0})
            if same(R, d, kind):
                c.update(d)

    def setter(key):
        def put(d, v):
            d[key] = v
            return d
        return put

    for _ in range(2):
        for key in ("ins", "outs", "errs", "text"):
            if c.get(key):
                shrink(lambda d, key=key: d[key], setter(key))
    return c


def save(c, v, o, path, seed, index):
    d = dict(c, text=base64.b64encode(c["text"]).decode())
    doc = {"engine": "cli", "property": c["prop"], "seed": seed, "plan": index, "verdict": {"kind": v[0], "msg": v[1]}, "case": d,
           "text": show(c["text"]), "trace": ev_list(o["events"]), "trace_hash": hashlib.sha256(o["events"] + o["out"]).hexdigest(), "exit": o["exit"], "stdout": show(o["out"]), "stderr": show(o["err"])}
    with open(path, "w") as f:
        json.dump(doc, f, indent=1, ensure_ascii=False)


def load(path):
    doc = json.load(open(path))
    c = dict(doc["case"])
    c["text"] = base64.b64decode(c["text"])
    return doc, c


def replay(path, scratch, bins):
    doc, c = load(path)
    R = Runner(scratch, "replay", *bins)
    try:
        v, o = judge(R, c, {})
        rep = {"kind": v[0] if v else None, "msg": v[1] if v else "held", "trace_identical": hashlib.sha256(o["events"] + o["out"]).hexdigest() == doc["trace_hash"] if o else None,
               "exit": o and o["exit"], "stdout": o and show(o["out"]), "trace": ev_list(o["events"]) if o else []}
        return (1 if v else 0), rep
    finally:
        R.close()


def explore_all(prop, seed, n, secs, workers, scratch, bins):
    with multiprocessing.get_context("fork").Pool(workers) as p:
        return p.map(explore, [(prop, seed, w, workers, n, secs, scratch, bins) for w in range(workers)], 1)
