//! C16: the example program `f2lfast`, as a whole, under the simulator.
//!
//! The example's own source files are compiled into this binary; its `main`
//! runs as the first simulated thread, on command line arguments, random
//! bytes, clock, standard output and scheduling chosen by a seeded plan.
#![feature(alloc_error_hook)]
#![allow(dead_code)]

#[path = "/repo/cubing/examples/f2lfast/main.rs"]
mod app;
// the example refers to its modules by `crate::…`
#[path = "/repo/cubing/examples/f2lfast/patterns.rs"]
mod patterns;
#[path = "/repo/cubing/examples/f2lfast/search.rs"]
mod search;
#[path = "/repo/cubing/examples/f2lfast/triggers.rs"]
mod triggers;
#[path = "/repo/cubing/examples/f2lfast/twizzle_link.rs"]
mod twizzle_link;

#[path = "../../sim/src/rt.rs"]
mod rt;

use rt::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::time::{Duration, Instant};

#[global_allocator]
static GLOBAL: rt::SimAlloc = rt::SimAlloc;

// ---------------------------------------------------------------- plans
#[derive(Clone, Debug, Default, Serialize, Deserialize)]
struct Sched {
    seed_sched: u64,
    seed_hash: u64,
    mode: u32,
    p_hot: u32,
    pct_d: u32,
    pct_len: u32,
    alloc_policy: u32,
    poison: u32,
    spurious: u32,
    clockjump: u32,
    wake_mode: u32,
    stall_tid: u32,
    realloc_move: u32,
    io: Vec<u32>,
    trace: Vec<(u64, u32, u32)>,
}
/// One execution of the program.
#[derive(Clone, Debug, Default, Serialize, Deserialize)]
struct Variant {
    flags: Vec<String>,
    sched: Sched,
}
/// One scramble, searched by several executions.
#[derive(Clone, Debug, Default, Serialize, Deserialize)]
struct Plan {
    index: u64,
    scramble: Vec<String>,
    max_depth: usize,
    start_depth: Option<usize>,
    variants: Vec<Variant>,
}
#[derive(Clone, Debug, Default, Serialize, Deserialize)]
struct Verdict {
    kind: String,
    msg: String,
    at: String,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Found {
    property: String,
    seed: u64,
    index: u64,
    verdict: Verdict,
    plan: Plan,
    #[serde(default)]
    note: String,
}

// ---------------------------------------------------------------- reference puzzle
type Orbits = BTreeMap<String, (Vec<usize>, Vec<usize>)>;
struct Cube {
    moves: BTreeMap<String, Orbits>,
    mods: BTreeMap<String, usize>,
    start: Orbits,
}
impl Cube {
    fn load() -> Cube {
        let v: serde_json::Value = serde_json::from_slice(&std::fs::read("/repo/cubing_core/src/puzzles/3x3x3.kpuzzle.json").expect("3x3x3 definition")).expect("JSON");
        let nums = |v: &serde_json::Value| v.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect::<Vec<_>>();
        let mut c = Cube { moves: BTreeMap::new(), mods: BTreeMap::new(), start: BTreeMap::new() };
        for o in v["orbits"].as_array().unwrap() {
            let n = o["orbitName"].as_str().unwrap().to_string();
            let d = &v["defaultPattern"][&n];
            c.start.insert(n.clone(), (nums(&d["pieces"]), nums(&d["orientation"])));
            c.mods.insert(n, o["numOrientations"].as_u64().unwrap() as usize);
        }
        for (m, d) in v["moves"].as_object().unwrap() {
            let mut t = Orbits::new();
            for n in c.mods.keys() {
                t.insert(n.clone(), (nums(&d[n]["permutation"]), nums(&d[n]["orientationDelta"])));
            }
            c.moves.insert(m.clone(), t);
        }
        c
    }
    /// The pattern after the moves; None: not moves of this form.
    fn run(&self, alg: &[&str]) -> Option<Orbits> {
        let mut p = self.start.clone();
        for tok in alg {
            if *tok == "." {
                continue;
            }
            let (body, inv) = match tok.strip_suffix('\'') {
                Some(b) => (b, true),
                None => (*tok, false),
            };
            let fam = body.trim_end_matches(|c: char| c.is_ascii_digit());
            let n: usize = if fam.len() == body.len() { 1 } else { body[fam.len()..].parse().ok()? };
            let t = self.moves.get(fam)?;
            // every move of the file used here has order 4
            for _ in 0..if inv { 3 * n } else { n } % 4 {
                for (o, (pc, or)) in p.iter_mut() {
                    let (perm, delta) = &t[o];
                    let m = self.mods[o];
                    *or = perm.iter().zip(delta).map(|(&f, &d)| (or[f] + d) % m).collect();
                    *pc = perm.iter().map(|&f| pc[f]).collect();
                }
            }
        }
        Some(p)
    }
    /// solved, where the orientation of centres is not visible
    fn solved(&self, p: &Orbits) -> bool {
        p.iter().all(|(o, (pc, or))| *pc == self.start[o].0 && (o == "CENTERS" || *or == self.start[o].1))
    }
    fn cross(&self, p: &Orbits) -> bool {
        let (pc, or) = &p["EDGES"];
        (4..8).all(|i| pc[i] == i && or[i] == 0)
    }
}

// ---------------------------------------------------------------- generation
const TRIGGERS: &[(&str, &str)] = &[
    ("K", "R U R'"), ("K2", "R U2 R'"), ("K'", "R U' R'"), ("FK", "F' U' F"), ("FK2", "F' U2 F"), ("FK'", "F' U F"),
    ("J", "R' U' R"), ("J2", "R' U2 R"), ("J'", "R' U R"), ("BJ", "B U B'"), ("BJ2", "B U2 B'"), ("BJ'", "B U' B'"),
    ("H", "L' U' L"), ("H2", "L' U2 L"), ("H'", "L' U L"), ("FH", "F U F'"), ("FH2", "F U2 F'"), ("FH'", "F U' F'"),
    ("I", "L U L'"), ("I2", "L U2 L'"), ("I'", "L U' L'"), ("BI", "B' U' B"), ("BI2", "B' U2 B"), ("BI'", "B' U B"),
];
fn invert(v: &[String]) -> Vec<String> {
    v.iter().rev().map(|m| m.strip_suffix('\'').map(str::to_string).unwrap_or_else(|| format!("{m}'"))).collect()
}
fn sched(r: &mut Rng) -> Sched {
    let mut s = Sched { seed_sched: r.next(), seed_hash: r.next(), ..Default::default() };
    match r.below(8) {
        0 => {}
        1..=5 => {
            s.mode = 1;
            s.p_hot = *r.pick(&[500, 5_000, 50_000, 300_000]);
        }
        _ => {
            s.mode = 2;
            s.pct_d = 1 + r.below(4) as u32;
            s.pct_len = *r.pick(&[300, 3000, 30000]);
        }
    }
    s.alloc_policy = r.below(2) as u32;
    s.poison = r.next() as u32 | 1;
    s.spurious = *r.pick(&[0, 0, 50_000]);
    s.clockjump = *r.pick(&[0, 100_000]);
    s.wake_mode = r.below(2) as u32;
    s.realloc_move = r.below(2) as u32;
    if r.chance(1, 4) {
        s.stall_tid = 1 + r.below(2) as u32;
    }
    if r.chance(1, 2) {
        // results of the writes: all, part, interrupted
        for _ in 0..r.below(60) {
            s.io.push(match r.below(4) {
                0 => 1 << 16 | r.below(40) as u32,
                1 => 2 << 16,
                _ => 0,
            });
        }
        s.io.push(0);
    }
    s
}
fn plan(seed: u64, index: u64) -> Plan {
    let mut r = Rng::new(seed ^ 0xF21, index);
    let mut p = Plan { index, ..Default::default() };
    let mut sol: Vec<String> = vec![];
    let auf = |r: &mut Rng, v: &mut Vec<String>| {
        let a = *r.pick(&["", "U", "U2", "U'"]);
        if !a.is_empty() {
            v.push(a.to_string())
        }
    };
    let k = *r.pick(&[0, 1, 1, 2, 2, 2, 3]);
    let one = r.below(4);
    let same = k == 3 || r.chance(1, 2);
    for _ in 0..k {
        auf(&mut r, &mut sol);
        let slot = if same { one } else { r.below(4) };
        let t = &TRIGGERS[slot * 6 + r.below(6)];
        sol.extend(t.1.split(' ').map(str::to_string));
    }
    auf(&mut r, &mut sol);
    p.scramble = invert(&sol);
    match r.below(16) {
        // a cross that is not solved
        0 => p.scramble.push(r.pick(&["R", "F2", "B'", "D"]).to_string()),
        // a last layer no short solution exists for
        1 => p.scramble.extend("R U R' U R U2 R'".split(' ').map(str::to_string)),
        // two texts for the same state
        2 => {
            p.scramble.insert(0, "L4".to_string());
        }
        _ => {}
    }
    p.max_depth = match k {
        0 => r.below(2),
        1 => 1 + r.below(2) * r.below(2),
        2 => 2 + r.chance(1, 8) as usize,
        _ => 3,
    };
    if r.chance(1, 5) {
        p.start_depth = Some(r.below(p.max_depth + 1) + r.chance(1, 8) as usize);
    }
    let n = if p.max_depth >= 3 { 2 } else { 3 };
    for i in 0..n {
        let mut v = Variant { sched: sched(&mut r), ..Default::default() };
        if i == n - 1 && r.chance(1, 2) {
            v.flags.push("--no-randomize".into());
        }
        if r.chance(1, 5) {
            v.flags.push("--no-prefer-immediate-slots".into());
        }
        if p.max_depth < 2 && r.chance(1, 8) {
            v.flags.push("--debug".into());
        }
        p.variants.push(v);
    }
    p
}

// ---------------------------------------------------------------- one execution
const MAXARGS: usize = 16;
extern "C" {
    static mut rt_tap: Option<unsafe extern "C" fn(i32, *const u8, u64)>;
    fn rt_argv() -> *mut *mut std::ffi::c_char;
}
/// What the program writes, on a shared page: `out` of the result block.
unsafe extern "C" fn tap(fd: i32, b: *const u8, n: u64) {
    if fd != 1 {
        return;
    }
    let r = &mut *rt_result();
    for i in 0..n as usize {
        let at = r.outlen as usize;
        if at + 1 >= OUTMAX {
            return;
        }
        r.out[at] = *b.add(i);
        r.outlen += 1;
    }
}
struct Ran {
    /// exit status; 1000 and up: see `kind`
    code: i32,
    out: String,
    err: String,
    v: Verdict,
    harness: Option<String>,
}
fn child(args: &[String], s: &Sched) -> ! {
    unsafe {
        let it = libc::itimerval { it_interval: libc::timeval { tv_sec: 0, tv_usec: 0 }, it_value: libc::timeval { tv_sec: 400, tv_usec: 0 } };
        libc::syscall(libc::SYS_setitimer, 0, &it as *const _, 0);
        let rl = libc::rlimit { rlim_cur: 200, rlim_max: 201 };
        libc::setrlimit(libc::RLIMIT_CPU, &rl);
        // the argument vector of this process becomes that of the program
        let argv = rt_argv();
        for i in 1..=MAXARGS {
            *argv.add(i) = match args.get(i - 1) {
                Some(a) => std::ffi::CString::new(a.as_str()).unwrap().into_raw(),
                None => std::ptr::null_mut(),
            };
        }
        rt_tap = Some(tap);
        let mut c: Box<Cfg> = Box::new(std::mem::zeroed());
        c.seed_sched = s.seed_sched;
        c.seed_hash = s.seed_hash;
        c.seed_fault = s.seed_sched ^ 0xFA;
        c.mode = s.mode;
        c.p_hot = s.p_hot;
        c.pct_d = s.pct_d;
        c.pct_len = s.pct_len;
        c.hash_mode = 1;
        c.alloc_policy = s.alloc_policy;
        c.poison = s.poison;
        c.spurious = s.spurious;
        c.clockjump = s.clockjump;
        c.wake_mode = s.wake_mode;
        c.stall_tid = s.stall_tid;
        c.step_cap = 3_000_000_000;
        c.fair_cap = 400_000;
        c.realloc_move = s.realloc_move;
        c.nio = s.io.len().min(64) as u32;
        for (i, x) in s.io.iter().take(64).enumerate() {
            c.io[i] = *x;
        }
        if s.mode == 3 {
            c.nreplay = s.trace.len() as u32;
            for (i, t) in s.trace.iter().enumerate() {
                c.replay[i] = Tr { step: t.0, tid: t.1, why: t.2 };
            }
        }
        rt_begin(&*c);
        let h = std::thread::Builder::new()
            .stack_size(16 << 20)
            .spawn(|| {
                rt_enter(0);
                let r = std::panic::catch_unwind(app::main);
                rt_pause();
                if r.is_err() {
                    rt::violation("panic", &format!("the program panicked: {}", rt::cstr(&rt::res().err)));
                }
                rt_resume(1);
                rt_leave();
            })
            .unwrap();
        rt_go();
        std::mem::forget(h);
        rt_end()
    }
}
fn execute(args: &[String], s: &Sched) -> Ran {
    let st = unsafe {
        rt_reset_result();
        let pid = libc::fork();
        if pid < 0 {
            eprintln!("fork failed");
            libc::_exit(2);
        }
        if pid == 0 {
            child(args, s);
        }
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) < 0 {}
        st
    };
    let r = rt::res();
    let out = String::from_utf8_lossy(&r.out[..r.outlen as usize]).into_owned();
    let err = String::from_utf8_lossy(&r.err[..r.errlen as usize]).into_owned();
    let mut x = Ran { code: 0, out, err, v: Verdict::default(), harness: None };
    let v = |k: &str, m: String| Verdict { kind: k.into(), msg: m, at: String::new() };
    if libc::WIFSIGNALED(st) {
        match libc::WTERMSIG(st) {
            libc::SIGXCPU => x.v = v("hang", "the program used more than 200 s of processor time".into()),
            libc::SIGALRM => x.harness = Some("time limit".into()),
            libc::SIGKILL => x.harness = Some("killed".into()),
            s => x.v = v("crash", format!("the program died from signal {s}")),
        }
        return x;
    }
    match (libc::WEXITSTATUS(st), r.status) {
        (0, 1) => {}
        (7, 7) => x.code = r.curtid as i32,
        (3, 3) => x.v = v(&cstr(&r.kind), cstr(&r.msg)),
        (5, 5) => x.v = v("abort", cstr(&r.msg)),
        (c, s) => x.harness = Some(format!("child exit code {c}, status {s}: {}", cstr(&r.msg))),
    }
    x
}

// ---------------------------------------------------------------- judgement
fn decode(s: &str) -> String {
    let b = s.as_bytes();
    let mut o = vec![];
    let mut i = 0;
    while i < b.len() {
        match b[i] {
            b'+' => o.push(b' '),
            b'%' if i + 2 < b.len() => {
                o.push(u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap_or(b'?'));
                i += 2;
            }
            c => o.push(c),
        }
        i += 1;
    }
    String::from_utf8_lossy(&o).into_owned()
}
fn words(s: &str) -> Vec<&str> {
    s.split_whitespace().collect()
}
#[derive(Default)]
struct Acc {
    runs: u64,
    plans: u64,
    nontrivial: u64,
    sum: BTreeMap<&'static str, u64>,
    fault: Vec<u64>,
    faultruns: Vec<u64>,
    scheds: HashSet<u64>,
    logs: HashSet<u64>,
    cov: Vec<u8>,
    pcs: Vec<u8>,
    calls: BTreeMap<String, u64>,
    outcomes: BTreeMap<String, u64>,
    harness: Vec<String>,
}
impl Acc {
    fn new() -> Acc {
        Acc { fault: vec![0; F_N], faultruns: vec![0; F_N], cov: vec![0; 8192], pcs: vec![0; 8192], ..Default::default() }
    }
    fn add(&mut self) {
        let r = rt::res();
        self.runs += 1;
        for (k, v) in [("steps", r.steps), ("hot", r.hot), ("switches", r.switches), ("preempts", r.preempts), ("simns", r.simns), ("allocs", r.allocs), ("races_checked", r.races_checked), ("nfutex", r.nfutex), ("natomic", r.natomic)] {
            *self.sum.entry(k).or_insert(0) += v;
        }
        for i in 0..F_N {
            self.fault[i] += r.fault[i];
            self.faultruns[i] += (r.fault[i] > 0) as u64;
        }
        self.scheds.insert(r.schedhash);
        if self.logs.insert(r.loghash) && r.outlen > 60 {
            self.nontrivial += 1;
        }
        for i in 0..8192 {
            self.cov[i] |= r.cov[i];
            self.pcs[i] |= r.pcs[i];
        }
    }
}
fn args(p: &Plan, v: &Variant) -> Vec<String> {
    let mut a = vec![format!("--scramble={}", p.scramble.join(" ")), format!("--max-depth={}", p.max_depth)];
    if let Some(s) = p.start_depth {
        a.push(format!("--start-depth={s}"));
    }
    a.extend(v.flags.iter().cloned());
    a
}
fn judge(a: &mut Acc, cube: &Cube, p: &Plan, count: bool) -> (Verdict, Vec<u64>, Vec<Vec<(u64, u32, u32)>>) {
    let mut logs = vec![];
    let mut traces = vec![];
    let mut first: Option<BTreeSet<(String, String)>> = None;
    let scramble: Vec<&str> = p.scramble.iter().map(|s| s.as_str()).collect();
    let state = cube.run(&scramble).expect("scramble");
    for (i, var) in p.variants.iter().enumerate() {
        let av = args(p, var);
        let x = execute(&av, &var.sched);
        if count {
            a.add();
        }
        let r = rt::res();
        logs.push(r.loghash);
        traces.push(r.trace[..r.ntrace as usize].iter().map(|t| (t.step, t.tid, t.why)).collect());
        let bad = |k: &str, m: String| Verdict { kind: k.into(), msg: format!("f2lfast {av:?}: {m}"), at: i.to_string() };
        if let Some(h) = x.harness {
            a.harness.push(format!("plan {} execution {i}: {h}", p.index));
            return (Verdict::default(), logs, traces);
        }
        if !x.v.kind.is_empty() {
            return (bad(&x.v.kind, x.v.msg.clone()), logs, traces);
        }
        if count {
            *a.calls.entry(if var.flags.is_empty() { "plain".into() } else { var.flags.join(" ") }).or_insert(0) += 1;
            *a.outcomes.entry(format!("exit status {}", x.code)).or_insert(0) += 1;
        }
        let mut set = BTreeSet::new();
        if cube.cross(&state) {
            if x.code != 0 {
                return (bad("exit-status", format!("ended with exit status {}: {}", x.code, x.err)), logs, traces);
            }
            let lines: Vec<&str> = x.out.lines().collect();
            let mut n = 0;
            for (j, l) in lines.iter().enumerate() {
                if *l != "Full Solution!" {
                    continue;
                }
                n += 1;
                let get = |k: usize, pre: &str| lines.get(j + k).and_then(|l| l.strip_prefix(pre));
                let (Some(short), Some(long), Some(link)) = (get(1, "Short: "), get(2, "Long: "), get(3, "https://alpha.twizzle.net/edit/?")) else {
                    // the main thread's lines may come between
                    let rest: Vec<&str> = lines[j + 1..].iter().filter(|l| !l.starts_with("Len: ") && !l.starts_with("Time elapsed")).take(3).cloned().collect();
                    let (Some(s), Some(lo), Some(li)) = (rest.first().and_then(|l| l.strip_prefix("Short: ")), rest.get(1).and_then(|l| l.strip_prefix("Long: ")), rest.get(2).and_then(|l| l.strip_prefix("https://alpha.twizzle.net/edit/?"))) else {
                        return (bad("solution-incomplete", format!("a solution is announced and followed by {:?}", rest)), logs, traces);
                    };
                    if let Some(v) = check_solution(cube, &scramble, s, lo, li) {
                        return (bad(&v.0, v.1), logs, traces);
                    }
                    set.insert((s.to_string(), lo.to_string()));
                    continue;
                };
                if let Some(v) = check_solution(cube, &scramble, short, long, link) {
                    return (bad(&v.0, v.1), logs, traces);
                }
                set.insert((short.to_string(), long.to_string()));
            }
            if count {
                *a.outcomes.entry(if n == 0 { "no full solution" } else { "full solutions" }.into()).or_insert(0) += 1;
                *a.outcomes.entry("solutions checked".into()).or_insert(0) += n;
            }
        } else if x.code != 1 || x.out.contains("Full Solution!") {
            return (bad("exit-status", format!("the cross is not solved, but the program ended with exit status {} and printed {:?}", x.code, x.out)), logs, traces);
        }
        match &first {
            None => first = Some(set),
            Some(f) if *f != set => {
                let d: Vec<_> = f.symmetric_difference(&set).take(3).collect();
                return (bad("solutions-differ", format!("{} solutions, but {} in the first execution {:?}; only in one of them: {:?}", set.len(), f.len(), args(p, &p.variants[0]), d)), logs, traces);
            }
            _ => {}
        }
    }
    (Verdict::default(), logs, traces)
}
fn check_solution(cube: &Cube, scramble: &[&str], short: &str, long: &str, link: &str) -> Option<(String, String)> {
    let l = words(long);
    let all: Vec<&str> = scramble.iter().cloned().chain(l.iter().cloned()).collect();
    match cube.run(&all) {
        None => return Some(("solution-wrong".into(), format!("the solution {long:?} is not made of moves of the puzzle"))),
        Some(p) if !cube.solved(&p) => return Some(("solution-wrong".into(), format!("the printed solution {long:?} does not solve the scramble"))),
        _ => {}
    }
    // the short form stands for the long one
    let mut e: Vec<&str> = vec![];
    for w in words(short) {
        match TRIGGERS.iter().find(|t| t.0 == w) {
            Some(t) => e.extend(t.1.split(' ')),
            None => e.push(w),
        }
    }
    if e != l {
        return Some(("solution-wrong".into(), format!("the short form {short:?} does not stand for {long:?}")));
    }
    let mut q = BTreeMap::new();
    for kv in link.split('&') {
        let (k, v) = kv.split_once('=').unwrap_or((kv, ""));
        q.insert(decode(k), decode(v));
    }
    let field = |k: &str| q.get(k).cloned().unwrap_or_default();
    if words(&field("setup-alg")) != scramble || words(&field("alg")) != l {
        return Some(("link-wrong".into(), format!("the link carries scramble {:?} and solution {:?}, not {:?} and {long:?}", field("setup-alg"), field("alg"), scramble.join(" "))));
    }
    None
}

// ---------------------------------------------------------------- exploration
fn explore(seed: u64, from: u64, to: u64, step: u64, off: u64, secs: u64, out: &str, stop: Option<&str>) -> i32 {
    let t0 = Instant::now();
    let cube = Cube::load();
    let mut a = Acc::new();
    let mut found: Option<Found> = None;
    let (mut samples, mut last, mut cut) = (vec![], from, false);
    let mut i = from + off;
    while i < to {
        if t0.elapsed() > Duration::from_secs(secs) {
            cut = true;
            break;
        }
        if let Some(x) = stop.and_then(|f| std::fs::read_to_string(f).ok()).and_then(|s| s.trim().parse::<u64>().ok()) {
            if x < i {
                break;
            }
        }
        let p = plan(seed, i);
        a.plans += 1;
        if samples.len() < 2 {
            samples.push(format!("plan {i}: {:?}; executions: {}", args(&p, &Variant::default()), p.variants.iter().map(|v| format!("{:?} sched mode {} seed {:#x} random seed {:#x}", v.flags, v.sched.mode, v.sched.seed_sched, v.sched.seed_hash)).collect::<Vec<_>>().join(", ")));
        }
        let (v, _, _) = judge(&mut a, &cube, &p, true);
        if !v.kind.is_empty() {
            found = Some(Found { property: "C16".into(), seed, index: i, verdict: v, plan: p, note: String::new() });
            break;
        }
        last = i;
        if a.harness.len() > 20 {
            break;
        }
        i += step;
    }
    let hex = |v: &[u8]| v.iter().map(|b| format!("{:02x}", b)).collect::<String>();
    let mut sum = a.sum.clone();
    for k in ["steps", "hot", "switches", "preempts", "simns", "allocs", "races_checked", "nfutex", "natomic"] {
        sum.entry(k).or_insert(0);
    }
    let js = serde_json::json!({
        "runs": a.runs, "plans": a.plans, "nontrivial": a.nontrivial, "sum": sum,
        "fault": a.fault, "faultruns": a.faultruns,
        "scheds": a.scheds.iter().map(|x| format!("{:x}", x)).collect::<Vec<_>>(),
        "logs": a.logs.len(), "cov": hex(&a.cov), "pcs": hex(&a.pcs),
        "calls": a.calls, "outcomes": a.outcomes, "foreign": {}, "cleanoom": 0, "harness": a.harness,
        "c06": [0, 0, 0, 0], "c04": [0, 0], "solo": { "calls": 0, "hits": 0, "unbuilt": 0, "crashed": 0 },
        "samples": samples, "last": last, "cut": cut, "wall": t0.elapsed().as_secs_f64(), "found": found,
    });
    std::fs::write(out, serde_json::to_string(&js).unwrap()).unwrap();
    if found.is_none() && !a.harness.is_empty() {
        return 2;
    }
    found.is_some() as i32
}
/// Fewer executions, moves, faults and scheduling decisions, same failure.
fn shrink(f: &Found, secs: u64) -> Found {
    let cube = Cube::load();
    let mut a = Acc::new();
    let until = Instant::now() + Duration::from_secs(secs);
    let mut best = f.clone();
    let mut tries = 0;
    let mut attempt = |best: &mut Found, q: Plan| -> bool {
        if Instant::now() > until || q.variants.is_empty() {
            return false;
        }
        tries += 1;
        let (v, _, _) = judge(&mut a, &cube, &q, false);
        if v.kind == best.verdict.kind {
            best.plan = q;
            best.verdict = v;
            return true;
        }
        false
    };
    let mut i = 0;
    while i < best.plan.variants.len() {
        let mut q = best.plan.clone();
        q.variants.remove(i);
        if !attempt(&mut best, q) {
            i += 1;
        }
    }
    let mut i = 0;
    while i < best.plan.scramble.len() {
        let mut q = best.plan.clone();
        q.scramble.remove(i);
        if !attempt(&mut best, q) {
            i += 1;
        }
    }
    let mut q = best.plan.clone();
    q.start_depth = None;
    attempt(&mut best, q);
    while best.plan.max_depth > 0 {
        let mut q = best.plan.clone();
        q.max_depth -= 1;
        if !attempt(&mut best, q) {
            break;
        }
    }
    let edits: [fn(&mut Variant); 8] = [|v| v.flags.clear(), |v| v.sched.mode = 0, |v| v.sched.io.clear(), |v| v.sched.spurious = 0, |v| v.sched.clockjump = 0, |v| v.sched.stall_tid = 0, |v| v.sched.realloc_move = 0, |v| v.sched.seed_hash = 0];
    for i in 0..best.plan.variants.len() {
        for e in &edits {
            let mut q = best.plan.clone();
            e(&mut q.variants[i]);
            attempt(&mut best, q);
        }
    }
    // explicit schedules
    let (v, _, tr) = judge(&mut Acc::new(), &cube, &best.plan, false);
    if v.kind == best.verdict.kind {
        for i in 0..best.plan.variants.len() {
            if best.plan.variants[i].sched.mode == 0 || i >= tr.len() {
                continue;
            }
            let mut q = best.plan.clone();
            q.variants[i].sched.mode = 3;
            q.variants[i].sched.stall_tid = 0;
            q.variants[i].sched.trace = tr[i].clone();
            if !attempt(&mut best, q) {
                continue;
            }
            let mut size = best.plan.variants[i].sched.trace.len().div_ceil(2).max(1);
            loop {
                let mut j = best.plan.variants[i].sched.trace.len();
                while j > 0 {
                    let lo = j.saturating_sub(size);
                    let mut q = best.plan.clone();
                    q.variants[i].sched.trace.drain(lo..j);
                    attempt(&mut best, q);
                    j = lo;
                }
                if size == 1 || Instant::now() > until {
                    break;
                }
                size /= 2;
            }
        }
    }
    best.note = format!("{tries} candidate plans");
    best
}

fn arg<'a>(a: &'a [String], k: &str) -> Option<&'a str> {
    a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).map(|s| s.as_str())
}
fn num(a: &[String], k: &str, d: u64) -> u64 {
    arg(a, k).map_or(d, |s| s.parse().expect("number"))
}
fn command(args: &[String]) -> i32 {
    match args.first().map(|s| s.as_str()) {
        Some("explore") => explore(num(args, "--seed", 1), num(args, "--from", 0), num(args, "--to", 10), num(args, "--step", 1), num(args, "--offset", 0), num(args, "--secs", 600), arg(args, "--out").unwrap_or("/dev/stdout"), arg(args, "--stop")),
        Some("min") => {
            let f: Found = serde_json::from_slice(&std::fs::read(&args[1]).unwrap()).unwrap();
            let g = shrink(&f, num(args, "--secs", 60));
            std::fs::write(&args[2], serde_json::to_string_pretty(&g).unwrap()).unwrap();
            0
        }
        Some("replay") => {
            let f: Found = serde_json::from_slice(&std::fs::read(&args[1]).unwrap()).unwrap();
            let mut a = Acc::new();
            let (v, logs, _) = judge(&mut a, &Cube::load(), &f.plan, true);
            let h = logs.iter().fold(0u64, |h, l| h.rotate_left(7) ^ l);
            println!("{}", serde_json::json!({"kind": v.kind, "msg": v.msg, "at": v.at, "expected_kind": f.verdict.kind, "expected_msg": f.verdict.msg, "loghash": format!("{h:x}"), "harness": a.harness}));
            if !a.harness.is_empty() {
                return 2;
            }
            (!v.kind.is_empty()) as i32
        }
        Some("det") => {
            let (from, to, step) = (num(args, "--from", 0), num(args, "--to", 10), num(args, "--step", 1));
            let cube = Cube::load();
            let mut a = Acc::new();
            let mut i = from;
            // printing initialises this process's stdout, which the executions inherit
            let mut out = String::new();
            while i < to {
                let (v, logs, _) = judge(&mut a, &cube, &plan(num(args, "--seed", 1), i), true);
                out += &format!("{i} {:x?} {}\n", logs, v.kind);
                i += step;
            }
            print!("{out}");
            (!a.harness.is_empty()) as i32 * 2
        }
        Some("show") => {
            let p = plan(num(args, "--seed", 1), num(args, "--index", 0));
            println!("{}", serde_json::to_string_pretty(&p).unwrap());
            for v in &p.variants {
                let x = execute(&crate::args(&p, v), &v.sched);
                println!("exit {} {:?}\n{}\n{}", x.code, x.v, x.out, x.err);
            }
            0
        }
        _ => {
            eprintln!("usage: f2l explore|min|replay|det|show …");
            2
        }
    }
}
fn main() {
    unsafe {
        // same addresses in every process, and room for the program's arguments
        if std::env::var_os("F2L_INNER").is_none() {
            let p = libc::personality(0xffffffff);
            libc::personality(p as libc::c_ulong | libc::ADDR_NO_RANDOMIZE as libc::c_ulong);
            use std::os::unix::process::CommandExt;
            let own: Vec<String> = std::env::args().skip(1).collect();
            let e = std::process::Command::new("/proc/self/exe").args(vec!["-"; MAXARGS]).env("F2L_INNER", serde_json::to_string(&own).unwrap()).exec();
            eprintln!("exec: {e}");
            std::process::exit(2);
        }
        assert_eq!(rt::rt_cfg_size() as usize, std::mem::size_of::<rt::Cfg>());
        assert_eq!(rt::rt_result_size() as usize, std::mem::size_of::<rt::Res>());
        rt::rt_result();
    }
    std::alloc::set_alloc_error_hook(|_| unsafe { rt::rt_oom_hook() });
    let args: Vec<String> = serde_json::from_str(&std::env::var("F2L_INNER").unwrap()).unwrap();
    std::process::exit(command(&args));
}
