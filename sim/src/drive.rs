//! Exploration, minimisation and replay.
use crate::cv::CV;
use crate::exec::*;
use crate::ops::*;
use crate::rt::{self, *};
use crate::run::*;
use crate::spec::Spec;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::time::{Duration, Instant};

const MEM: &[&str] = &["out-of-bounds", "use-after-free", "bad-free", "double-free", "layout-mismatch", "zero-size-request", "uninitialised-compare", "leak", "memory-exhausted", "null-access"];
const DIE: &[&str] = &["crash", "abort", "hang", "no-progress", "deadlock", "null-access", "bad-free", "double-free"];

/// kinds of violation that break the property
fn owns(prop: &str, kind: &str) -> bool {
    let (own, die, mem): (&[&str], bool, bool) = match prop {
        "C01" => (&["data-race", "result-differs", "different-instances", "input-changed", "panic"], true, false),
        "C02" => (&["data-race", "result-differs", "input-changed"], true, false),
        "C03" => (&["result-differs", "input-changed"], true, false),
        "C04" => (&["accepted-flawed", "rejected-sound", "panic", "move-value", "input-changed"], true, false),
        "C05" => (&["result-differs", "input-changed", "equal-hash-differs", "not-found-again"], true, false),
        "C06" => (&["accepted-damaged", "rejected-intact", "loaded-differs", "panic", "input-changed"], true, true),
        "C07" => (&["result-differs", "input-changed"], true, false),
        "C10" => (&["panic-in-drop"], true, true),
        "C11" => (&["oom-ignored", "null-access", "memory-exhausted", "use-after-free", "out-of-bounds", "bad-free", "double-free"], true, false),
        "C12" => (&["result-differs", "input-changed", "changed-by-panicking-call"], true, false),
        "C13" => (&["delivery-differs", "panic", "result-differs", "input-changed"], true, false),
        "C14" => (&["read-differs", "panic", "result-differs", "input-changed"], true, false),
        "C15" => (&["result-differs", "input-changed", "changed-by-panicking-call", "panic-in-drop"], true, true),
        "C17" => (&["result-differs", "input-changed", "panic-in-drop", "changed-by-panicking-call", "data-race"], true, true),
        _ => (&[], false, false),
    };
    own.contains(&kind) || (die && DIE.contains(&kind)) || (mem && MEM.contains(&kind))
}

#[derive(Default, Clone, Serialize, Deserialize)]
pub struct RunStat {
    pub steps: u64,
    pub hot: u64,
    pub switches: u64,
    pub preempts: u64,
    pub simns: u64,
    pub allocs: u64,
    pub races_checked: u64,
    pub nfutex: u64,
    pub natomic: u64,
    pub loghash: u64,
    pub schedhash: u64,
}
fn capture() -> (RunStat, [u64; F_N], Vec<(u64, u32, u32)>) {
    let r = rt::res();
    let s = RunStat {
        steps: r.steps,
        hot: r.hot,
        switches: r.switches,
        preempts: r.preempts,
        simns: r.simns,
        allocs: r.allocs,
        races_checked: r.races_checked,
        nfutex: r.nfutex,
        natomic: r.natomic,
        loghash: r.loghash,
        schedhash: r.schedhash,
    };
    let t = r.trace[..r.ntrace as usize].iter().map(|t| (t.step, t.tid, t.why)).collect();
    (s, r.fault, t)
}

pub struct Acc {
    pub runs: u64,
    pub plans: u64,
    pub nontrivial: u64,
    pub sum: RunStat,
    pub fault: [u64; F_N],
    pub faultruns: [u64; F_N],
    pub scheds: HashSet<u64>,
    pub logs: HashSet<u64>,
    pub cov: Vec<u8>,
    pub pcs: Vec<u8>,
    pub calls: BTreeMap<String, u64>,
    pub outcomes: BTreeMap<String, u64>,
    pub foreign: BTreeMap<String, u64>,
    pub cleanoom: u64,
    pub harness: Vec<String>,
    pub c06: [u64; 4],
    pub c04: [u64; 2],
    pub solo: Solo,
}
impl Acc {
    fn new() -> Acc {
        Acc {
            runs: 0,
            plans: 0,
            nontrivial: 0,
            sum: RunStat::default(),
            fault: [0; F_N],
            faultruns: [0; F_N],
            scheds: HashSet::new(),
            logs: HashSet::new(),
            cov: vec![0; 8192],
            pcs: vec![0; 8192],
            calls: BTreeMap::new(),
            outcomes: BTreeMap::new(),
            foreign: BTreeMap::new(),
            cleanoom: 0,
            harness: vec![],
            c06: [0; 4],
            c04: [0; 2],
            solo: Solo::default(),
        }
    }
    fn add(&mut self, s: &RunStat, f: &[u64; F_N], p: &Plan) {
        self.runs += 1;
        let a = &mut self.sum;
        a.steps += s.steps;
        a.hot += s.hot;
        a.switches += s.switches;
        a.preempts += s.preempts;
        a.simns += s.simns;
        a.allocs += s.allocs;
        a.races_checked += s.races_checked;
        a.nfutex += s.nfutex;
        a.natomic += s.natomic;
        for i in 0..F_N {
            self.fault[i] += f[i];
            self.faultruns[i] += (f[i] > 0) as u64;
        }
        self.scheds.insert(s.schedhash);
        if self.logs.insert(s.loghash) && p.threads.iter().map(|t| t.len()).sum::<usize>() + p.setup.len() >= 2 {
            self.nontrivial += 1;
        }
        let r = rt::res();
        for i in 0..8192 {
            self.cov[i] |= r.cov[i];
            self.pcs[i] |= r.pcs[i];
        }
    }
    fn calls(&mut self, p: &Plan, recs: &[Rec]) {
        for r in recs {
            let op = if r.t == SETUP { &p.setup[r.i as usize] } else { &p.threads[r.t as usize][r.i as usize] };
            let d = format!("{:?}", op.c);
            let n = d.find(['(', ' ']).unwrap_or(d.len());
            let k = match &r.r {
                CV::Panic => "panic",
                CV::Err(_) => "error",
                _ => "value",
            };
            *self.calls.entry(d[..n].to_string()).or_insert(0) += 1;
            *self.outcomes.entry(k.to_string()).or_insert(0) += 1;
        }
    }
}

/// One simulated run, judged by the property.
fn judge(a: &mut Acc, p: &Plan, count: bool) -> (Verdict, RunStat, Vec<(u64, u32, u32)>, bool) {
    let o = run_plan(p);
    let (st, f, tr) = capture();
    if count {
        a.add(&st, &f, p);
        a.calls(p, &o.recs);
    }
    if let Some(h) = o.harness {
        a.harness.push(format!("plan {} of {}: {h}", p.index, p.prop));
        return (Verdict::default(), st, tr, false);
    }
    if o.cleanoom {
        a.cleanoom += 1;
    }
    let mut v = o.v;
    let prop = p.prop.as_str();
    if v.kind.is_empty() && !o.cleanoom {
        v = match prop {
            "C04" => crate::judge::judge_c04(p, &o.recs),
            "C06" => {
                let mut s = a.c06;
                let v = crate::judge::judge_c06(p, &o.recs, &mut s);
                a.c06 = s;
                v
            }
            "C10" | "C11" => Verdict::default(),
            _ => {
                let mut v = Verdict::default();
                if matches!(prop, "C01" | "C13" | "C14") {
                    if let Some(r) = o.recs.iter().find(|r| r.r == CV::Panic) {
                        let op = if r.t == SETUP { &p.setup[r.i as usize] } else { &p.threads[r.t as usize][r.i as usize] };
                        let c = if let Code::Repeat(_, c) = &op.c { c } else { &op.c };
                        if matches!(c, Code::PrintTo(_) | Code::DebugTo(_) | Code::SerTo(_) | Code::DeFrom(..) | Code::Static(_)) {
                            v = Verdict { kind: "panic".into(), msg: format!("thread {} op {}: {} panicked on {}", r.t, r.i, trunc(&format!("{:?}", op.c)), trunc(&format!("{:?}", r.a))), at: format!("{}:{}", r.t, r.i) };
                        }
                    }
                }
                if v.kind.is_empty() {
                    v = check_solo(p, &o.recs, &mut a.solo, prop == "C12");
                }
                v
            }
        };
    }
    if !v.kind.is_empty() && !owns(prop, &v.kind) {
        *a.foreign.entry(v.kind.clone()).or_insert(0) += 1;
        if a.foreign.values().sum::<u64>() <= 3 {
            eprintln!("note: {} plan {}: {} (not a verdict of this property): {}", prop, p.index, v.kind, v.msg);
        }
        v = Verdict::default();
    }
    (v, st, tr, o.cleanoom)
}

#[derive(Serialize, Deserialize, Clone)]
pub struct Found {
    pub property: String,
    pub seed: u64,
    pub index: u64,
    pub verdict: Verdict,
    pub plan: Plan,
    #[serde(default)]
    pub minimised: bool,
    #[serde(default)]
    pub note: String,
}

fn short_plan(p: &Plan) -> String {
    let one = |v: &[Op]| v.iter().map(|o| trunc(&format!("{:?}{:?}->{:?}", o.c, o.a, o.d)).chars().take(120).collect::<String>()).collect::<Vec<_>>().join("; ");
    let mut s = format!("plan {}: sched mode {} seed {:#x}, hash seed {:#x}", p.index, p.sched.mode, p.sched.seed_sched, p.sched.seed_hash);
    if p.sched.fail_at > 0 {
        s += &format!(", allocation {} fails", p.sched.fail_at);
    }
    if !p.setup.is_empty() {
        s += &format!(" | setup: {}", one(&p.setup));
    }
    for (i, t) in p.threads.iter().enumerate() {
        s += &format!(" | T{i}: {}", one(t));
    }
    s.chars().take(1500).collect()
}

fn explore(prop: &str, seed: u64, from: u64, to: u64, step: u64, off: u64, secs: u64, out: &str, stop: Option<&str>) -> i32 {
    let t0 = Instant::now();
    let mut a = Acc::new();
    let mut found: Option<Found> = None;
    let mut samples = vec![];
    let mut last = from;
    let mut cut = false;
    let mut i = from + off;
    'all: while i < to {
        if t0.elapsed() > Duration::from_secs(secs) {
            cut = true;
            break;
        }
        // another worker found a violation in an earlier plan
        if let Some(x) = stop.and_then(|f| std::fs::read_to_string(f).ok()).and_then(|s| s.trim().parse::<u64>().ok()) {
            if x < i {
                break;
            }
        }
        let p = crate::gen::plan(prop, seed, i);
        a.plans += 1;
        if samples.len() < 2 {
            samples.push(short_plan(&p));
        }
        let mut runs: Vec<u64> = vec![0];
        if prop == "C11" {
            // how many requests does the fault-free run make?
            let (v, st, _, _) = judge(&mut a, &p, true);
            if !v.kind.is_empty() {
                found = Some(Found { property: prop.into(), seed, index: i, verdict: v, plan: p, minimised: false, note: String::new() });
                break 'all;
            }
            runs.clear();
            let n = st.allocs;
            let cap = 160;
            if n <= cap {
                runs.extend(1..=n);
            } else {
                let mut r = Rng::new(seed ^ 0xC11, i);
                let mut s = BTreeSet::new();
                while (s.len() as u64) < cap {
                    s.insert(1 + r.next() % n);
                }
                runs.extend(s);
            }
        }
        for k in runs {
            let mut q = p.clone();
            q.sched.fail_at = k;
            let (v, _, _, _) = judge(&mut a, &q, true);
            if !v.kind.is_empty() {
                found = Some(Found { property: prop.into(), seed, index: i, verdict: v, plan: q, minimised: false, note: String::new() });
                break 'all;
            }
        }
        last = i;
        if a.harness.len() > 20 {
            break;
        }
        i += step;
    }
    let hex = |v: &[u8]| v.iter().map(|b| format!("{:02x}", b)).collect::<String>();
    let js = serde_json::json!({
        "runs": a.runs, "plans": a.plans, "nontrivial": a.nontrivial, "sum": a.sum,
        "fault": a.fault.to_vec(), "faultruns": a.faultruns.to_vec(),
        "scheds": a.scheds.iter().map(|x| format!("{:x}", x)).collect::<Vec<_>>(),
        "logs": a.logs.len(),
        "cov": hex(&a.cov), "pcs": hex(&a.pcs),
        "calls": a.calls, "outcomes": a.outcomes, "foreign": a.foreign, "cleanoom": a.cleanoom, "harness": a.harness,
        "c06": a.c06.to_vec(), "c04": a.c04.to_vec(),
        "solo": { "calls": a.solo.calls, "hits": a.solo.hits, "unbuilt": a.solo.unbuilt, "crashed": a.solo.crashed },
        "samples": samples, "last": last, "cut": cut, "wall": t0.elapsed().as_secs_f64(),
        "found": found,
    });
    std::fs::write(out, serde_json::to_string(&js).unwrap()).unwrap();
    if found.is_none() && !a.harness.is_empty() {
        return 2;
    }
    found.is_some() as i32
}

struct Min<'a> {
    a: &'a mut Acc,
    kind: String,
    until: Instant,
    tries: u64,
}
impl Min<'_> {
    fn late(&self) -> bool {
        Instant::now() > self.until
    }
    /// Does the plan still fail the same way?  Tries several schedules.
    fn fails(&mut self, p: &Plan, tries: u64) -> Option<(Plan, Verdict, Vec<(u64, u32, u32)>)> {
        let n = if p.sched.mode == 0 || p.sched.mode == 3 { 1 } else { tries };
        for k in 0..n {
            if self.late() {
                return None;
            }
            let mut q = p.clone();
            if k > 0 {
                let mut r = Rng::new(p.sched.seed_sched, k);
                q.sched.seed_sched = r.next();
                if q.sched.mode == 1 {
                    q.sched.p_hot = *r.pick(&[10_000, 40_000, 150_000, 400_000]);
                }
            }
            self.tries += 1;
            let (v, _, tr, _) = judge(self.a, &q, false);
            if v.kind == self.kind {
                return Some((q, v, tr));
            }
        }
        None
    }
}
/// registers that stay defined: dropping an op may make later ones skip, which is fine
fn shrink(f: &Found, secs: u64) -> Found {
    let mut a = Acc::new();
    let mut m = Min { a: &mut a, kind: f.verdict.kind.clone(), until: Instant::now() + Duration::from_secs(secs), tries: 0 };
    let mut best = f.clone();
    let keep = |best: &mut Found, r: (Plan, Verdict, Vec<(u64, u32, u32)>)| {
        best.plan = r.0;
        best.verdict = r.1;
    };
    // 1. whole threads, fewer rounds, no threads interleaved
    let mut cand: Vec<Box<dyn Fn(&Plan) -> Option<Plan>>> = vec![];
    cand.push(Box::new(|p| {
        let mut q = p.clone();
        if q.sched.mode == 0 {
            return None;
        }
        q.sched.mode = 0;
        Some(q)
    }));
    for t in (0..f.plan.threads.len()).rev() {
        cand.push(Box::new(move |p| {
            let mut q = p.clone();
            if t < q.threads.len() && q.threads.len() > 1 {
                q.threads[t].clear();
                Some(q)
            } else {
                None
            }
        }));
    }
    cand.push(Box::new(|p| {
        let mut q = p.clone();
        if q.rounds < 2 || q.balance {
            return None;
        }
        q.rounds = 1;
        Some(q)
    }));
    for c in &cand {
        if let Some(q) = c(&best.plan) {
            if let Some(r) = m.fails(&q, 16) {
                keep(&mut best, r);
            }
        }
    }
    // 2. operations, in ever smaller groups
    loop {
        let before = best.plan.threads.iter().map(|t| t.len()).sum::<usize>() + best.plan.setup.len();
        for t in 0..=best.plan.threads.len() {
            let len = |p: &Plan| if t == 0 { p.setup.len() } else { p.threads[t - 1].len() };
            let mut size = len(&best.plan).div_ceil(2).max(1);
            while size >= 1 && !m.late() {
                let mut i = len(&best.plan);
                while i > 0 && !m.late() {
                    let lo = i.saturating_sub(size);
                    let mut q = best.plan.clone();
                    let v = if t == 0 { &mut q.setup } else { &mut q.threads[t - 1] };
                    if t == 0 && lo < v.len() {
                        // shared registers are numbered by position: keep places
                        let mut any = false;
                        for o in &mut v[lo..i] {
                            if o.c != Code::Drop {
                                o.c = Code::Drop;
                                o.a.clear();
                                o.d = None;
                                any = true;
                            }
                        }
                        if !any {
                            i = lo;
                            continue;
                        }
                    } else {
                        v.drain(lo..i.min(v.len()));
                    }
                    if let Some(r) = m.fails(&q, 6) {
                        keep(&mut best, r);
                    }
                    i = lo;
                }
                if size == 1 {
                    break;
                }
                size /= 2;
            }
        }
        let after = best.plan.threads.iter().map(|t| t.len()).sum::<usize>() + best.plan.setup.len();
        if after >= before || m.late() {
            break;
        }
    }
    // setup operations that were blanked out
    {
        let mut q = best.plan.clone();
        q.setup.retain(|o| o.c != Code::Drop);
        if q.setup.len() < best.plan.setup.len() {
            if let Some(r) = m.fails(&q, 6) {
                keep(&mut best, r);
            }
        }
    }
    // 3. other faults
    let edits: Vec<fn(&mut Sched)> = vec![
        |s| s.spurious = 0,
        |s| s.clockjump = 0,
        |s| s.stall_tid = 0,
        |s| s.alloc_policy = 2,
        |s| s.wake_mode = 0,
        |s| s.hash_mode = 0,
        |s| s.seed_hash = 0,
        |s| s.realloc_move = 0,
        |s| s.plain_gap = 0,
        |s| s.io = vec![],
        |s| {
            if s.io.len() > 1 {
                s.io = vec![s.io[s.io.len() - 1]]
            }
        },
    ];
    for e in edits {
        let mut q = best.plan.clone();
        e(&mut q.sched);
        if let Some(r) = m.fails(&q, 6) {
            keep(&mut best, r);
        }
    }
    // 4. the schedule as an explicit list of switches, then fewer of them
    if best.plan.sched.mode != 3 {
        let mut q = best.plan.clone();
        let (v, _, tr, _) = judge(m.a, &q, false);
        if v.kind == m.kind {
            q.sched.mode = 3;
            q.sched.stall_tid = 0;
            q.sched.trace = tr;
            if let Some(r) = m.fails(&q, 1) {
                keep(&mut best, r);
            } else {
                best.note = "the explicit schedule did not reproduce; the seeded one is kept".into();
            }
        }
    }
    if best.plan.sched.mode == 3 {
        let mut size = best.plan.sched.trace.len().div_ceil(2).max(1);
        loop {
            let mut i = best.plan.sched.trace.len();
            while i > 0 && !m.late() {
                let lo = i.saturating_sub(size);
                let mut q = best.plan.clone();
                q.sched.trace.drain(lo..i);
                if let Some(r) = m.fails(&q, 1) {
                    keep(&mut best, r);
                }
                i = lo;
            }
            if size == 1 || m.late() {
                break;
            }
            size /= 2;
        }
    }
    best.minimised = true;
    if best.note.is_empty() {
        best.note = format!("{} candidate runs", m.tries);
    }
    best
}

fn arg<'a>(a: &'a [String], k: &str) -> Option<&'a str> {
    a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).map(|s| s.as_str())
}
fn num(a: &[String], k: &str, d: u64) -> u64 {
    arg(a, k).map_or(d, |s| s.parse().expect("number"))
}

pub fn main(args: &[String]) -> i32 {
    let Some(cmd) = args.first() else {
        eprintln!("usage: sim explore|min|replay|det|show …");
        return 2;
    };
    match cmd.as_str() {
        "explore" => explore(
            arg(args, "--prop").expect("--prop"),
            num(args, "--seed", 1),
            num(args, "--from", 0),
            num(args, "--to", 10),
            num(args, "--step", 1),
            num(args, "--offset", 0),
            num(args, "--secs", 600),
            arg(args, "--out").unwrap_or("/dev/stdout"),
            arg(args, "--stop"),
        ),
        "min" => {
            let f: Found = serde_json::from_slice(&std::fs::read(&args[1]).unwrap()).unwrap();
            let g = shrink(&f, num(args, "--secs", 60));
            std::fs::write(&args[2], serde_json::to_string_pretty(&g).unwrap()).unwrap();
            0
        }
        "replay" => {
            let f: Found = serde_json::from_slice(&std::fs::read(&args[1]).unwrap()).unwrap();
            let mut a = Acc::new();
            let (v, st, _, _) = judge(&mut a, &f.plan, true);
            println!("{}", serde_json::json!({"kind": v.kind, "msg": v.msg, "at": v.at, "expected_kind": f.verdict.kind, "expected_msg": f.verdict.msg, "loghash": format!("{:x}", st.loghash), "steps": st.steps, "harness": a.harness}));
            if !a.harness.is_empty() {
                return 2;
            }
            (!v.kind.is_empty()) as i32
        }
        // print the event-log hash of some runs, for the determinism self-check
        "det" => {
            let prop = arg(args, "--prop").unwrap();
            let seed = num(args, "--seed", 1);
            let (from, to, step) = (num(args, "--from", 0), num(args, "--to", 10), num(args, "--step", 1));
            let mut a = Acc::new();
            let mut i = from;
            while i < to {
                let p = crate::gen::plan(prop, seed, i);
                let (v, st, _, _) = judge(&mut a, &p, true);
                println!("{i} {:x} {:x} {} {} {}", st.loghash, st.schedhash, st.steps, st.allocs, v.kind);
                i += step;
            }
            (!a.harness.is_empty()) as i32 * 2
        }
        // does the recorded schedule reproduce the seeded one?
        "trace" => {
            let prop = arg(args, "--prop").unwrap();
            let (from, to) = (num(args, "--from", 0), num(args, "--to", 10));
            let mut a = Acc::new();
            let mut bad = 0;
            for i in from..to {
                let mut p = crate::gen::plan(prop, num(args, "--seed", 1), i);
                let (_, s1, tr, _) = judge(&mut a, &p, true);
                let m = p.sched.mode;
                p.sched.mode = 3;
                p.sched.trace = tr;
                let (_, s2, _, _) = judge(&mut a, &p, true);
                if s1.loghash != s2.loghash || s1.steps != s2.steps {
                    bad += 1;
                    println!("{i}: mode {m}: {} steps {:x}, replayed {} steps {:x} ({} switches, {})", s1.steps, s1.loghash, s2.steps, s2.loghash, s1.switches, s2.switches);
                }
            }
            println!("{bad} of {} differ", to - from);
            (bad > 0) as i32
        }
        "show" => {
            let p = crate::gen::plan(arg(args, "--prop").unwrap(), num(args, "--seed", 1), num(args, "--index", 0));
            println!("{}", serde_json::to_string_pretty(&p).unwrap());
            let _: Option<&Spec> = p.specs.first();
            0
        }
        "spec" => {
            let p = crate::gen::plan(arg(args, "--prop").unwrap(), num(args, "--seed", 1), num(args, "--index", 0));
            for (i, s) in p.specs.iter().enumerate().skip(NBASE) {
                println!("{i}: {}", s.json(0));
            }
            0
        }
        c => {
            eprintln!("unknown command {c}");
            2
        }
    }
}
