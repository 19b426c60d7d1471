//! Forks simulated processes and judges what they did.
use crate::cv::CV;
use crate::exec::*;
use crate::ops::*;
use crate::rt::{self, *};
use crate::streams::short;
use std::collections::HashMap;

#[derive(Clone, Debug, Default, serde::Serialize, serde::Deserialize)]
pub struct Verdict {
    /// empty: nothing wrong
    pub kind: String,
    pub msg: String,
    /// "thread:op" the violation is tied to, for the minimiser
    pub at: String,
}
pub struct Outcome {
    pub v: Verdict,
    pub recs: Vec<Rec>,
    /// harness trouble (time limit, internal limits)
    pub harness: Option<String>,
    pub cleanoom: bool,
}

pub fn limits() {
    unsafe {
        let rl = libc::rlimit { rlim_cur: 120, rlim_max: 121 };
        libc::setrlimit(libc::RLIMIT_CPU, &rl);
        let it = libc::itimerval { it_interval: libc::timeval { tv_sec: 0, tv_usec: 0 }, it_value: libc::timeval { tv_sec: 400, tv_usec: 0 } };
        libc::syscall(libc::SYS_setitimer, 0, &it as *const _, 0);
    }
}
/// Fork, run `f` in the child, wait.  Returns the wait status.
#[allow(unreachable_code)]
pub fn forked(f: impl FnOnce() -> std::convert::Infallible) -> i32 {
    unsafe {
        rt_reset_result();
        let pid = libc::fork();
        if pid < 0 {
            eprintln!("fork failed");
            libc::_exit(2);
        }
        if pid == 0 {
            limits();
            f();
        }
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) < 0 {}
        st
    }
}
fn status(st: i32) -> Result<(), Verdict> {
    let r = rt::res();
    let v = |k: &str, m: String| Err(Verdict { kind: k.into(), msg: m, at: String::new() });
    if libc::WIFSIGNALED(st) {
        let s = libc::WTERMSIG(st);
        let t = r.curtid.min(NT as u32 - 1);
        let wher = format!("(thread {}, its op {})", t, r.curop[t as usize]);
        return match s {
            libc::SIGXCPU => v("hang", format!("the call used more than 120 s of processor time without ending {wher}")),
            libc::SIGALRM => v("HARNESS", "time limit".into()),
            libc::SIGKILL => v("HARNESS", "killed".into()),
            _ => v("crash", format!("the process died from signal {s} {wher}")),
        };
    }
    match (libc::WEXITSTATUS(st), r.status) {
        (0, 1) => Ok(()),
        (3, 3) => v(&cstr(&r.kind), cstr(&r.msg)),
        (4, 4) => v("CLEANOOM", cstr(&r.msg)),
        (5, 5) => v("abort", cstr(&r.msg)),
        (c, s) => v("HARNESS", format!("child exit code {c}, status {s}: {}", cstr(&r.msg))),
    }
}

#[derive(Default)]
pub struct Solo {
    memo: HashMap<u64, CV>,
    pub calls: u64,
    pub hits: u64,
    pub unbuilt: u64,
    pub crashed: u64,
}
fn h128(s: &str, mut h: u64) -> u64 {
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
        h ^= h >> 32;
    }
    h
}
fn spec_refs(c: &Code, a: &[CV], out: &mut Vec<usize>) {
    match c {
        Code::NewPuzzle(s, ..) => out.push(*s),
        Code::Repeat(_, c) | Code::Nest(_, _, c) => spec_refs(c, &[], out),
        _ => {}
    }
    for x in a {
        match x {
            CV::Puzzle(s, _) | CV::Pat(s, _) | CV::Tr(s, _) | CV::PBuf(s, _) | CV::TBuf(s, _) => out.push(*s),
            _ => {}
        }
    }
}
impl Solo {
    /// None: cannot be evaluated alone (arguments cannot be rebuilt, or the
    /// call does not survive on its own).
    pub fn eval(&mut self, specs: &[crate::spec::Spec], c: &Code, a: &[CV], plain: bool) -> Option<CV> {
        // the order in which a definition is written must not matter
        let c = match c {
            Code::NewPuzzle(s, ..) => Code::NewPuzzle(*s, 0, 0),
            c => c.clone(),
        };
        let mut refs = vec![];
        spec_refs(&c, a, &mut refs);
        let key = format!("{:?}|{:?}|{}|{:?}", c, a, plain, refs.iter().map(|s| &specs[*s]).collect::<Vec<_>>());
        let k = h128(&key, 0xcbf29ce484222325);
        if let Some(v) = self.memo.get(&k) {
            self.hits += 1;
            return match v {
                CV::Crash(_) => None,
                v => Some(v.clone()),
            };
        }
        self.calls += 1;
        let st = forked(|| solo_child(specs, &c, a, plain));
        let r = match status(st) {
            Ok(()) => {
                let r = rt::res();
                if r.errlen == 77777 {
                    self.unbuilt += 1;
                    CV::Crash("unbuilt".into())
                } else {
                    
                    match from_deep::<CV>(&r.out[..r.outlen as usize]) {
                        Ok(v) => v,
                        Err(e) => CV::Crash(format!("decode {e}")),
                    }
                }
            }
            Err(v) => CV::Crash(v.kind),
        };
        if self.memo.len() > 400_000 {
            self.memo.clear();
        }
        self.memo.insert(k, r.clone());
        match r {
            CV::Crash(_) => {
                self.crashed += 1;
                None
            }
            r => Some(r),
        }
    }
}

/// One simulated run of the plan.
pub fn run_plan(plan: &Plan) -> Outcome {
    let st = forked(|| child(plan));
    let mut o = Outcome { v: Verdict::default(), recs: vec![], harness: None, cleanoom: false };
    match status(st) {
        Ok(()) => {
            let r = rt::res();
            
            match from_deep::<Vec<Rec>>(&r.out[..r.outlen as usize]) {
                Ok(v) => o.recs = v,
                Err(e) => o.harness = Some(format!("records: {e}")),
            }
        }
        Err(v) if v.kind == "HARNESS" => o.harness = Some(v.msg),
        Err(v) if v.kind == "CLEANOOM" => o.cleanoom = true,
        Err(v) => o.v = v,
    }
    o
}
/// Compare every recorded call with the same call made alone.
pub fn check_solo(plan: &Plan, recs: &[Rec], solo: &mut Solo, plain: bool) -> Verdict {
    for r in recs {
        let op = if r.t == SETUP { &plan.setup[r.i as usize] } else { &plan.threads[r.t as usize][r.i as usize] };
        let Some(e) = solo.eval(&plan.specs, &op.c, &r.a, plain) else { continue };
        let e = match (&op.c, e) {
            // the plain evaluation yields the value itself
            (Code::BufNew, e) => e,
            (_, e) => e,
        };
        if e != r.r {
            let who = if r.t == SETUP { "the preparing thread".to_string() } else { format!("thread {}", r.t) };
            return Verdict {
                kind: "result-differs".into(),
                msg: format!("{who}, op {} {}: returned {} but alone it returns {}; arguments {}", r.i, trunc(&format!("{:?}", op.c)), short(&r.r), short(&e), trunc(&format!("{:?}", r.a))),
                at: format!("{}:{}", r.t, r.i),
            };
        }
    }
    Verdict::default()
}
pub fn trunc(s: &str) -> String {
    if s.len() > 400 {
        format!("{}…", s.chars().take(400).collect::<String>())
    } else {
        s.to_string()
    }
}

/// Records may nest deeper than serde_json's default limit.
fn from_deep<T: serde::de::DeserializeOwned>(b: &[u8]) -> Result<T, serde_json::Error> {
    let mut d = serde_json::Deserializer::from_slice(b);
    d.disable_recursion_limit();
    let v = T::deserialize(&mut d)?;
    d.end()?;
    Ok(v)
}
