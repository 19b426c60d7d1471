//! Executes one plan inside a simulated process (a forked child).
use crate::cv::*;
use crate::ops::*;
use crate::rt::{self, *};
use crate::spec::*;
use crate::streams::*;
use serde::{Deserialize, Serialize};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct Sched {
    pub seed_sched: u64,
    pub seed_hash: u64,
    pub seed_fault: u64,
    pub mode: u32,
    pub p_hot: u32,
    pub plain_gap: u32,
    pub pct_d: u32,
    pub pct_len: u32,
    pub hash_mode: u32,
    pub alloc_policy: u32,
    pub poison: u32,
    pub fail_at: u64,
    pub spurious: u32,
    pub clockjump: u32,
    pub wake_mode: u32,
    pub stall_tid: u32,
    pub step_cap: u64,
    pub fair_cap: u32,
    pub race: u32,
    pub memcheck: u32,
    pub realloc_move: u32,
    pub io: Vec<u32>,
    pub trace: Vec<(u64, u32, u32)>,
}
impl Sched {
    pub fn fill(&self, c: &mut Cfg) {
        c.seed_sched = self.seed_sched;
        c.seed_hash = self.seed_hash;
        c.seed_fault = self.seed_fault;
        c.mode = self.mode;
        c.p_hot = self.p_hot;
        c.plain_gap = self.plain_gap;
        c.pct_d = self.pct_d;
        c.pct_len = self.pct_len;
        c.hash_mode = self.hash_mode;
        c.alloc_policy = self.alloc_policy;
        c.poison = self.poison;
        c.fail_at = self.fail_at;
        c.spurious = self.spurious;
        c.clockjump = self.clockjump;
        c.wake_mode = self.wake_mode;
        c.stall_tid = self.stall_tid;
        c.step_cap = self.step_cap;
        c.fair_cap = self.fair_cap;
        c.race = self.race;
        c.memcheck = self.memcheck;
        c.realloc_move = self.realloc_move;
        c.nio = self.io.len().min(64) as u32;
        for (i, x) in self.io.iter().take(64).enumerate() {
            c.io[i] = *x;
        }
        c.nreplay = self.trace.len().min(MAXTRACE) as u32;
        for (i, x) in self.trace.iter().take(MAXTRACE).enumerate() {
            c.replay[i] = Tr { step: x.0, tid: x.1, why: x.2 };
        }
    }
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Plan {
    pub prop: String,
    pub index: u64,
    pub specs: Vec<Spec>,
    pub setup: Vec<Op>,
    pub threads: Vec<Vec<Op>>,
    /// how often the same work is done in the same process
    pub rounds: u32,
    /// compare the live memory of the later rounds
    pub balance: bool,
    pub sched: Sched,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Rec {
    /// thread; SETUP for the preparing thread
    pub t: u32,
    pub i: u32,
    pub round: u32,
    pub a: Vec<CV>,
    pub r: CV,
}
pub const SETUP: u32 = 99;
pub const NREG: usize = 8;

struct Slot {
    v: Val,
    cv: CV,
}
struct Shared {
    plan: Plan,
    s: Vec<Option<Slot>>,
    slots: Vec<Option<Slot>>,
    recs: Vec<Rec>,
    round: u32,
}
// Only one simulated thread runs at any time and harness code is never
// preempted, so plain access is fine.
static mut SH: *mut Shared = std::ptr::null_mut();
#[allow(static_mut_refs)]
fn sh() -> &'static mut Shared {
    unsafe { &mut *SH }
}

/// index of the argument that the call changes in place
pub fn mut_arg(c: &Code) -> Option<usize> {
    match c {
        Code::PatSet(..) | Code::PatSetOri(..) | Code::TrSetPerm(..) | Code::TrSetDelta(..) | Code::BufApply => Some(0),
        Code::ApplyInto | Code::ComposeInto => Some(2),
        _ => None,
    }
}
fn active<T>(op: u32, f: impl FnOnce() -> T) -> std::thread::Result<T> {
    unsafe { rt_enter(op) };
    let r = catch_unwind(AssertUnwindSafe(f));
    unsafe { rt_leave() };
    r
}
fn drop_active(op: u32, v: Slot) {
    let Slot { v, cv } = v;
    drop(cv);
    if active(op, move || drop(v)).is_err() {
        violation("panic-in-drop", "releasing a value panicked");
    }
}
fn same(what: &str, s: &Slot) {
    let now = s.v.cv();
    if now != s.cv {
        violation("input-changed", &format!("{what}: the value was {} and is now {}", short(&s.cv), short(&now)));
    }
}

/// What a thread does while it ends: a program run by the destructor of one
/// of its thread-local values, which also owns the thread's values.
struct End {
    t: u32,
    from: usize,
    own: Vec<Option<Slot>>,
}
struct AtEnd(Option<End>);
impl Drop for AtEnd {
    fn drop(&mut self) {
        if let Some(e) = self.0.take() {
            let ops = &sh().plan.threads[e.t as usize];
            run_from(e.t, ops, e.from, e.own, false);
        }
    }
}
thread_local! {
    static END: std::cell::RefCell<AtEnd> = const { std::cell::RefCell::new(AtEnd(None)) };
}
fn run_ops(t: u32, ops: &[Op], shared_regs: bool) {
    let own: Vec<Option<Slot>> = (0..NREG).map(|_| None).collect();
    if !shared_regs && matches!(ops.iter().find(|o| matches!(o.c, Code::AtExit(_))), Some(Op { c: Code::AtExit(true), .. })) {
        END.with(|e| e.borrow_mut().0 = None);
    }
    run_from(t, ops, 0, own, shared_regs);
}
fn run_from(t: u32, ops: &[Op], from: usize, mut own: Vec<Option<Slot>>, shared_regs: bool) {
    for (i, op) in ops.iter().enumerate().skip(from) {
        if !shared_regs && from == 0 && matches!(op.c, Code::AtExit(_)) {
            unsafe { rt_fault(H_TLS_END) };
            let e = End { t, from: i + 1, own };
            END.with(|x| x.borrow_mut().0 = Some(e));
            return;
        }
        // in the setup phase the shared registers are the own ones
        let regs: &mut Vec<Option<Slot>> = if shared_regs { &mut sh().s } else { &mut own };
        step(t, i as u32, op, regs);
    }
    for (i, r) in own.iter().enumerate() {
        if let Some(s) = r {
            same(&format!("own value {i} of thread {t}"), s);
        }
    }
    for (i, r) in own.into_iter().enumerate() {
        if let Some(s) = r {
            drop_active(1000 + i as u32, s);
        }
    }
}

fn step(t: u32, i: u32, op: &Op, regs: &mut Vec<Option<Slot>>) {
    let shared = sh();
    let setup = t == SETUP;
    let get = |regs: &Vec<Option<Slot>>, a: &A| -> Option<*const Slot> {
        match a {
            A::R(n) => regs.get(*n as usize).and_then(|x| x.as_ref()).map(|x| x as *const Slot),
            A::S(n) => shared.s.get(*n as usize).and_then(|x| x.as_ref()).map(|x| x as *const Slot),
        }
    };
    match &op.c {
        Code::Send(k) => {
            let Some(A::R(n)) = op.a.first() else { return };
            let Some(v) = regs[*n as usize].take() else { return };
            // the place behaves like a mutex-protected cell
            unsafe {
                rt_acquire(0x100 + *k as u64 * 8);
                rt_release(0x100 + *k as u64 * 8);
            }
            if let Some(old) = sh().slots[*k as usize].replace(v) {
                drop_active(i, old);
            }
            return;
        }
        Code::Recv(k) => {
            let Some(v) = sh().slots[*k as usize].take() else { return };
            unsafe {
                rt_acquire(0x100 + *k as u64 * 8);
                rt_fault(H_HANDOVER);
            }
            same("handed-over value", &v);
            if let Some(old) = regs[op.d.unwrap_or(0) as usize].replace(v) {
                drop_active(i, old);
            }
            return;
        }
        Code::AtExit(_) => return,
        Code::Drop => {
            let Some(A::R(n)) = op.a.first() else { return };
            if let Some(v) = regs[*n as usize].take() {
                drop_active(i, v);
            }
            return;
        }
        _ => {}
    }
    let ma = mut_arg(&op.c);
    // take the value that is changed in place out of its register
    let mut taken: Option<Slot> = None;
    if let Some(m) = ma {
        match op.a.get(m) {
            Some(A::R(n)) if !setup => taken = regs[*n as usize].take(),
            _ => return,
        }
        if taken.is_none() {
            return;
        }
    }
    let mut args: Vec<*const Slot> = vec![];
    let mut ok = true;
    for (k, a) in op.a.iter().enumerate() {
        if Some(k) == ma {
            args.push(std::ptr::null());
            continue;
        }
        match get(regs, a) {
            Some(p) => args.push(p),
            None => ok = false,
        }
    }
    let put_back = |regs: &mut Vec<Option<Slot>>, taken: &mut Option<Slot>| {
        if let (Some(m), Some(s)) = (ma, taken.take()) {
            if let Some(A::R(n)) = op.a.get(m) {
                regs[*n as usize] = Some(s);
            }
        }
    };
    // algs that are built from algs must not grow without bound
    let weight: usize = args.iter().filter(|p| !p.is_null()).map(|p| unsafe { (**p).cv.weight() }).sum();
    if !ok || (matches!(op.c, Code::Build) && weight > 2000) {
        put_back(regs, &mut taken);
        return;
    }
    let acv: Vec<CV> = args.iter().map(|p| if p.is_null() { taken.as_ref().unwrap().cv.clone() } else { unsafe { (**p).cv.clone() } }).collect();
    let (out, r);
    {
        let mut refs: Vec<ArgRef> = args
            .iter()
            .map(|p| if p.is_null() { ArgRef::Mut(unsafe { &mut *(&mut taken.as_mut().unwrap().v as *mut Val) }) } else { ArgRef::Ref(unsafe { &(**p).v }) })
            .collect();
        let mut v: Vec<&mut ArgRef> = refs.iter_mut().collect();
        let specs = &shared.plan.specs;
        out = active(i, || perform(specs, &op.c, &mut v));
    }
    let mut newv = None;
    match out {
        Ok(Out::Skip) => {
            put_back(regs, &mut taken);
            return;
        }
        Ok(Out::V(v)) => {
            let cv = v.cv();
            r = cv.clone();
            newv = Some(Slot { v, cv });
        }
        Ok(Out::C(c)) => r = c.clone(), // records live on the harness heap, not among the values under test
        Ok(Out::E(e)) => r = CV::Err(e.to_string()),
        Ok(Out::M(e, t)) => r = err_cv(e, &t),
        Err(_payload) => {
            unsafe { rt_fault(H_CALL_PANIC) };
            r = CV::Panic
        }
    }
    if let Some(s) = taken.as_mut() {
        let now = s.v.cv();
        if r == CV::Panic && now != s.cv && !matches!(op.c, Code::ApplyInto | Code::ComposeInto) {
            violation("changed-by-panicking-call", &format!("thread {t} op {i} {:?} panicked, but its value was {} and is now {}", op.c, short(&s.cv), short(&now)));
        }
        s.cv = now;
    }
    put_back(regs, &mut taken);
    let round = sh().round;
    if round < 3 {
        sh().recs.push(Rec { t, i, round, a: acv, r });
    }
    if let Some(n) = newv {
        let d = op.d.unwrap_or(0) as usize;
        if regs.len() <= d {
            regs.resize_with(d + 1, || None);
        }
        if let Some(old) = regs[d].replace(n) {
            drop_active(i, old);
        }
    }
}

fn phase(fs: Vec<Box<dyn FnOnce() + Send>>) {
    let mut hs = vec![];
    for f in fs {
        hs.push(std::thread::Builder::new().spawn(f).expect("thread"));
    }
    unsafe { rt_go() };
    for h in hs {
        if h.join().is_err() {
            eprintln!("harness thread panicked");
            unsafe { rt_exit(2) }
        }
    }
}

/// Memory that grows in all of these rounds of the same work (the most at one
/// of them is less than the least at the next) is never going to be released;
/// a bounded cache is full by then.
const LATER: [std::ops::Range<usize>; 5] = [10..14, 18..22, 26..30, 34..38, 42..46];
const MANY_ROUNDS: u32 = 46;

/// Run the plan in this process; never returns.
pub fn child(plan: &Plan) -> ! {
    let shared = Box::new(Shared { plan: plan.clone(), s: vec![], slots: (0..4).map(|_| None).collect(), recs: vec![], round: 0 });
    unsafe { SH = Box::into_raw(shared) };
    let plan = &sh().plan;
    let mut cfg: Box<Cfg> = unsafe { Box::new(std::mem::zeroed()) };
    plan.sched.fill(&mut cfg);
    unsafe { rt_begin(&*cfg) };
    let mut live = vec![];
    let mut seqs = vec![];
    let mut rounds = plan.rounds.max(1);
    let mut round = 0;
    while round < rounds {
        sh().round = round;
        seqs.push(unsafe { rt_alloc_seq() });
        if !plan.setup.is_empty() {
            phase(vec![Box::new(|| run_ops(SETUP, &sh().plan.setup, true))]);
        }
        let mut fs: Vec<Box<dyn FnOnce() + Send>> = vec![];
        for t in 0..plan.threads.len() {
            fs.push(Box::new(move || run_ops(t as u32, &sh().plan.threads[t], false)));
        }
        phase(fs);
        phase(vec![Box::new(|| {
            for (i, s) in sh().s.iter().enumerate() {
                if let Some(s) = s {
                    same(&format!("shared value {i}"), s);
                }
            }
            for (i, s) in sh().slots.iter().enumerate() {
                if let Some(s) = s {
                    same(&format!("value left in hand-over place {i}"), s);
                }
            }
            for (i, s) in std::mem::take(&mut sh().s).into_iter().enumerate() {
                if let Some(s) = s {
                    drop_active(1100 + i as u32, s);
                }
            }
            for k in 0..sh().slots.len() {
                if let Some(s) = sh().slots[k].take() {
                    drop_active(1200 + k as u32, s);
                }
            }
        })]);
        live.push(unsafe { (rt_live_bytes(), rt_live_blocks()) });
        round += 1;
        // A bounded cache may still be filling up: look again much later, if
        // the simulated heap has room for it.
        let used = unsafe { rt_heap_used() };
        if plan.balance && round == rounds && rounds >= 3 && rounds < MANY_ROUNDS && live[round as usize - 1] > live[round as usize - 2] {
            rounds = MANY_ROUNDS;
        }
        let each = used / round as u64 + (1 << 16);
        if round > 3 && rounds == MANY_ROUNDS && round < rounds && used + 3 * each > unsafe { rt_heap_size() } {
            break;
        }
    }
    if plan.balance && live.len() == MANY_ROUNDS as usize {
        let n = live.len();
        let most: Vec<_> = LATER.iter().map(|w| *live[w.clone()].iter().max().unwrap()).collect();
        let least: Vec<_> = LATER.iter().map(|w| *live[w.clone()].iter().min().unwrap()).collect();
        let before = LATER[0].end - 1;
        let (was, is) = (most[0], least[4]);
        if (1..5).all(|i| least[i] > most[i - 1]) {
            let mut b = vec![0u8; 2000];
            unsafe { rt_live_dump(seqs[before + 1], b.as_mut_ptr() as *mut _, 1900) };
            violation(
                "leak",
                &format!("repeating the same work {} time(s) left {} more bytes in {} more blocks unreleased: {}", n - 1 - before, is.0 - was.0, is.1 as i64 - was.1 as i64, cstr(&b)),
            );
        }
    }
    emit(&serde_json::to_string(&sh().recs).unwrap());
    unsafe { rt_end() }
}
fn emit(s: &str) {
    let r = rt::res();
    if s.len() > OUTMAX {
        eprintln!("result too large");
        unsafe { rt_exit(2) }
    }
    r.out[..s.len()].copy_from_slice(s.as_bytes());
    r.outlen = s.len() as u64;
}

// ---------------------------------------------------------------- solo calls
/// Rebuild an argument from its plain description.
fn rebuild(specs: &[Spec], c: &CV) -> Option<Val> {
    let puz = |s: usize| read_puzzle(&specs[s], 0, 0)?.ok();
    Some(match c {
        CV::Alg(a) => Val::Alg(mk_alg(a)),
        CV::Move(m) => Val::Move(mk_move(m)),
        CV::QMove(f, p) => Val::QMove(cubing_core::alg::QuantumMove::new(f.clone(), mk_prefix(p))),
        CV::Puzzle(s, _) => Val::Puzzle(puz(*s)?, *s),
        CV::Pat(s, m) => Val::Pat(mk_pat(&puz(*s)?, m)?, *s),
        CV::Tr(s, m) => Val::Tr(mk_tr(&puz(*s)?, m)?, *s),
        CV::PBuf(s, m) => Val::PBuf(mk_pat(&puz(*s)?, m)?.into(), *s),
        CV::TBuf(s, m) => Val::TBuf(mk_tr(&puz(*s)?, m)?.into(), *s),
        CV::PData(m) => Val::PData(pat_data(m)),
        CV::TData(m) => Val::TData(tr_data(m)),
        CV::Text(t) => Val::Text(t.clone()),
        _ => return None,
    })
}
fn is_buf(c: &Code) -> bool {
    matches!(c, Code::BufApply | Code::BufCurrent | Code::BufEq | Code::ApplyInto | Code::ComposeInto)
}
/// The same call made alone in a fresh process.  With `plain`, updates in
/// place are evaluated as fresh applications.
pub fn solo_child(specs: &[Spec], code: &Code, args: &[CV], plain: bool) -> ! {
    let mut cfg: Box<Cfg> = unsafe { Box::new(std::mem::zeroed()) };
    cfg.step_cap = 2_000_000_000;
    crate::nest::APART.store(true, std::sync::atomic::Ordering::Relaxed);
    unsafe { rt_begin(&*cfg) };
    struct P(*const [Spec], *const Code, *const [CV], bool);
    unsafe impl Send for P {}
    let p = P(specs, code, args, plain);
    phase(vec![Box::new(move || {
        let p = p;
        let (specs, code, args, plain) = unsafe { (&*p.0, &*p.1, &*p.2, p.3) };
        let mut code = code.clone();
        let mut args = args.to_vec();
        let mut wrap = 0;
        if plain && is_buf(&code) {
            for a in args.iter_mut() {
                *a = match a.clone() {
                    CV::PBuf(s, m) => CV::Pat(s, m),
                    CV::TBuf(s, m) => CV::Tr(s, m),
                    o => o,
                };
            }
            match code {
                Code::BufApply => {
                    wrap = 1;
                    // a transformation of another puzzle of the same size is taken as it is
                    if let (CV::Tr(s, _), CV::Tr(u, _)) = (&args[0], &args[1]) {
                        if s != u {
                            wrap = 2;
                        }
                    }
                    code = if matches!(args[0], CV::Pat(..)) { Code::ApplyTrans } else { Code::Compose };
                }
                Code::ApplyInto => {
                    args.pop();
                    code = Code::ApplyTrans
                }
                Code::ComposeInto => {
                    args.pop();
                    code = Code::Compose
                }
                Code::BufCurrent => code = Code::Clone,
                Code::BufEq => code = Code::Eq,
                _ => {}
            }
        }
        let vals: Option<Vec<Val>> = args.iter().map(|a| catch_unwind(AssertUnwindSafe(|| rebuild(specs, a))).ok().flatten()).collect();
        let Some(mut vals) = vals else {
            emit("\"Unit\"");
            unsafe {
                rt::res().errlen = 77777;
                rt_end()
            }
        };
        let ma = mut_arg(&code);
        let mut refs: Vec<ArgRef> = vals.iter_mut().enumerate().map(|(i, v)| if Some(i) == ma { ArgRef::Mut(v) } else { ArgRef::Ref(v) }).collect();
        let mut v: Vec<&mut ArgRef> = refs.iter_mut().collect();
        let out = if wrap == 2 {
            active(0, || match (v[0].get(), v[1].get()) {
                (Val::Tr(p, s), Val::Tr(t, _)) => Out::V(Val::Tr(p.apply_transformation(t), *s)),
                _ => Out::Skip,
            })
        } else {
            active(0, || perform(specs, &code, &mut v))
        };
        let r = match out {
            Ok(Out::Skip) => CV::Crash("skip".into()),
            Ok(Out::V(v)) => v.cv(),
            Ok(Out::C(c)) => c,
            Ok(Out::E(e)) => CV::Err(e.to_string()),
            Ok(Out::M(e, t)) => err_cv(e, &t),
            Err(_) => CV::Panic,
        };
        let r = match (wrap, r) {
            (1 | 2, CV::Pat(s, m)) => CV::PBuf(s, m),
            (1 | 2, CV::Tr(s, m)) => CV::TBuf(s, m),
            (_, r) => r,
        };
        emit(&serde_json::to_string(&r).unwrap());
        unsafe { rt_end() }
    })]);
    unsafe { rt_exit(2) }
}
