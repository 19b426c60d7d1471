//! Sinks and readers supplied by a caller, with scripted faults.
use crate::cv::*;
use crate::ops::*;
use crate::rt::{self, paused};
use cubing_core::alg::*;
use cubing_core::kpuzzle::*;
use std::fmt::{self, Display};
use std::io::{self, Read, Write};

// harness fault counters (see check.py)
pub const H_SINK_SHORT: u32 = 0;
pub const H_SINK_INTR: u32 = 1;
pub const H_SINK_ERR: u32 = 2;
pub const H_SINK_PANIC: u32 = 3;
pub const H_SINK_ZERO: u32 = 4;
pub const H_RD_SHORT: u32 = 5;
pub const H_RD_INTR: u32 = 6;
pub const H_RD_ERR: u32 = 7;
pub const H_RD_EOF: u32 = 8;
pub const H_RD_PANIC: u32 = 9;
pub const H_CALL_PANIC: u32 = 10;
pub const H_MAPORDER: u32 = 12;
pub const H_HANDOVER: u32 = 13;
pub const H_HASHER_PANIC: u32 = 14;
pub const H_NEST: u32 = 15;
pub const H_NEST_SINK: u32 = 16;
pub const H_NEST_READ: u32 = 17;
pub const H_NEST_HASH: u32 = 18;
pub const H_NEST_UNWIND: u32 = 19;
pub const H_NEST_HOOK: u32 = 20;
pub const H_NEST_ITER: u32 = 21;
pub const H_TLS_END: u32 = 22;
fn fault(i: u32) {
    unsafe { rt::rt_fault(i) }
}

pub struct Sink<'a> {
    pub plan: &'a IoPlan,
    pub got: Vec<u8>,
    pub n: u32,
    pub failed: bool,
    pub after: u32,
}
impl<'a> Sink<'a> {
    pub fn new(plan: &'a IoPlan) -> Self {
        Sink { plan, got: vec![], n: 0, failed: false, after: 0 }
    }
    /// how many of `want` bytes to take now
    fn step(&mut self, want: usize, all: bool) -> io::Result<usize> {
        let k = self.n;
        self.n += 1;
        if self.failed {
            if want > 0 {
                self.after += 1;
            }
            if self.plan.fail_kind != 3 {
                return Err(io::Error::from(io::ErrorKind::StorageFull));
            }
        }
        if !all && self.plan.intr.contains(&(k as u16)) {
            fault(H_SINK_INTR);
            return Err(io::Error::from(io::ErrorKind::Interrupted));
        }
        let mut m = want;
        if !all && !self.plan.chunks.is_empty() {
            let c = self.plan.chunks[k as usize % self.plan.chunks.len()].max(1) as usize;
            if c < m {
                m = c;
                fault(H_SINK_SHORT);
            }
        }
        if let (Some(f), false) = (self.plan.fail_at, self.failed) {
            let f = f as usize;
            if self.got.len() + m > f || (m > 0 && self.got.len() >= f) {
                if all || self.got.len() >= f {
                    self.failed = true;
                    match self.plan.fail_kind {
                        1 => {
                            fault(H_SINK_PANIC);
                            std::panic::panic_any("sink")
                        }
                        2 if !all => {
                            fault(H_SINK_ZERO);
                            return Ok(0);
                        }
                        _ => {
                            fault(H_SINK_ERR);
                            return Err(io::Error::from(io::ErrorKind::StorageFull));
                        }
                    }
                }
                m = f - self.got.len();
            }
        }
        Ok(m)
    }
}
impl fmt::Write for Sink<'_> {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        paused(|| {
            let m = self.step(s.len(), true).map_err(|_| fmt::Error)?;
            self.got.extend_from_slice(&s.as_bytes()[..m]);
            Ok(())
        })
    }
}
impl Write for Sink<'_> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        paused(|| {
            let m = self.step(b.len(), false)?;
            self.got.extend_from_slice(&b[..m]);
            Ok(m)
        })
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

fn show(b: &[u8]) -> String {
    let s = String::from_utf8_lossy(b);
    if s.len() > 160 {
        format!("{}… ({} bytes)", s.chars().take(160).collect::<String>(), b.len())
    } else {
        s.into_owned()
    }
}
fn verdict(what: &str, plan: &IoPlan, sink: &Sink, ok: bool, full: &str, again: &str) {
    paused(|| {
        let full_b = full.as_bytes();
        let mut bad = None;
        if again != full {
            bad = Some(format!("printing it again gave {:?}", show(again.as_bytes())));
        }
        if sink.failed {
            if ok {
                bad = Some("the call reported success although the sink had failed".into());
            } else if !full_b.starts_with(&sink.got) {
                bad = Some(format!("delivered text {:?} is not a prefix of the full text", show(&sink.got)));
            } else if sink.after > 0 {
                bad = Some(format!("{} more write(s) were made after the sink had failed", sink.after));
            }
        } else if !ok {
            bad = Some("the call reported failure although the sink never failed".into());
        } else if sink.got != full_b {
            bad = Some(format!("delivered text is {:?}", show(&sink.got)));
        }
        if let Some(b) = bad {
            rt::violation("delivery-differs", &format!("{what} into a sink with {:?}: {b}; full text {:?}", plan, show(full_b)));
        }
    })
}
fn print_any<T: Display + ?Sized>(what: &str, x: &T, plan: &IoPlan) -> Out {
    let full = x.to_string();
    let mut s = Sink::new(plan);
    let ok = if plan.chunks.is_empty() {
        fmt::Write::write_fmt(&mut s, format_args!("{x}")).is_ok()
    } else {
        io::Write::write_fmt(&mut s, format_args!("{x}")).is_ok()
    };
    let again = x.to_string();
    verdict(what, plan, &s, ok, &full, &again);
    Out::C(paused(|| CV::List(vec![CV::Text(full.clone()), CV::Bool(s.failed)])))
}
pub fn print_to(v: &Val, plan: &IoPlan) -> Out {
    match v {
        Val::Alg(x) => print_any("printing an alg", x, plan),
        Val::Move(x) => print_any("printing a move", x, plan),
        Val::QMove(x) => print_any("printing a quantum move", x, plan),
        Val::Text(t) => match t.parse::<cubing_core::alg::Alg>() {
            Ok(_) => Out::C(CV::Unit),
            Err(e) => match print_any("printing an error", &e, plan) {
                Out::C(_) => Out::C(CV::Unit), // the wording is not promised
                o => o,
            },
        },
        Val::Puzzle(k, _) => {
            print_any("printing an orbit name", &k.orbit_info_iter().next().map(|o| o.name.clone()).unwrap_or_else(|| KPuzzleOrbitName::from("none")), plan);
            if let Err(e) = k.transformation_from_move(&cubing_core::alg::Move { quantum: std::sync::Arc::new(QuantumMove::new("NoSuchMove", None)), amount: 2 }) {
                print_any("printing an error", &e, plan);
            }
            Out::C(CV::Unit)
        }
        _ => Out::Skip,
    }
}
/// `same`: the text is the same every time (no hash maps inside).
fn debug_any<T: fmt::Debug + ?Sized>(what: &str, x: &T, plan: &IoPlan, same: bool) -> Out {
    struct D<'a, T: ?Sized>(&'a T);
    impl<T: fmt::Debug + ?Sized> Display for D<'_, T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            self.0.fmt(f)
        }
    }
    if same {
        return print_any(what, &D(x), plan);
    }
    let mut s = Sink::new(plan);
    let ok = fmt::Write::write_fmt(&mut s, format_args!("{x:?}")).is_ok();
    paused(|| {
        let bad = match (s.failed, ok) {
            (true, true) => "the call reported success although the sink had failed",
            (false, false) => "the call reported failure although the sink never failed",
            (true, _) if s.after > 0 => "more was written after the sink had failed",
            _ => return,
        };
        rt::violation("delivery-differs", &format!("{what} into a sink with {:?}: {bad}; delivered {:?}", plan, show(&s.got)));
    });
    Out::C(CV::Unit)
}
pub fn debug_to(v: &Val, plan: &IoPlan) -> Out {
    match v {
        Val::Alg(x) => debug_any("debug-printing an alg", x, plan, true),
        Val::Move(x) => debug_any("debug-printing a move", x, plan, true),
        Val::QMove(x) => debug_any("debug-printing a quantum move", x, plan, true),
        Val::Puzzle(x, _) => debug_any("debug-printing a puzzle", x, plan, true),
        Val::PuzzleRef(x, _) => debug_any("debug-printing a puzzle", *x, plan, true),
        Val::Pat(x, _) => debug_any("debug-printing a pattern", x, plan, false),
        Val::Tr(x, _) => debug_any("debug-printing a transformation", x, plan, false),
        Val::PData(x) => debug_any("debug-printing pattern data", x, plan, false),
        Val::TData(x) => debug_any("debug-printing transformation data", x, plan, false),
        _ => Out::Skip,
    }
}
fn ser_any<T: serde::Serialize>(what: &str, x: &T, plan: &IoPlan) -> Out {
    let full = match serde_json::to_string(x) {
        Ok(s) => s,
        Err(_) => return Out::E("Ser"),
    };
    let mut s = Sink::new(plan);
    let ok = serde_json::to_writer(&mut s, x).is_ok();
    let again = serde_json::to_string(x).unwrap_or_default();
    verdict(what, plan, &s, ok, &full, &again);
    Out::C(paused(|| CV::List(vec![CV::Json(json_norm(&full)), CV::Bool(s.failed)])))
}
pub fn ser_to(v: &Val, plan: &IoPlan) -> Out {
    match v {
        Val::Alg(x) => ser_any("serialising an alg", x, plan),
        Val::Move(x) => ser_any("serialising a move", x, plan),
        Val::QMove(x) => ser_any("serialising a quantum move", x, plan),
        Val::PData(x) => ser_any("serialising pattern data", x, plan),
        Val::TData(x) => ser_any("serialising transformation data", x, plan),
        Val::Puzzle(k, _) => match ser_any("serialising a puzzle definition", k.definition(), plan) {
            // hash order decides where the failure position lies
            Out::C(CV::List(mut l)) => Out::C(l.swap_remove(0)),
            o => o,
        },
        Val::PuzzleRef(k, _) => match ser_any("serialising a puzzle definition", k.definition(), plan) {
            Out::C(CV::List(mut l)) => Out::C(l.swap_remove(0)),
            o => o,
        },
        _ => Out::Skip,
    }
}

pub struct Source<'a> {
    pub plan: &'a IoPlan,
    pub b: &'a [u8],
    pub pos: usize,
    pub n: u32,
    pub failed: bool,
}
impl<'a> Source<'a> {
    pub fn new(plan: &'a IoPlan, b: &'a [u8]) -> Self {
        Source { plan, b, pos: 0, n: 0, failed: false }
    }
}
impl Read for Source<'_> {
    fn read(&mut self, out: &mut [u8]) -> io::Result<usize> {
        paused(|| {
            let k = self.n;
            self.n += 1;
            if self.plan.intr.contains(&(k as u16)) {
                fault(H_RD_INTR);
                return Err(io::Error::from(io::ErrorKind::Interrupted));
            }
            let mut m = out.len().min(self.b.len() - self.pos);
            if !self.plan.chunks.is_empty() {
                let c = self.plan.chunks[k as usize % self.plan.chunks.len()].max(1) as usize;
                if c < m {
                    m = c;
                    fault(H_RD_SHORT);
                }
            }
            if let Some(f) = self.plan.fail_at {
                let f = f as usize;
                if self.plan.fail_kind == 2 {
                    if f < self.b.len() && self.pos + m > f {
                        m = f.saturating_sub(self.pos);
                        if m == 0 {
                            self.failed = true;
                            fault(H_RD_EOF);
                        }
                    }
                } else if !self.failed && f <= self.b.len() {
                    if self.pos >= f {
                        self.failed = true;
                        if self.plan.fail_kind == 1 {
                            fault(H_RD_PANIC);
                            std::panic::panic_any("reader")
                        }
                        fault(H_RD_ERR);
                        return Err(io::Error::from(io::ErrorKind::ConnectionReset));
                    }
                    m = m.min(f - self.pos);
                } else if self.failed && self.plan.fail_kind == 0 {
                    return Err(io::Error::from(io::ErrorKind::ConnectionReset));
                }
            }
            out[..m].copy_from_slice(&self.b[self.pos..self.pos + m]);
            self.pos += m;
            Ok(m)
        })
    }
}
fn de_any<T: serde::de::DeserializeOwned>(what: &str, text: &str, plan: &IoPlan, cv: impl Fn(&T) -> CV) -> Out {
    // reference: the bytes the reader is going to deliver, read from memory
    let calm = IoPlan { chunks: plan.chunks.clone(), intr: plan.intr.clone(), fail_at: None, fail_kind: 0 };
    let cut = match plan.fail_at {
        Some(f) if plan.fail_kind == 2 => (f as usize).min(text.len()),
        _ => text.len(),
    };
    let v = |r: Result<T, serde_json::Error>| match r {
        Ok(x) => paused(|| cv(&x)),
        Err(_) => CV::Err("De".into()),
    };
    let whole = v(serde_json::from_slice::<T>(text.as_bytes()));
    let mem = if cut == text.len() { whole.clone() } else { v(serde_json::from_slice::<T>(&text.as_bytes()[..cut])) };
    let mut src = Source::new(plan, text.as_bytes());
    let got = v(serde_json::from_reader::<_, T>(&mut src));
    let (failed, pos, n) = (src.failed, src.pos, src.n);
    let again = v(serde_json::from_reader::<_, T>(Source::new(&calm, text.as_bytes())));
    paused(|| {
        let mut bad = None;
        let err = CV::Err("De".into());
        if failed && plan.fail_kind != 2 {
            if got != err {
                bad = Some(format!("the reader failed, yet the result is {}", short(&got)));
            }
        } else if got != mem {
            bad = Some(format!("result {} although the same bytes in memory give {}", short(&got), short(&mem)));
        }
        if again != whole {
            bad = Some(format!("a later read of the intact bytes gives {} instead of {}", short(&again), short(&whole)));
        }
        if let Some(b) = bad {
            rt::violation("read-differs", &format!("{what} from a reader with {:?} ({pos} bytes in {n} reads): {b}; text {:?}", plan, show(text.as_bytes())));
        }
    });
    Out::C(whole)
}
pub fn short(c: &CV) -> String {
    let s = format!("{:?}", c);
    if s.len() > 300 {
        format!("{}…", s.chars().take(300).collect::<String>())
    } else {
        s
    }
}
pub fn de_from(kind: u8, text: &str, plan: &IoPlan) -> Out {
    match kind % 6 {
        0 => de_any::<cubing_core::alg::Alg>("reading an alg", text, plan, |x| CV::Alg(alg_cv(x))),
        1 => de_any::<cubing_core::alg::Move>("reading a move", text, plan, |x| CV::Move(move_cv(x))),
        2 => de_any::<QuantumMove>("reading a quantum move", text, plan, |x| CV::QMove(x.family.clone(), prefix_cv(&x.prefix))),
        3 => de_any::<KPuzzleDefinition>("reading a puzzle definition", text, plan, |x| CV::Json(json_norm(&serde_json::to_string(x).unwrap_or_default()))),
        4 => de_any::<KPatternData>("reading pattern data", text, plan, pdata_cv),
        _ => de_any::<KTransformationData>("reading transformation data", text, plan, tdata_cv),
    }
}

/// A caller-supplied hasher that panics after some bytes.
pub struct PanicHasher(pub u32);
impl std::hash::Hasher for PanicHasher {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        paused(|| {
            if b.len() as u32 > self.0 {
                fault(H_HASHER_PANIC);
                std::panic::panic_any("hasher")
            }
            self.0 -= b.len() as u32;
        })
    }
}
