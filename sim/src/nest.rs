//! Calls made from inside other calls: by the caller's sink, reader, hasher
//! or panic hook while the library is calling it, by a destructor while the
//! thread unwinds, or while an iterator of the library is held.
use crate::cv::*;
use crate::ops::*;
use crate::rt::{self, paused};
use crate::streams::{H_NEST, H_NEST_HASH, H_NEST_HOOK, H_NEST_ITER, H_NEST_READ, H_NEST_SINK, H_NEST_UNWIND};
use crate::spec::*;
use cubing_core::alg::*;
use cubing_core::kpuzzle::*;
use std::cell::Cell;
use std::fmt::{self, Debug, Display, Write as _};
use std::hash::{Hash, Hasher};
use std::io;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, Ordering};

/// Evaluate the two calls one after the other (the reference).
pub static APART: AtomicBool = AtomicBool::new(false);

type Inner<'a> = &'a mut dyn FnMut();
thread_local! {
    static HOOK: Cell<Option<*mut (dyn FnMut() + 'static)>> = const { Cell::new(None) };
}
/// Called by the process's panic hook.
pub fn hook() {
    if let Some(p) = HOOK.with(|h| h.take()) {
        unsafe { (*p)() }
    }
}

struct S<'a> {
    n: u32,
    at: u32,
    /// panic at this transfer
    boom: bool,
    got: Vec<u8>,
    f: Inner<'a>,
}
impl S<'_> {
    fn take(&mut self, b: &[u8]) {
        let k = self.n;
        self.n += 1;
        if k == self.at {
            if self.boom {
                std::panic::panic_any("sink")
            }
            (self.f)();
        }
        paused(|| self.got.extend_from_slice(b));
    }
    fn text(&self) -> CV {
        paused(|| CV::Text(String::from_utf8_lossy(&self.got).into_owned()))
    }
}
impl fmt::Write for S<'_> {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.take(s.as_bytes());
        Ok(())
    }
}
impl io::Write for S<'_> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        // one write in pieces, so that there are more places to call from
        let m = b.len().min(5);
        self.take(&b[..m]);
        Ok(m)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
struct R<'a> {
    b: &'a [u8],
    pos: usize,
    n: u32,
    at: u32,
    f: Inner<'a>,
}
impl io::Read for R<'_> {
    fn read(&mut self, out: &mut [u8]) -> io::Result<usize> {
        let k = self.n;
        self.n += 1;
        if k == self.at {
            (self.f)();
        }
        let m = out.len().min(7).min(self.b.len() - self.pos);
        paused(|| out[..m].copy_from_slice(&self.b[self.pos..self.pos + m]));
        self.pos += m;
        Ok(m)
    }
}
struct H<'a> {
    n: u32,
    at: u32,
    got: Vec<u8>,
    f: Inner<'a>,
}
impl Hasher for H<'_> {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        let k = self.n;
        self.n += 1;
        if k == self.at {
            (self.f)();
        }
        paused(|| self.got.extend_from_slice(b));
    }
}
struct OnDrop<'a>(Inner<'a>);
impl Drop for OnDrop<'_> {
    fn drop(&mut self) {
        (self.0)()
    }
}
struct Dbg<'a, T: ?Sized>(&'a T);
impl<T: Debug + ?Sized> Display for Dbg<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.0.fmt(f)
    }
}
fn sink<'a>(at: u32, boom: bool, f: Inner<'a>) -> S<'a> {
    S { n: 0, at, boom, got: vec![], f }
}
fn print(x: &dyn Display, at: u32, f: Inner) -> Option<CV> {
    let mut s = sink(at, false, f);
    let ok = write!(s, "{x}").is_ok();
    Some(if ok { s.text() } else { paused(|| CV::Err("print".into())) })
}
/// A printable form of the value.
fn shown(v: &Val, debug: bool, f: &mut dyn FnMut(&dyn Display) -> Option<CV>) -> Option<CV> {
    if debug {
        return match v {
            Val::Alg(x) => f(&Dbg(x)),
            Val::Move(x) => f(&Dbg(x)),
            Val::QMove(x) => f(&Dbg(x)),
            Val::Puzzle(x, _) => f(&Dbg(x)),
            // hash maps: the text is not compared
            Val::Pat(x, _) => f(&Dbg(x)).map(|_| CV::Unit),
            Val::Tr(x, _) => f(&Dbg(x)).map(|_| CV::Unit),
            Val::PData(x) => f(&Dbg(x)).map(|_| CV::Unit),
            Val::TData(x) => f(&Dbg(x)).map(|_| CV::Unit),
            _ => None,
        };
    }
    match v {
        Val::Alg(x) => f(x),
        Val::Move(x) => f(x),
        Val::QMove(x) => f(x),
        Val::Text(t) => match t.parse::<Alg>() {
            Ok(x) => f(&x),
            Err(e) => f(&e).map(|_| CV::Unit),
        },
        Val::Puzzle(k, _) => match k.transformation_from_move(&Move { quantum: std::sync::Arc::new(QuantumMove::new("NoSuchMove", None)), amount: 2 }) {
            Ok(_) => Some(CV::Unit),
            Err(e) => f(&e),
        },
        _ => None,
    }
}
/// A call the library may refuse by panicking.
fn misused(v: &Val, at: u32) -> Option<CV> {
    match v {
        Val::Puzzle(k, s) => {
            let p = k.default_pattern();
            Some(paused(|| CV::Pat(*s, pat_cv(&p))))
        }
        Val::Pat(p, s) => {
            let k = p.kpuzzle();
            let o = k.orbit_info_iter().last()?;
            if at % 2 == 0 {
                let n = p.get_piece(o, o.num_pieces.saturating_add(at as u8));
                return Some(paused(|| CV::Num(n as i64)));
            }
            let mut q = p.clone();
            let _ = catch_unwind(AssertUnwindSafe(|| q.set_orientation_with_mod(o, o.num_pieces.saturating_sub(at as u8 % 3), &OrientationWithMod { orientation: 200, orientation_mod: 3 })));
            Some(paused(|| CV::Pat(*s, pat_cv(&q))))
        }
        Val::Tr(p, s) => {
            let k = p.kpuzzle();
            let o = k.orbit_info_iter().last()?;
            if at % 2 == 0 {
                let n = p.get_permutation_idx(o, o.num_pieces.saturating_add(at as u8));
                return Some(paused(|| CV::Num(n as i64)));
            }
            let mut q = p.clone();
            let _ = catch_unwind(AssertUnwindSafe(|| q.set_permutation_idx(o, o.num_pieces.saturating_add(at as u8), 200)));
            Some(paused(|| CV::Tr(*s, tr_cv(&q))))
        }
        _ => None,
    }
}
fn de<T: serde::de::DeserializeOwned>(text: &str, at: u32, f: Inner, cv: impl Fn(&T) -> CV) -> Option<CV> {
    let r = serde_json::from_reader::<_, T>(R { b: text.as_bytes(), pos: 0, n: 0, at, f });
    Some(match r {
        Ok(x) => paused(|| cv(&x)),
        Err(_) => paused(|| CV::Err("De".into())),
    })
}
fn ser<T: serde::Serialize>(x: &T, at: u32, f: Inner) -> Option<CV> {
    let mut s = sink(at, false, f);
    if serde_json::to_writer(&mut s, x).is_err() {
        return Some(paused(|| CV::Err("Ser".into())));
    }
    Some(paused(|| CV::Json(json_norm(&String::from_utf8_lossy(&s.got)))))
}

/// The outer call; `f` is run when its turn comes.
fn outer(ctx: u8, at: u32, v: &Val, f: Inner) -> Option<CV> {
    match ctx {
        0 => shown(v, false, &mut |x| print(x, at, f)),
        4 => shown(v, true, &mut |x| print(x, at, f)),
        1 => match v {
            Val::Alg(x) => ser(x, at, f),
            Val::Move(x) => ser(x, at, f),
            Val::QMove(x) => ser(x, at, f),
            Val::PData(x) => ser(x, at, f),
            Val::TData(x) => ser(x, at, f),
            Val::Puzzle(k, _) => ser(k.definition(), at * 7, f),
            _ => None,
        },
        2 => {
            let t = match v {
                Val::Alg(x) => serde_json::to_string(x),
                Val::Move(x) => serde_json::to_string(x),
                Val::QMove(x) => serde_json::to_string(x),
                Val::PData(x) => serde_json::to_string(x),
                Val::TData(x) => serde_json::to_string(x),
                Val::Puzzle(k, _) => serde_json::to_string(k.definition()),
                _ => return None,
            };
            let Ok(t) = t else { return Some(paused(|| CV::Err("Ser".into()))) };
            match v {
                Val::Alg(_) => de::<Alg>(&t, at, f, |x| CV::Alg(alg_cv(x))),
                Val::Move(_) => de::<Move>(&t, at, f, |x| CV::Move(move_cv(x))),
                Val::QMove(_) => de::<QuantumMove>(&t, at, f, |x| CV::QMove(x.family.clone(), prefix_cv(&x.prefix))),
                Val::PData(_) => de::<KPatternData>(&t, at, f, pdata_cv),
                Val::TData(_) => de::<KTransformationData>(&t, at, f, tdata_cv),
                _ => de::<KPuzzleDefinition>(&t, at * 7, f, |x| CV::Json(json_norm(&serde_json::to_string(x).unwrap_or_default()))),
            }
        }
        3 => {
            let mut h = H { n: 0, at, got: vec![], f };
            match v {
                Val::Move(x) => x.hash(&mut h),
                Val::QMove(x) => x.hash(&mut h),
                Val::Pat(x, _) => x.hash(&mut h),
                _ => return None,
            }
            let mut nothing = || ();
            let mut h2 = H { n: 0, at: u32::MAX, got: vec![], f: &mut nothing };
            match v {
                Val::Move(x) => x.hash(&mut h2),
                Val::QMove(x) => x.hash(&mut h2),
                Val::Pat(x, _) => x.hash(&mut h2),
                _ => {}
            }
            Some(paused(|| CV::Bool(h.got == h2.got)))
        }
        // a destructor makes the call while the thread unwinds out of the
        // library and releases what the frames on the way own
        5 | 9 => {
            let debug = ctx == 9;
            let r = catch_unwind(AssertUnwindSafe(|| {
                let _mine = v.clone_val();
                let _g = OnDrop(f);
                let _other = v.clone_val();
                let mut nothing = || ();
                shown(v, debug, &mut |x| {
                    let mut s = sink(at, true, &mut nothing);
                    let _ = write!(s, "{x}");
                    Some(CV::Unit)
                })
            }));
            if let Ok(None) = r {
                return None;
            }
            let mut nothing = || ();
            shown(v, debug, &mut |x| print(x, u32::MAX, &mut nothing))
        }
        // the panic hook makes the call while the library is still running
        8 => {
            let p: *mut (dyn FnMut() + '_) = f;
            if !APART.load(Ordering::Relaxed) {
                HOOK.with(|h| h.set(Some(unsafe { std::mem::transmute::<*mut (dyn FnMut() + '_), *mut (dyn FnMut() + 'static)>(p) })));
            }
            let r = catch_unwind(AssertUnwindSafe(|| {
                let mut nothing = || ();
                shown(v, false, &mut |x| {
                    let mut s = sink(at, true, &mut nothing);
                    let _ = write!(s, "{x}");
                    Some(CV::Unit)
                })
            }));
            HOOK.with(|h| h.set(None));
            if let Ok(None) = r {
                return None;
            }
            let mut nothing = || ();
            shown(v, false, &mut |x| print(x, u32::MAX, &mut nothing))
        }
        // the same two places, while a call of the library panics
        10 | 11 => {
            let p: *mut (dyn FnMut() + '_) = f;
            let apart = APART.load(Ordering::Relaxed);
            if ctx == 10 && !apart {
                HOOK.with(|h| h.set(Some(unsafe { std::mem::transmute::<*mut (dyn FnMut() + '_), *mut (dyn FnMut() + 'static)>(p) })));
            }
            let r = {
                let mut nothing = || ();
                let g: Inner = if ctx == 11 { unsafe { &mut *p } } else { &mut nothing };
                catch_unwind(AssertUnwindSafe(|| {
                    let _mine = v.clone_val();
                    let _g = OnDrop(g);
                    misused(v, at)
                }))
            };
            HOOK.with(|h| h.set(None));
            match r {
                Ok(x) => x,
                Err(_) => Some(CV::Panic),
            }
        }
        // an iterator and references of the library are held meanwhile
        _ => match v {
            Val::Puzzle(k, _) => {
                let d = k.definition();
                let mut names: Vec<String> = vec![];
                let mut dur = false;
                for (i, o) in k.orbit_info_iter().enumerate() {
                    if i as u32 == at % 3 {
                        dur = true;
                        f();
                    }
                    names.push(format!("{} {}", o.name, o.num_pieces));
                }
                if !dur {
                    f();
                }
                let t = names.join(" ");
                drop(names);
                let r = paused(|| CV::Text(format!("{} {}", d.name, t)));
                Some(r)
            }
            Val::Pat(p, s) => {
                let k = p.kpuzzle();
                f();
                let n = k.orbit_info_iter().count();
                Some(paused(|| CV::List(vec![CV::Num(n as i64), CV::Pat(*s, pat_cv(p))])))
            }
            Val::PBuf(b, s) => {
                let p = b.current();
                f();
                Some(paused(|| CV::Pat(*s, pat_cv(p))))
            }
            Val::TBuf(b, s) => {
                let t = b.current();
                f();
                Some(paused(|| CV::Tr(*s, tr_cv(t))))
            }
            _ => None,
        },
    }
}

pub fn nest(specs: &[Spec], ctx: u8, at: u16, inner: &Code, v: &mut [&mut ArgRef]) -> Out {
    if v.is_empty() || crate::exec::mut_arg(inner).is_some() {
        return Out::Skip;
    }
    let (o, rest) = v.split_at_mut(1);
    let got: std::cell::RefCell<Option<CV>> = Default::default();
    let mut call = || {
        if got.borrow().is_some() {
            return;
        }
        let r = catch_unwind(AssertUnwindSafe(|| match perform(specs, inner, rest) {
            Out::V(v) => paused(|| {
                let c = v.cv();
                (c, Some(v))
            }),
            Out::C(c) => (c, None),
            Out::E(e) => (paused(|| CV::Err(e.to_string())), None),
            Out::M(e, t) => (paused(|| err_cv(e, &t)), None),
            Out::Skip => (CV::Crash(String::new()), None),
        }));
        let c = match r {
            Ok((c, v)) => {
                drop(v);
                c
            }
            Err(_) => CV::Panic,
        };
        *got.borrow_mut() = Some(c);
    };
    let apart = APART.load(Ordering::Relaxed);
    let mut nothing = || ();
    let r = if apart { outer(ctx, at as u32, o[0].get(), &mut nothing) } else { outer(ctx, at as u32, o[0].get(), &mut call) };
    let Some(r) = r else { return Out::Skip };
    if got.borrow().is_some() {
        unsafe {
            rt::rt_fault(H_NEST);
            rt::rt_fault(match ctx {
                0 | 1 | 4 => H_NEST_SINK,
                2 => H_NEST_READ,
                3 => H_NEST_HASH,
                5 | 9 | 11 => H_NEST_UNWIND,
                8 | 10 => H_NEST_HOOK,
                _ => H_NEST_ITER,
            });
        }
    } else {
        call();
    }
    let i = got.into_inner().unwrap_or(CV::Unit);
    if i == CV::Crash(String::new()) {
        return Out::Skip;
    }
    Out::C(paused(|| CV::List(vec![r, i])))
}
