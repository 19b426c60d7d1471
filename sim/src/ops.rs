//! The workload language: typed calls on the public API.
use crate::cv::*;
use crate::rt;
use crate::spec::*;
use cubing_core::alg::*;
use cubing_core::kpuzzle::*;
use serde::{Deserialize, Serialize};
use std::collections::hash_map::DefaultHasher;
use std::collections::{HashMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum A {
    /// own register
    R(u8),
    /// register shared by all threads (read only)
    S(u8),
}

/// Faults of a caller-supplied sink or reader: sizes of successive transfers
/// and what happens at byte `fail_at`.
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct IoPlan {
    pub chunks: Vec<u16>,
    /// indices of transfers that are interrupted (EINTR) or would block once
    pub intr: Vec<u16>,
    /// byte position of the failure, None = never
    pub fail_at: Option<u32>,
    /// 0 error, 1 panic, 2 zero-length write / early end, 3 error once then fine
    pub fail_kind: u8,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Eq, Hash)]
pub enum Code {
    // algs
    ParseAlg(String),
    ParseMove(String),
    ParseQMove(String),
    Print,
    Debug,
    Invert,
    Clone,
    Eq,
    Build,
    NodeAt(u8),
    Ser,
    AlgDe(String),
    MoveDe(String),
    QMoveDe(String),
    MoveSet,
    // puzzles
    NewPuzzle(usize, u8, u64),
    Static(u8),
    DefSer,
    DefRead,
    LookupOrbit(String),
    DefaultPattern,
    Identity,
    TransAlg,
    TransMove,
    ApplyAlg,
    ApplyMove,
    ApplyTrans,
    ApplyInto,
    Compose,
    ComposeInto,
    ToData,
    FromPData,
    FromTData,
    PatFromJson(String),
    TrFromJson(String),
    PatFromBytes(Vec<u8>),
    TrFromBytes(Vec<u8>),
    PatGet(u8, u8),
    TrGet(u8, u8),
    PatSet(u8, u8, u8),
    PatSetOri(u8, u8, u8, u8),
    TrSetPerm(u8, u8, u8),
    TrSetDelta(u8, u8, u8),
    HashVal,
    HashPanic(u32),
    HashSetOf,
    HashMapOf,
    // buffers
    BufNew,
    BufApply,
    BufCurrent,
    BufEq,
    // sinks and readers
    TextOf(String),
    PDataLit(crate::spec::PatMap),
    TDataLit(crate::spec::TrMap),
    PrintTo(IoPlan),
    DebugTo(IoPlan),
    SerTo(IoPlan),
    DeFrom(u8, String, IoPlan),
    // histories
    /// the same call many times: every result must equal the first
    Repeat(u16, Box<Code>),
    /// many different calls: kind, how many, seed
    Flood(u8, u16, u64),
    /// the inner call is made from inside the outer one: where, when, what
    Nest(u8, u16, Box<Code>),
    /// the rest of the thread's program runs in a destructor of a
    /// thread-local value (registered before or after the library's own)
    AtExit(bool),
    // nearly equal values in hashed collections
    NearSet(Vec<CMove>),
    NearPats(u64),
    // values between threads
    Send(u8),
    Recv(u8),
    Drop,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Eq, Hash)]
pub struct Op {
    pub c: Code,
    pub a: Vec<A>,
    pub d: Option<u8>,
}

pub enum Val {
    Alg(Alg),
    Move(Move),
    QMove(QuantumMove),
    Puzzle(KPuzzle, usize),
    PuzzleRef(&'static KPuzzle, usize),
    Pat(KPattern, usize),
    Tr(KTransformation, usize),
    PBuf(KPatternBuffer, usize),
    TBuf(KTransformationBuffer, usize),
    PData(KPatternData),
    TData(KTransformationData),
    Text(String),
}

impl Val {
    pub fn cv(&self) -> CV {
        match self {
            Val::Alg(a) => CV::Alg(alg_cv(a)),
            Val::Move(m) => CV::Move(move_cv(m)),
            Val::QMove(q) => CV::QMove(q.family.clone(), prefix_cv(&q.prefix)),
            Val::Puzzle(k, s) => CV::Puzzle(*s, k.definition().name.clone()),
            Val::PuzzleRef(k, s) => CV::Puzzle(*s, k.definition().name.clone()),
            Val::Pat(p, s) => CV::Pat(*s, pat_cv(p)),
            Val::Tr(t, s) => CV::Tr(*s, tr_cv(t)),
            Val::PBuf(b, s) => CV::PBuf(*s, pat_cv(b.current())),
            Val::TBuf(b, s) => CV::TBuf(*s, tr_cv(b.current())),
            Val::PData(d) => pdata_cv(d),
            Val::TData(d) => tdata_cv(d),
            Val::Text(t) => CV::Text(t.clone()),
        }
    }
    pub fn puzzle(&self) -> Option<(&KPuzzle, usize)> {
        match self {
            Val::Puzzle(k, s) => Some((k, *s)),
            Val::PuzzleRef(k, s) => Some((k, *s)),
            _ => None,
        }
    }
    pub fn clone_val(&self) -> Option<Val> {
        Some(match self {
            Val::Alg(a) => Val::Alg(a.clone()),
            Val::Move(a) => Val::Move(a.clone()),
            Val::QMove(a) => Val::QMove(a.clone()),
            Val::Puzzle(a, s) => Val::Puzzle(a.clone(), *s),
            Val::PuzzleRef(a, s) => Val::Puzzle((*a).clone(), *s),
            Val::Pat(a, s) => Val::Pat(a.clone(), *s),
            Val::Tr(a, s) => Val::Tr(a.clone(), *s),
            Val::PData(a) => Val::PData(a.clone()),
            Val::TData(a) => Val::TData(a.clone()),
            Val::Text(a) => Val::Text(a.clone()),
            _ => return None,
        })
    }
}

pub enum Out {
    /// a new value for the destination register
    V(Val),
    /// a plain result
    C(CV),
    /// an error of the given kind
    E(&'static str),
    /// an error of the given kind with its text (on the harness heap)
    M(&'static str, String),
    /// wrong argument types: nothing was done
    Skip,
}

fn with_text<E: std::fmt::Display>(kind: &'static str, e: &E) -> Out {
    let t = e.to_string();
    Out::M(kind, rt::paused(|| t.clone()))
}
fn alg_err(e: InvalidAlgError) -> Out {
    with_text(
        match e {
            InvalidAlgError::AlgParse(_) => "InvalidAlg/AlgParse",
            InvalidAlgError::InvalidMove(_) => "InvalidAlg/InvalidMove",
        },
        &e,
    )
}
pub fn err_cv(kind: &str, text: &str) -> CV {
    CV::Err(format!("{kind}: {text}"))
}
fn conv_err(e: ConversionError) -> Out {
    // Which error variant is used for which defect of the data is not promised.
    let _ = e.to_string();
    Out::E("Conversion")
}
/// Bytes that are no JSON are read in their order: the error is always the same.
fn json_err(b: &[u8], e: ConversionError) -> Out {
    if rt::paused(|| serde_json::from_slice::<serde_json::Value>(b).is_ok()) {
        return conv_err(e);
    }
    with_text("Conversion", &e)
}
fn txt<T: std::fmt::Display>(x: &T) -> Out {
    Out::V(Val::Text(x.to_string()))
}
pub fn read_puzzle(spec: &Spec, how: u8, order: u64) -> Option<Result<KPuzzle, InvalidDefinitionError>> {
    if order != 0 && matches!(spec, Spec::Custom(_)) {
        unsafe { rt::rt_fault(crate::streams::H_MAPORDER) };
    }
    Some(match (spec, how % 3) {
        (Spec::Custom(d), 1) => KPuzzle::try_new(d.definition(order)?),
        (Spec::Custom(d), 2) => KPuzzle::try_from(d.definition(order)?),
        _ => KPuzzle::try_from_json(spec.json(order).as_bytes()),
    })
}
fn orbit<'a>(k: &'a KPuzzle, i: u8) -> Option<&'a KPuzzleOrbitInfo> {
    let n = k.orbit_info_iter().count();
    if n == 0 {
        return None;
    }
    k.orbit_info_iter().nth(i as usize % n)
}
pub fn definition_cv(k: &KPuzzle) -> String {
    let t = serde_json::to_string(k.definition()).unwrap();
    rt::paused(|| json_norm(&t))
}

/// Perform one call.  `v` are the argument values; mutable arguments are the
/// ones the harness owns (`m`, taken out of the first argument position that
/// needs it).
pub fn perform(specs: &[Spec], c: &Code, v: &mut [&mut ArgRef]) -> Out {
    macro_rules! a {
        ($i:expr) => {
            match v.get($i) {
                Some(x) => x.get(),
                None => return Out::Skip,
            }
        };
    }
    macro_rules! m {
        ($i:expr) => {
            match v.get_mut($i) {
                Some(x) => match x.get_mut() {
                    Some(y) => y,
                    None => return Out::Skip,
                },
                None => return Out::Skip,
            }
        };
    }
    macro_rules! puz {
        ($i:expr) => {
            match a!($i).puzzle() {
                Some(p) => p,
                None => return Out::Skip,
            }
        };
    }
    use Val::*;
    match c {
        Code::ParseAlg(s) => match s.parse::<cubing_core::alg::Alg>() {
            Ok(x) => Out::V(Alg(x)),
            Err(e) => with_text("AlgParse", &e),
        },
        Code::ParseMove(s) => match cubing_core::alg::Move::try_from(s.as_str()) {
            Ok(x) => Out::V(Move(x)),
            Err(e) => with_text("AlgParse", &e),
        },
        Code::ParseQMove(s) => match s.parse::<QuantumMove>() {
            Ok(x) => Out::V(QMove(x)),
            Err(e) => with_text("AlgParse", &e),
        },
        Code::Print => match a!(0) {
            Alg(x) => txt(x),
            Move(x) => txt(x),
            QMove(x) => txt(x),
            _ => Out::Skip,
        },
        Code::Debug => {
            // Debug texts list hash maps in hash order: only algs are compared.
            match a!(0) {
                Alg(x) => return Out::C(CV::Text(format!("{:?}", x))),
                Move(x) => return Out::C(CV::Text(format!("{:?}", x))),
                Puzzle(x, _) => return Out::C(CV::Text(format!("{:?}", x))),
                Pat(x, _) => drop(format!("{:?}", x)),
                Tr(x, _) => drop(format!("{:?}", x)),
                PData(x) => drop(format!("{:?}", x)),
                TData(x) => drop(format!("{:?}", x)),
                _ => return Out::Skip,
            };
            Out::C(CV::Unit)
        }
        Code::Invert => match a!(0) {
            Alg(x) => Out::V(Alg(x.invert())),
            Move(x) => Out::V(Move(x.invert())),
            Tr(x, s) => Out::V(Tr(x.invert(), *s)),
            _ => Out::Skip,
        },
        Code::Clone => match a!(0).clone_val() {
            Some(x) => Out::V(x),
            None => Out::Skip,
        },
        Code::Eq => {
            let (x, y) = (a!(0), a!(1));
            Out::C(CV::Bool(match (x, y) {
                (Alg(x), Alg(y)) => x == y,
                (Move(x), Move(y)) => x == y,
                (QMove(x), QMove(y)) => x == y,
                (Pat(x, s), Pat(y, t)) if s == t => x == y,
                (Tr(x, s), Tr(y, t)) if s == t => x == y,
                (PData(x), PData(y)) => x == y,
                (TData(x), TData(y)) => x == y,
                _ => return Out::Skip,
            }))
        }
        Code::Build => {
            let mut b = AlgBuilder::default();
            for x in v.iter() {
                match x.get() {
                    Alg(y) => b.push(y),
                    Move(y) => b.push(&AlgNode::from(y.clone())),
                    _ => return Out::Skip,
                }
            }
            Out::V(Alg(b.to_alg()))
        }
        Code::NodeAt(i) => match a!(0) {
            Alg(x) if !x.nodes.is_empty() => {
                let b = AlgBuilder::new(Some(&x.nodes[*i as usize % x.nodes.len()]));
                Out::V(Alg(b.to_alg()))
            }
            _ => Out::Skip,
        },
        Code::Ser => {
            let r = match a!(0) {
                Alg(x) => serde_json::to_string(x),
                Move(x) => serde_json::to_string(x),
                QMove(x) => serde_json::to_string(x),
                PData(x) => serde_json::to_string(x),
                TData(x) => serde_json::to_string(x),
                _ => return Out::Skip,
            };
            match r {
                Ok(s) => Out::C(rt::paused(|| CV::Json(json_norm(&s)))),
                Err(_) => Out::E("Ser"),
            }
        }
        Code::AlgDe(s) => match serde_json::from_str::<cubing_core::alg::Alg>(s) {
            Ok(x) => Out::V(Alg(x)),
            Err(_) => Out::E("De"),
        },
        Code::MoveDe(s) => match serde_json::from_str::<cubing_core::alg::Move>(s) {
            Ok(x) => Out::V(Move(x)),
            Err(_) => Out::E("De"),
        },
        Code::QMoveDe(s) => match serde_json::from_str::<QuantumMove>(s) {
            Ok(x) => Out::V(QMove(x)),
            Err(_) => Out::E("De"),
        },
        Code::MoveSet => {
            let mut ms: Vec<&cubing_core::alg::Move> = vec![];
            for x in v.iter() {
                match x.get() {
                    Move(y) => ms.push(y),
                    Alg(y) => ms.extend(y.nodes.iter().filter_map(|n| match n {
                        AlgNode::MoveNode(m) => Some(m),
                        _ => None,
                    })),
                    _ => return Out::Skip,
                }
            }
            let mut set: HashSet<cubing_core::alg::Move> = HashSet::new();
            let mut map: HashMap<QuantumMove, usize> = HashMap::new();
            let mut out = vec![];
            for m in &ms {
                out.push(CV::Bool(set.insert((*m).clone())));
                *map.entry((*m.quantum).clone()).or_insert(0) += 1;
            }
            for m in &ms {
                out.push(CV::Bool(set.contains(*m)));
                out.push(CV::Bool(set.contains(&m.invert())));
                out.push(CV::Num(map.get(&*m.quantum).copied().unwrap_or(0) as i64));
            }
            out.push(CV::Num(set.len() as i64));
            Out::C(CV::List(out))
        }
        Code::NewPuzzle(s, how, order) => match read_puzzle(&specs[*s], *how, *order) {
            None => Out::E("AlgParse"),
            Some(Ok(k)) => Out::V(Puzzle(k, *s)),
            Some(Err(e)) => {
                let _ = e.to_string();
                Out::E("InvalidDefinition")
            }
        },
        Code::Static(n) => {
            let n = *n % 8;
            fn adr<T>(n: u8, x: &T) {
                rt::paused(|| unsafe {
                    let a = x as *const T as usize;
                    if STATIC_ADDR[n as usize] == 0 {
                        STATIC_ADDR[n as usize] = a;
                    }
                    if STATIC_ADDR[n as usize] != a {
                        rt::violation("different-instances", &format!("accessor {n} returned a second instance"));
                    }
                })
            }
            match n {
                0..=3 => {
                    let k = match n {
                        0 => cubing_core::puzzles::cube2x2x2_kpuzzle(),
                        1 => cubing_core::puzzles::cube3x3x3_kpuzzle(),
                        2 => statics::ma_kpuzzle(),
                        _ => statics::mb_kpuzzle(),
                    };
                    adr(n, k);
                    Out::V(PuzzleRef(k, n as usize))
                }
                4 | 5 => {
                    let (p, s) = if n == 4 { (statics::pa_kpattern(), 2) } else { (statics::pb_kpattern(), 0) };
                    adr(n, p);
                    Out::V(Pat(p.clone(), s))
                }
                _ => {
                    let (t, s) = if n == 6 { (statics::ta_ktransformation(), 2) } else { (statics::tb_ktransformation(), 1) };
                    adr(n, t);
                    Out::V(Tr(t.clone(), s))
                }
            }
        }
        Code::DefSer => {
            let (k, _) = puz!(0);
            Out::C(CV::Json(definition_cv(k)))
        }
        Code::DefRead => {
            let (k, _) = puz!(0);
            let d = k.definition();
            let mut names: Vec<String> = d.moves.keys().map(|m| m.to_string()).collect();
            names.sort();
            let mut orb: Vec<String> = k.orbit_info_iter().map(|o| format!("{}:{}:{}", o.name, o.num_pieces, o.num_orientations)).collect();
            orb.push(format!("{} {:?}", d.name, k));
            names.append(&mut orb);
            Out::C(CV::Text(names.join(" ")))
        }
        Code::LookupOrbit(n) => {
            let (k, _) = puz!(0);
            match k.lookup_orbit(&KPuzzleOrbitName::from(n.as_str())) {
                None => Out::C(CV::Empty),
                Some(o) => Out::C(CV::List(vec![CV::Text(o.name.0.clone()), CV::Num(o.num_pieces as i64), CV::Num(o.num_orientations as i64)])),
            }
        }
        Code::DefaultPattern => {
            let (k, s) = puz!(0);
            Out::V(Pat(k.default_pattern(), s))
        }
        Code::Identity => {
            let (k, s) = puz!(0);
            Out::V(Tr(k.identity_transformation(), s))
        }
        Code::TransAlg => {
            let (k, s) = puz!(0);
            match a!(1) {
                Alg(x) => match k.transformation_from_alg(x) {
                    Ok(t) => Out::V(Tr(t, s)),
                    Err(e) => alg_err(e),
                },
                _ => Out::Skip,
            }
        }
        Code::TransMove => {
            let (k, s) = puz!(0);
            match a!(1) {
                Move(x) => match k.transformation_from_move(x) {
                    Ok(t) => Out::V(Tr(t, s)),
                    Err(e) => alg_err(e),
                },
                _ => Out::Skip,
            }
        }
        Code::ApplyAlg => match (a!(0), a!(1)) {
            (Pat(p, s), Alg(x)) => match p.apply_alg(x) {
                Ok(t) => Out::V(Pat(t, *s)),
                Err(e) => alg_err(e),
            },
            _ => Out::Skip,
        },
        Code::ApplyMove => match (a!(0), a!(1)) {
            (Pat(p, s), Move(x)) => match p.apply_move(x) {
                Ok(t) => Out::V(Pat(t, *s)),
                Err(e) => alg_err(e),
            },
            _ => Out::Skip,
        },
        Code::ApplyTrans => match (a!(0), a!(1)) {
            (Pat(p, s), Tr(t, u)) if s == u => Out::V(Pat(p.apply_transformation(t), *s)),
            _ => Out::Skip,
        },
        Code::Compose => match (a!(0), a!(1)) {
            (Tr(p, s), Tr(t, u)) if s == u => Out::V(Tr(p.apply_transformation(t), *s)),
            _ => Out::Skip,
        },
        Code::ApplyInto => {
            if v.len() != 3 {
                return Out::Skip;
            }
            let (x, y) = v.split_at_mut(2);
            match (x[0].get(), x[1].get(), y[0].get_mut()) {
                (Pat(p, s), Tr(t, u), Some(Pat(d, w))) if s == u && s == w => {
                    p.apply_transformation_into(t, d);
                    Out::C(rt::paused(|| CV::Pat(*s, pat_cv(d))))
                }
                _ => Out::Skip,
            }
        }
        Code::ComposeInto => {
            if v.len() != 3 {
                return Out::Skip;
            }
            let (x, y) = v.split_at_mut(2);
            match (x[0].get(), x[1].get(), y[0].get_mut()) {
                (Tr(p, s), Tr(t, u), Some(Tr(d, w))) if s == u && s == w => {
                    p.apply_transformation_into(t, d);
                    Out::C(rt::paused(|| CV::Tr(*s, tr_cv(d))))
                }
                _ => Out::Skip,
            }
        }
        Code::ToData => match a!(0) {
            Pat(p, _) => Out::V(PData(p.to_data())),
            Tr(t, _) => Out::V(TData(t.to_data())),
            _ => Out::Skip,
        },
        Code::FromPData => {
            let (k, s) = puz!(0);
            match a!(1) {
                PData(d) => match KPattern::try_from_data(k, d) {
                    Ok(p) => Out::V(Pat(p, s)),
                    Err(e) => conv_err(e),
                },
                _ => Out::Skip,
            }
        }
        Code::FromTData => {
            let (k, s) = puz!(0);
            match a!(1) {
                TData(d) => match KTransformation::try_from_data(k, d) {
                    Ok(p) => Out::V(Tr(p, s)),
                    Err(e) => conv_err(e),
                },
                _ => Out::Skip,
            }
        }
        Code::PatFromJson(t) => {
            let (k, s) = puz!(0);
            match KPattern::try_from_json(k, t.as_bytes()) {
                Ok(p) => Out::V(Pat(p, s)),
                Err(e) => json_err(t.as_bytes(), e),
            }
        }
        Code::TrFromJson(t) => {
            let (k, s) = puz!(0);
            match KTransformation::try_from_json(k, t.as_bytes()) {
                Ok(p) => Out::V(Tr(p, s)),
                Err(e) => json_err(t.as_bytes(), e),
            }
        }
        Code::PatFromBytes(t) => {
            let (k, s) = puz!(0);
            match KPattern::try_from_json(k, t) {
                Ok(p) => Out::V(Pat(p, s)),
                Err(e) => json_err(t, e),
            }
        }
        Code::TrFromBytes(t) => {
            let (k, s) = puz!(0);
            match KTransformation::try_from_json(k, t) {
                Ok(p) => Out::V(Tr(p, s)),
                Err(e) => json_err(t, e),
            }
        }
        Code::PatGet(o, i) => match a!(0) {
            Pat(p, _) => match orbit(p.kpuzzle(), *o) {
                None => Out::Skip,
                Some(o) => {
                    let w = p.get_orientation_with_mod(o, *i);
                    Out::C(CV::List(vec![CV::Num(p.get_piece(o, *i) as i64), CV::Num(w.orientation as i64), CV::Num(w.orientation_mod as i64)]))
                }
            },
            _ => Out::Skip,
        },
        Code::TrGet(o, i) => match a!(0) {
            Tr(p, _) => match orbit(p.kpuzzle(), *o) {
                None => Out::Skip,
                Some(o) => Out::C(CV::List(vec![CV::Num(p.get_permutation_idx(o, *i) as i64), CV::Num(p.get_orientation_delta(o, *i) as i64)])),
            },
            _ => Out::Skip,
        },
        Code::PatSet(o, i, x) => match m!(0) {
            Pat(p, s) => {
                let k = p.kpuzzle().clone();
                match orbit(&k, *o) {
                    None => Out::Skip,
                    Some(o) => {
                        p.set_piece(o, *i, *x);
                        Out::C(rt::paused(|| CV::Pat(*s, pat_cv(p))))
                    }
                }
            }
            _ => Out::Skip,
        },
        Code::PatSetOri(o, i, x, md) => match m!(0) {
            Pat(p, s) => {
                let k = p.kpuzzle().clone();
                match orbit(&k, *o) {
                    None => Out::Skip,
                    Some(o) => {
                        p.set_orientation_with_mod(o, *i, &OrientationWithMod { orientation: *x, orientation_mod: *md });
                        Out::C(rt::paused(|| CV::Pat(*s, pat_cv(p))))
                    }
                }
            }
            _ => Out::Skip,
        },
        Code::TrSetPerm(o, i, x) => match m!(0) {
            Tr(p, s) => {
                let k = p.kpuzzle().clone();
                match orbit(&k, *o) {
                    None => Out::Skip,
                    Some(o) => {
                        p.set_permutation_idx(o, *i, *x);
                        Out::C(rt::paused(|| CV::Tr(*s, tr_cv(p))))
                    }
                }
            }
            _ => Out::Skip,
        },
        Code::TrSetDelta(o, i, x) => match m!(0) {
            Tr(p, s) => {
                let k = p.kpuzzle().clone();
                match orbit(&k, *o) {
                    None => Out::Skip,
                    Some(o) => {
                        p.set_orientation_delta(o, *i, *x);
                        Out::C(rt::paused(|| CV::Tr(*s, tr_cv(p))))
                    }
                }
            }
            _ => Out::Skip,
        },
        Code::HashVal => {
            // a caller-supplied hasher with fixed keys
            let mut h = DefaultHasher::new();
            match a!(0) {
                Move(x) => x.hash(&mut h),
                QMove(x) => x.hash(&mut h),
                Pat(x, _) => x.hash(&mut h),
                _ => return Out::Skip,
            }
            Out::C(CV::Num(h.finish() as i64))
        }
        Code::HashPanic(n) => {
            let mut h = crate::streams::PanicHasher(*n);
            match a!(0) {
                Move(x) => x.hash(&mut h),
                QMove(x) => x.hash(&mut h),
                Pat(x, _) => x.hash(&mut h),
                _ => return Out::Skip,
            }
            Out::C(CV::Unit)
        }
        Code::HashSetOf => {
            let mut ps: Vec<&KPattern> = vec![];
            let mut sp = None;
            for x in v.iter() {
                match x.get() {
                    Pat(y, s) if sp.is_none() || sp == Some(*s) => {
                        sp = Some(*s);
                        ps.push(y)
                    }
                    _ => return Out::Skip,
                }
            }
            let mut set: HashSet<KPattern> = HashSet::new();
            let mut out = vec![];
            for p in &ps {
                out.push(CV::Bool(set.insert((*p).clone())));
            }
            for p in &ps {
                out.push(CV::Bool(set.contains(*p)));
            }
            out.push(CV::Num(set.len() as i64));
            Out::C(CV::List(out))
        }
        Code::HashMapOf => {
            // patterns as keys, values counted
            let mut ps: Vec<(&KPattern, usize)> = vec![];
            for x in v.iter() {
                match x.get() {
                    Pat(y, s) => ps.push((y, *s)),
                    _ => return Out::Skip,
                }
            }
            if ps.iter().any(|p| p.1 != ps[0].1) {
                return Out::Skip;
            }
            let mut map: HashMap<&KPattern, i64> = HashMap::new();
            for (p, _) in &ps {
                *map.entry(p).or_insert(0) += 1;
            }
            let out = ps.iter().map(|(p, _)| CV::Num(map.get(*p).copied().unwrap_or(0))).collect();
            Out::C(CV::List(out))
        }
        Code::BufNew => match a!(0) {
            Pat(p, s) => Out::V(PBuf(KPatternBuffer::from(p.clone()), *s)),
            Tr(p, s) => Out::V(TBuf(KTransformationBuffer::from(p.clone()), *s)),
            _ => Out::Skip,
        },
        Code::BufApply => {
            if v.len() != 2 {
                return Out::Skip;
            }
            let (x, y) = v.split_at_mut(1);
            match (x[0].get_mut(), y[0].get()) {
                (Some(PBuf(b, s)), Tr(t, u)) if s == u => {
                    b.apply_transformation(t);
                    Out::C(rt::paused(|| CV::PBuf(*s, pat_cv(b.current()))))
                }
                (Some(TBuf(b, s)), Tr(t, u)) if s == u || specs_same_size(specs, *s, *u) => {
                    b.apply_transformation(t);
                    Out::C(rt::paused(|| CV::TBuf(*s, tr_cv(b.current()))))
                }
                _ => Out::Skip,
            }
        }
        Code::BufCurrent => match a!(0) {
            PBuf(b, s) => Out::V(Pat(b.current().clone(), *s)),
            TBuf(b, s) => Out::V(Tr(b.current().clone(), *s)),
            _ => Out::Skip,
        },
        Code::BufEq => match (a!(0), a!(1)) {
            (PBuf(x, s), PBuf(y, t)) if s == t => Out::C(CV::Bool(x == y)),
            (TBuf(x, s), TBuf(y, t)) if s == t => Out::C(CV::Bool(x == y)),
            _ => Out::Skip,
        },
        Code::PDataLit(m) => Out::V(PData(pat_data(m))),
        Code::TDataLit(m) => Out::V(TData(tr_data(m))),
        Code::TextOf(s) => Out::V(Text(s.clone())),
        Code::PrintTo(p) => crate::streams::print_to(a!(0), p),
        Code::DebugTo(p) => crate::streams::debug_to(a!(0), p),
        Code::SerTo(p) => crate::streams::ser_to(a!(0), p),
        Code::DeFrom(k, s, p) => crate::streams::de_from(*k, s, p),
        Code::Repeat(n, c) => {
            let mut first: Option<CV> = None;
            for k in 0..*n {
                unsafe { rt::rt_progress() };
                let r = catch_unwind(AssertUnwindSafe(|| perform(specs, c, v)));
                let cv = rt::paused(|| match &r {
                    Ok(Out::V(x)) => Some(x.cv()),
                    Ok(Out::C(x)) => Some(x.clone()),
                    Ok(Out::E(e)) => Some(CV::Err(e.to_string())),
                    Ok(Out::M(e, t)) => Some(err_cv(e, t)),
                    Ok(Out::Skip) => None,
                    Err(_) => Some(CV::Panic),
                });
                drop(r);
                let Some(cv) = cv else { return Out::Skip };
                rt::paused(|| match &first {
                    None => first = Some(cv),
                    Some(f) if *f == cv => drop(cv),
                    Some(f) => rt::violation(
                        "result-differs",
                        &format!("call {} of {n} equal calls of {} returned {} but the first returned {}", k + 1, crate::run::trunc(&format!("{:?}", c)), crate::streams::short(&cv), crate::streams::short(f)),
                    ),
                });
            }
            match first {
                Some(f) => Out::C(f),
                None => Out::Skip,
            }
        }
        Code::Nest(ctx, at, c) => crate::nest::nest(specs, *ctx, *at, c, v),
        Code::Flood(k, n, seed) => flood(*k, *n, *seed, v),
        Code::NearSet(ms) => {
            let ms: Vec<cubing_core::alg::Move> = ms.iter().map(mk_move).collect();
            pairs(&ms.iter().collect::<Vec<_>>(), "moves");
            pairs(&ms.iter().map(|m| &*m.quantum).collect::<Vec<_>>(), "quantum moves")
        }
        Code::NearPats(seed) => match a!(0) {
            Pat(p, _) => {
                let k = p.kpuzzle().clone();
                let mut r = rt::Rng::new(*seed, 0x4e50);
                let mut ps: Vec<KPattern> = vec![p.clone()];
                // written with and without the list of moduli
                let d = p.to_data();
                let mut e = d.clone();
                for o in e.values_mut() {
                    if o.orientation_mod.as_ref().is_some_and(|m| m.iter().all(|x| *x == 0)) {
                        o.orientation_mod = None;
                    } else if o.orientation_mod.is_none() {
                        o.orientation_mod = Some(vec![0; o.pieces.len()]);
                    }
                }
                for x in [&d, &e] {
                    if let Ok(q) = KPattern::try_from_data(&k, x) {
                        ps.push(q);
                    }
                }
                let os: Vec<&KPuzzleOrbitInfo> = k.orbit_info_iter().filter(|o| o.num_pieces > 0).collect();
                for _ in 0..6 {
                    let mut q = p.clone();
                    if !os.is_empty() {
                        let o = *r.pick(&os);
                        for _ in 0..1 + r.below(2) {
                            let i = r.below(o.num_pieces as usize) as u8;
                            let w = q.get_orientation_with_mod(o, i);
                            match r.below(3) {
                                0 => q.set_piece(o, i, r.below(o.num_pieces as usize) as u8),
                                1 => q.set_orientation_with_mod(o, i, &OrientationWithMod { orientation: r.below(if w.orientation_mod == 0 { o.num_orientations } else { w.orientation_mod } as usize) as u8, orientation_mod: w.orientation_mod }),
                                _ => {
                                    let n = o.num_orientations;
                                    let m = *r.pick(&(1..=n).filter(|m| n % m == 0).chain([0]).collect::<Vec<_>>());
                                    let x = w.orientation % if m == 0 { n } else { m };
                                    q.set_orientation_with_mod(o, i, &OrientationWithMod { orientation: x, orientation_mod: m })
                                }
                            }
                        }
                    }
                    ps.push(q);
                }
                pairs(&ps.iter().collect::<Vec<_>>(), "patterns")
            }
            _ => Out::Skip,
        },
        Code::Send(_) | Code::Recv(_) | Code::Drop | Code::AtExit(_) => Out::Skip,
    }
}

/// Equal values hash equally, equality is symmetric, and a value that was put
/// into a hashed collection is found there.
fn pairs<T: Hash + Eq + Clone + std::fmt::Debug>(v: &[&T], what: &str) -> Out {
    let mut out = vec![];
    let states = [std::collections::hash_map::RandomState::new(), Default::default()];
    let fixed = |x: &T| {
        let mut h = DefaultHasher::new();
        x.hash(&mut h);
        h.finish()
    };
    for (i, x) in v.iter().enumerate() {
        for (j, y) in v.iter().enumerate() {
            let e = *x == *y;
            if e != (*y == *x) {
                rt::violation("equal-hash-differs", &format!("{what} {i} and {j}: equality is not symmetric: {x:?} {y:?}"));
            }
            if e && (fixed(x) != fixed(y) || states.iter().any(|s| std::hash::BuildHasher::hash_one(s, x) != std::hash::BuildHasher::hash_one(s, y))) {
                rt::violation("equal-hash-differs", &format!("{what} {i} and {j} are equal and hash differently: {x:?} {y:?}"));
            }
            out.push(CV::Bool(e));
        }
    }
    let mut set: HashSet<T> = HashSet::new();
    let mut map: HashMap<T, i64> = HashMap::new();
    for x in v {
        out.push(CV::Bool(set.insert((*x).clone())));
        *map.entry((*x).clone()).or_insert(0) += 1;
    }
    for (i, x) in v.iter().enumerate() {
        if !set.contains(*x) || !map.contains_key(*x) {
            rt::violation("not-found-again", &format!("{what} {i} was put into a set or map and is not found there: {x:?}"));
        }
        out.push(CV::Num(map[*x]));
    }
    out.push(CV::Num(set.len() as i64));
    Out::C(CV::List(out))
}
/// a name made of letters only
fn letters(mut n: u64) -> String {
    let mut s = String::from("Q");
    loop {
        s.push((b'a' + (n % 26) as u8) as char);
        n /= 26;
        if n == 0 {
            return s;
        }
    }
}
fn flood(kind: u8, n: u16, seed: u64, v: &mut [&mut ArgRef]) -> Out {
    let mut h = DefaultHasher::new();
    let base = seed % 10_000;
    let puz = v.first().and_then(|x| x.get().puzzle()).map(|p| p.0.clone());
    for i in 0..n as u64 {
        unsafe { rt::rt_progress() };
        let x = base + i;
        match kind % 9 {
            0 => {
                // different moves
                let t = match x % 4 {
                    0 => letters(x),
                    1 => format!("{}{}'", letters(x), 2 + x),
                    2 => format!("{}{}", 2 + x, letters(x)),
                    _ => format!("{}-{}{}2", x, x + 3, letters(x)),
                };
                if let Ok(m) = t.parse::<cubing_core::alg::Move>() {
                    (m.to_string(), m.invert().to_string()).hash(&mut h);
                }
            }
            1 => {
                // moves the puzzle does not have
                let Some(k) = &puz else { return Out::Skip };
                if let Ok(m) = format!("{}{}", letters(x), 1 + x % 5).parse::<cubing_core::alg::Move>() {
                    k.transformation_from_move(&m).map_err(|e| e.to_string()).err().hash(&mut h);
                }
            }
            2 => {
                // different amounts of a move
                let Some(k) = &puz else { return Out::Skip };
                let mut ms: Vec<String> = k.definition().moves.keys().map(|m| m.quantum.to_string()).collect();
                ms.sort();
                if ms.is_empty() {
                    return Out::Skip;
                }
                let mut m: cubing_core::alg::Move = match ms[(seed % ms.len() as u64) as usize].parse() {
                    Ok(m) => m,
                    Err(_) => return Out::Skip,
                };
                m.amount = if x % 2 == 0 { x as i32 } else { -(x as i32) };
                match k.transformation_from_move(&m) {
                    Ok(t) => rt::paused(|| format!("{:?}", tr_cv(&t)).hash(&mut h)),
                    Err(_) => 1u8.hash(&mut h),
                }
            }
            3 => {
                // texts that do not parse
                let t = match x % 4 {
                    0 => format!("({}", letters(x)),
                    1 => format!("{} {}]", letters(x), letters(x + 1)),
                    2 => format!("[{}: ", letters(x)),
                    _ => format!("({} {})2)", letters(x), x),
                };
                t.parse::<cubing_core::alg::Alg>().map_err(|e| e.to_string()).err().hash(&mut h);
            }
            4 => {
                // algs that cannot be evaluated, at different depths
                let Some(k) = &puz else { return Out::Skip };
                let t = match x % 4 {
                    0 => format!("({})2", letters(x)),
                    1 => format!("[{}, (Nope)]", letters(x)),
                    2 => format!("[[Nope: {}], Nope]", letters(x)),
                    _ => format!("((({})2)3)'", letters(x)),
                };
                if let Ok(a) = t.parse::<cubing_core::alg::Alg>() {
                    k.transformation_from_alg(&a).map_err(|e| e.to_string()).err().hash(&mut h);
                    k.default_pattern().apply_alg(&a).is_ok().hash(&mut h);
                }
            }
            5 => {
                // one long alg
                if i > 0 {
                    break;
                }
                let mut b = AlgBuilder::default();
                for j in 0..n as u64 {
                    if let Ok(m) = letters((base + j) % 97).parse::<cubing_core::alg::Move>() {
                        b.push(&AlgNode::from(m));
                    }
                }
                let a = b.to_alg();
                let t = a.to_string();
                let again = t.parse::<cubing_core::alg::Alg>();
                (t, again.is_ok_and(|x| x == a), a.invert().nodes.len()).hash(&mut h);
            }
            6 => {
                // Square-1 moves, pochmann moves, slashes
                let t = match x % 3 {
                    0 => format!("({}, {}) /", x as i64 % 13 - 6, (x / 13) as i64 % 13 - 6),
                    1 => format!("{}++ {}--", letters(x), letters(x)),
                    _ => format!("{}{}+ /", letters(x), x % 12),
                };
                if let Ok(a) = t.parse::<cubing_core::alg::Alg>() {
                    (a.to_string(), a.invert().to_string()).hash(&mut h);
                }
            }
            7 => {
                // many values alive at once
                let Some(k) = &puz else { return Out::Skip };
                if i > 0 {
                    break;
                }
                let p = k.default_pattern();
                let ps: Vec<KPattern> = (0..n).map(|_| p.clone()).collect();
                let ts: Vec<KTransformation> = (0..n).map(|_| k.identity_transformation()).collect();
                let set: HashSet<&KPattern> = ps.iter().collect();
                (set.len(), ts.iter().all(|t| *t == ts[0]), ps.iter().zip(&ts).all(|(p, t)| p.apply_transformation(t) == *p)).hash(&mut h);
            }
            _ => {
                // damaged data of the puzzle
                let Some(k) = &puz else { return Out::Skip };
                let mut d = k.default_pattern().to_data();
                let mut names: Vec<KPuzzleOrbitName> = d.keys().cloned().collect();
                names.sort_by(|a, b| a.0.cmp(&b.0));
                if names.is_empty() {
                    return Out::Skip;
                }
                let o = d.get_mut(&names[(x % names.len() as u64) as usize]).unwrap();
                match x % 3 {
                    0 => o.pieces.push(0),
                    1 => o.orientation.push(9),
                    _ => o.orientation_mod = Some(vec![251; o.pieces.len() + 1]),
                }
                KPattern::try_from_data(k, &d).is_ok().hash(&mut h);
            }
        }
    }
    Out::C(CV::Num(h.finish() as i64))
}

/// Load-once values as a user of the macros declares them.
pub mod statics {
    use cubing_core::{kpattern_from_json_file, kpuzzle_from_json_file, ktransformation_from_json_file};
    kpuzzle_from_json_file!(pub, ma, "../data/ma.kpuzzle.json");
    kpuzzle_from_json_file!(pub, mb, "../data/mb.kpuzzle.json");
    kpattern_from_json_file!(pub, pa, "../data/pa.kpattern.json", ma_kpuzzle());
    kpattern_from_json_file!(pub, pb, "../data/pb.kpattern.json", cubing_core::puzzles::cube2x2x2_kpuzzle());
    ktransformation_from_json_file!(pub, ta, "../data/ta.ktransformation.json", ma_kpuzzle());
    ktransformation_from_json_file!(pub, tb, "../data/tb.ktransformation.json", cubing_core::puzzles::cube3x3x3_kpuzzle());
}
static mut STATIC_ADDR: [usize; 8] = [0; 8];
pub const NBASE: usize = 4;

/// total packed size, used for updates with a transformation of another puzzle
pub fn spec_bytes(s: &Spec) -> usize {
    match s {
        Spec::Builtin(_) => spec_bytes(&Spec::Custom(s.def())),
        Spec::Custom(d) => d.orbits.iter().map(|o| o.pieces as usize * 2).sum(),
    }
}
pub fn specs_same_size(specs: &[Spec], a: usize, b: usize) -> bool {
    a < specs.len() && b < specs.len() && spec_bytes(&specs[a]) == spec_bytes(&specs[b])
}

/// An argument: owned by the calling thread, or shared.
pub enum ArgRef<'a> {
    Mut(&'a mut Val),
    Ref(&'a Val),
}
impl ArgRef<'_> {
    pub fn get(&self) -> &Val {
        match self {
            ArgRef::Mut(v) => v,
            ArgRef::Ref(v) => v,
        }
    }
    pub fn get_mut(&mut self) -> Option<&mut Val> {
        match self {
            ArgRef::Mut(v) => Some(v),
            ArgRef::Ref(_) => None,
        }
    }
}
