//! Seeded generation of puzzles, texts, programs and simulator settings.
use crate::cv::CMove;
use crate::exec::*;
use crate::ops::*;
use crate::rt::Rng;
use crate::spec::*;
use std::collections::BTreeMap;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Ty {
    Alg,
    Move,
    QMove,
    Puzzle(usize),
    Pat(usize),
    Tr(usize),
    PBuf(usize),
    TBuf(usize),
    PData(usize),
    TData(usize),
    Text,
}

const FAMS: &[&str] = &["A", "B", "C", "R", "U", "F", "Rw", "x", "BL", "2R", "3-4r", "U_SQ_", "D_SQ_", "_SLASH_", "R_PLUSPLUS_", "L_PLUS_", "y2", "B'"];

pub fn rand_perm(r: &mut Rng, n: usize) -> Vec<u8> {
    let mut v: Vec<u8> = (0..n as u32).map(|x| x as u8).collect();
    r.shuffle(&mut v);
    v
}
pub fn rand_tr(r: &mut Rng, orbits: &[OrbitSpec]) -> TrMap {
    let mut m = TrMap::new();
    for o in orbits {
        let id = r.chance(1, 5);
        let perm = if id { (0..o.pieces).collect() } else { rand_perm(r, o.pieces as usize) };
        let delta = (0..o.pieces).map(|_| if id || o.ori == 0 { 0 } else { r.below(o.ori as usize) as u8 }).collect();
        m.insert(o.name.clone(), TrOrbit { perm, delta });
    }
    m
}
fn divisors(n: u8) -> Vec<u8> {
    let mut v: Vec<u8> = (1..=n).filter(|d| n % d == 0).collect();
    v.push(0);
    v
}
pub fn rand_pat(r: &mut Rng, orbits: &[OrbitSpec]) -> PatMap {
    let mut m = PatMap::new();
    for o in orbits {
        let mut p = PatOrbit::default();
        let style = r.below(3);
        p.pieces = match style {
            0 => (0..o.pieces).collect(),
            1 => rand_perm(r, o.pieces as usize),
            _ => (0..o.pieces).map(|_| r.below(o.pieces.max(1) as usize) as u8).collect(),
        };
        let with_mod = r.chance(1, 3);
        let mods: Vec<u8> = (0..o.pieces).map(|_| if with_mod && o.ori > 0 { *r.pick(&divisors(o.ori)) } else { 0 }).collect();
        p.ori = mods.iter().map(|m| r.below(if *m == 0 { o.ori.max(1) } else { *m } as usize) as u8).collect();
        p.omod = if with_mod { Some(mods) } else { None };
        m.insert(o.name.clone(), p);
    }
    m
}
/// amount suffix of a move
fn amount(r: &mut Rng) -> String {
    match r.below(12) {
        0..=4 => "".into(),
        5 | 6 => "'".into(),
        7 => "2".into(),
        8 => "2'".into(),
        9 => "3".into(),
        10 => format!("{}", r.below(20)),
        _ => format!("{}'", r.below(20)),
    }
}
fn large(r: &mut Rng) -> String {
    format!("{}{}", r.pick(&[60, 99, 100, 127, 128, 255, 256, 360, 999, 1000, 1001, 1024, 1260]), r.pick(&["", "'"]))
}
/// amounts no loop should follow: only for single moves
fn huge(r: &mut Rng) -> String {
    format!("{}{}", r.pick(&[9999u32, 10000, 32767, 32768, 65535, 65536, 65537, 99999, 1000000, 16777217, 2147483646, 2147483647, 2147483648]), r.pick(&["", "'"]))
}
pub fn move_text(r: &mut Rng, keys: &[String]) -> String {
    if keys.is_empty() || r.chance(1, 25) {
        let f = *r.pick(&["R", "U", "Q", "2R", "3-4r", "Rw", "x", "/", "R++", "R--", "R4+", "d3-", "99999999999R", "Z_Z", "R'2", ""]);
        return if f.len() <= 3 && f != "/" && !f.contains(['+', '-', '\'']) { format!("{f}{}", amount(r)) } else { f.to_string() };
    }
    let k = r.pick(keys).clone();
    if k == "_SLASH_" {
        return if r.chance(3, 4) { "/".into() } else { k };
    }
    if let Some(f) = k.strip_suffix("_PLUSPLUS_") {
        return format!("{f}{}", r.pick(&["++", "--"]));
    }
    if let Some(f) = k.strip_suffix("_PLUS_") {
        return format!("{f}{}{}", r.below(6), r.pick(&["+", "-"]));
    }
    if k.ends_with('\'') || k.ends_with(|c: char| c.is_ascii_digit()) {
        let base = k.trim_end_matches('\'').trim_end_matches(|c: char| c.is_ascii_digit()).to_string();
        return match r.below(3) {
            0 => k,
            1 => {
                if let Some(b) = k.strip_suffix('\'') {
                    b.into()
                } else {
                    format!("{k}'")
                }
            }
            _ => format!("{base}{}", amount(r)),
        };
    }
    if r.chance(1, 40) {
        return format!("{k}{}", if r.chance(1, 2) { large(r) } else { huge(r) });
    }
    format!("{k}{}", amount(r))
}
pub fn alg_text(r: &mut Rng, keys: &[String], depth: u32) -> String {
    let n = if depth == 0 {
        r.below(7)
    } else if r.chance(1, 10) {
        // an empty side
        return (*r.pick(&["", "", "", " "])).into();
    } else {
        1 + r.below(3)
    };
    let mut s = String::new();
    let mut nosp = true;
    for _ in 0..n {
        if !nosp {
            s.push_str(if r.chance(1, 40) {
                ""
            } else if r.chance(1, 12) {
                "  "
            } else {
                " "
            });
        }
        nosp = false;
        let k = if depth >= 3 { r.below(72) } else { r.below(100) };
        match k {
            0..=69 => s.push_str(&move_text(r, keys)),
            70 => s.push('.'),
            71 => {
                s.push('\n');
                nosp = true
            }
            72..=81 => {
                let inner = alg_text(r, keys, depth + 1);
                let n = if depth == 0 && r.chance(1, 20) { large(r) } else { amount(r) };
                s.push_str(&format!("({inner}){n}"))
            }
            82..=87 => {
                let a = alg_text(r, keys, depth + 1);
                let b = alg_text(r, keys, depth + 1);
                s.push_str(&format!("[{a}, {b}]{}", if r.chance(1, 3) { amount(r) } else { String::new() }))
            }
            88..=93 => {
                let a = alg_text(r, keys, depth + 1);
                let b = alg_text(r, keys, depth + 1);
                s.push_str(&format!("[{a}: {b}]{}", if r.chance(1, 3) { amount(r) } else { String::new() }))
            }
            94..=96 => s.push_str(&format!("({}, {})", r.range(-6, 6), r.range(-6, 6))),
            97 if depth == 0 => {
                s.push_str("// note\n");
                nosp = true
            }
            _ => s.push('/'),
        }
    }
    if depth == 0 && r.chance(1, 14) {
        s.push_str(*r.pick(&["// end", "//", " // a'b (", "\n// x"]));
    }
    if r.chance(1, 40) {
        // damage the text
        let mut cs: Vec<char> = s.chars().collect();
        if cs.is_empty() {
            return "(".into();
        }
        let i = r.below(cs.len());
        match r.below(3) {
            0 => {
                cs.remove(i);
            }
            1 => cs.insert(i, *r.pick(&['(', ')', '[', ']', ',', ':', '\'', '-', '9', 'é', '/', '\n'])),
            _ => cs.truncate(i),
        }
        return cs.into_iter().collect();
    }
    s
}
/// every key must parse as a move and be distinct
fn keys_of(d: &SpecDef) -> Vec<String> {
    let mut v: Vec<String> = d.moves.keys().cloned().collect();
    if let Some(m) = &d.derived {
        v.extend(m.keys().cloned());
    }
    v
}
/// What can be packed into a byte.
pub fn packable(n: u8) -> bool {
    n > 0 && n <= 107 && (1..=n as u32).filter(|f| n as u32 % f == 0).sum::<u32>() + (n as u32) < 256
}
pub fn rand_orbits(r: &mut Rng, edge: bool) -> Vec<OrbitSpec> {
    let n = if edge && r.chance(1, 8) {
        0
    } else if r.chance(1, 15) {
        4 + r.below(6)
    } else {
        1 + r.below(3)
    };
    (0..n)
        .map(|i| {
            let pieces = if edge && r.chance(1, 18) {
                *r.pick(&[33u8, 40, 64, 65, 100, 128, 129, 150, 200, 254, 255, 180])
            } else if edge && r.chance(1, 6) {
                *r.pick(&[0u8, 1, 0, 20])
            } else {
                1 + r.below(6) as u8
            };
            let ori = if edge && r.chance(1, 8) {
                if r.chance(1, 2) {
                    *r.pick(&[12u8, 60, 107])
                } else {
                    let all: Vec<u8> = (5..=107).filter(|n| packable(*n)).collect();
                    *r.pick(&all)
                }
            } else {
                1 + r.below(4) as u8
            };
            OrbitSpec { name: format!("{}{}", ["E", "C", "Z", "EDGES", "CENTERS", "e", "E2", "\u{d8}rb", "C C", "Zz"][i], if r.chance(1, 6) { "x" } else { "" }), pieces, ori }
        })
        .collect()
}
/// A valid puzzle.
pub fn rand_spec(r: &mut Rng, edge: bool) -> SpecDef {
    let orbits = rand_orbits(r, edge);
    let mut d = SpecDef { name: (*r.pick(&["p", "q", "cube", "3x3x3"])).into(), default: rand_pat(r, &orbits), ..Default::default() };
    let mut fams: Vec<&str> = FAMS[..15].to_vec();
    r.shuffle(&mut fams);
    let nm = 1 + r.below(4);
    for f in &fams[..nm] {
        d.moves.insert(f.to_string(), rand_tr(r, &orbits));
    }
    // one quantum move defined with several amounts that need not agree
    let multi = if r.chance(1, 3) { Some(*r.pick(&["D", "L", "y", "2-4u"])) } else { None };
    if let Some(q) = multi {
        for _ in 0..1 + r.below(3) {
            d.moves.insert(format!("{q}{}", r.pick(&["2", "3", "4", "6", "2'", "'", "2", "4", ""])), rand_tr(r, &orbits));
        }
    }
    let nd = r.below(4);
    if nd > 0 || r.chance(1, 2) {
        let mut known: Vec<String> = d.moves.keys().cloned().collect();
        let mut m = BTreeMap::new();
        for f in &fams[nm..nm + nd] {
            let t = loop {
                let t = calm_alg(r, &known);
                if !t.is_empty() || r.chance(1, 10) {
                    break t;
                }
            };
            m.insert(f.to_string(), t);
            known.push(f.to_string());
        }
        if let Some(q) = multi {
            // a different amount of the same quantum move, derived from other moves
            let k = format!("{q}{}", r.pick(&["3", "4", "5", "6", "3'"]));
            let others: Vec<String> = known.iter().filter(|x| !x.starts_with(q)).cloned().collect();
            if !others.is_empty() && !d.moves.contains_key(&k) && !d.moves.contains_key(q) && r.chance(1, 2) {
                m.insert(k, calm_alg(r, &others));
            }
        }
        d.derived = Some(m);
    }
    if r.chance(1, 7) {
        extra_orbits(r, &mut d);
    }
    d.orbits = orbits;
    d
}
/// Entries for orbits the puzzle does not have, next to the others.
pub fn extra_orbits(r: &mut Rng, d: &mut SpecDef) {
    let keys: Vec<String> = d.moves.keys().cloned().collect();
    for k in keys {
        if r.chance(1, 2) {
            for _ in 0..1 + r.below(2) {
                let n = r.below(4);
                let v = if r.chance(1, 2) { (0..n as u8).collect() } else { vec![9; n] };
                d.moves.get_mut(&k).unwrap().insert((*r.pick(&["X", "Y", "extra", ""])).into(), TrOrbit { perm: v.clone(), delta: vec![0; v.len()] });
            }
        }
    }
    if r.chance(1, 3) {
        d.default.insert("X".into(), PatOrbit { pieces: vec![3], ori: vec![7], omod: None });
    }
}
/// an alg text that is certainly valid and uses only the given moves
pub fn calm_alg(r: &mut Rng, keys: &[String]) -> String {
    let mv = |r: &mut Rng| {
        let k = r.pick(keys).clone();
        if k == "_SLASH_" {
            return "/".to_string();
        }
        if let Some(f) = k.strip_suffix("_PLUSPLUS_") {
            return format!("{f}{}", r.pick(&["++", "--"]));
        }
        if k.contains("_SQ_") {
            return k;
        }
        if let Some(b) = k.strip_suffix('\'') {
            return if r.chance(1, 2) { b.into() } else { k };
        }
        if k.ends_with(|c: char| c.is_ascii_digit()) {
            return if r.chance(1, 3) { format!("{k}'") } else { k };
        }
        format!("{k}{}", r.pick(&["", "'", "2", "2'", "3"]))
    };
    let n = 1 + r.below(4);
    let mut v: Vec<String> = vec![];
    for _ in 0..n {
        v.push(match r.below(10) {
            0..=6 => mv(r),
            7 => format!("({} {}){}", mv(r), mv(r), r.pick(&["", "2", "'"])),
            8 => format!("[{}, {}]", mv(r), mv(r)),
            _ => format!("[{}: {}]", mv(r), mv(r)),
        });
    }
    v.join(" ")
}
/// same name, orbits and move names, other contents
pub fn twin(r: &mut Rng, d: &SpecDef) -> SpecDef {
    let mut t = d.clone();
    t.default = rand_pat(r, &t.orbits);
    let o = t.orbits.clone();
    for v in t.moves.values_mut() {
        if r.chance(3, 4) {
            *v = rand_tr(r, &o);
        }
    }
    if let Some(m) = &mut t.derived {
        let base: Vec<String> = t.moves.keys().cloned().collect();
        for v in m.values_mut() {
            if r.chance(1, 2) {
                *v = calm_alg(r, &base);
            }
        }
    }
    t
}
/// same name, number of bytes and move names, pieces divided differently among the orbits
pub fn reshape(r: &mut Rng, d: &SpecDef) -> SpecDef {
    let mut t = d.clone();
    let n = t.orbits.len();
    if n == 1 && t.orbits[0].pieces > 1 {
        let k = 1 + r.below(t.orbits[0].pieces as usize - 1) as u8;
        let o = t.orbits[0].clone();
        t.orbits[0].pieces -= k;
        t.orbits.push(OrbitSpec { name: "Z".into(), pieces: k, ori: o.ori });
    } else if n > 1 {
        let i = r.below(n);
        let j = (i + 1) % n;
        match r.below(3) {
            0 => t.orbits.swap(i, j),
            1 if t.orbits[i].name != t.orbits[j].name => {
                let x = t.orbits[i].name.clone();
                t.orbits[i].name = std::mem::replace(&mut t.orbits[j].name, x);
            }
            _ => {
                let k = r.below(t.orbits[i].pieces as usize + 1).min(255 - t.orbits[j].pieces as usize) as u8;
                t.orbits[i].pieces -= k;
                t.orbits[j].pieces += k;
            }
        }
    }
    if r.chance(1, 2) {
        for o in t.orbits.iter_mut() {
            o.ori = 1 + r.below(4) as u8;
        }
    }
    let o = t.orbits.clone();
    t.default = rand_pat(r, &o);
    for v in t.moves.values_mut() {
        *v = rand_tr(r, &o);
    }
    t
}
/// Puzzles that come and go: each is built, used by the same few calls and
/// dropped before the next one, often in the memory of the last one.
fn churn(r: &mut Rng, specs: &[Spec], among: &[usize]) -> Vec<Op> {
    let d = specs[among[0]].def();
    let keys = keys_of(&d);
    let long = r.chance(1, 10);
    let rounds = if long { 262 + r.below(12) } else { 4 + r.below(14) };
    let mut v = vec![];
    let o = |c: Code, a: Vec<A>, d: Option<u8>| Op { c, a, d };
    v.push(o(Code::ParseAlg(alg_text(r, &keys, 1)), vec![], Some(3)));
    v.push(o(Code::ParseMove(move_text(r, &keys)), vec![], Some(4)));
    let der: Vec<String> = d.derived.iter().flat_map(|m| m.keys().cloned()).collect();
    if !der.is_empty() {
        v.push(o(Code::ParseMove(r.pick(&der).clone()), vec![], Some(4)));
    }
    let keep = r.chance(1, 3);
    let what: Vec<usize> = (0..if long { 1 } else { 1 + r.below(4) }).map(|_| r.below(if long { 5 } else { 9 })).collect();
    let hows: Vec<u8> = vec![r.below(3) as u8, r.below(3) as u8];
    for k in 0..rounds {
        let s = if long || r.chance(2, 3) { among[k % among.len()] } else { *r.pick(among) };
        if matches!(specs[s], Spec::Builtin(_)) {
            continue;
        }
        v.push(o(Code::NewPuzzle(s, *r.pick(&hows), 0), vec![], Some(0)));
        let p = vec![A::R(0)];
        for w in &what {
            match w {
                0 => v.push(o(Code::TransMove, vec![A::R(0), A::R(4)], Some(1))),
                1 => v.push(o(Code::Identity, p.clone(), Some(1))),
                2 => v.push(o(Code::DefaultPattern, p.clone(), Some(2))),
                3 => v.push(o(Code::TransAlg, vec![A::R(0), A::R(3)], Some(1))),
                4 => v.push(o(Code::LookupOrbit((*r.pick(&["E", "C", "Z"])).into()), p.clone(), None)),
                5 => v.push(o(Code::DefSer, p.clone(), None)),
                6 => v.push(o(Code::Invert, vec![A::R(1)], Some(1))),
                7 => v.push(o(Code::Compose, vec![A::R(1), A::R(1)], Some(1))),
                _ => v.push(o(Code::ApplyAlg, vec![A::R(2), A::R(3)], Some(2))),
            }
        }
        // some puzzles live on in their values
        for i in [1u8, 2, 0] {
            if !(keep && i > 0 && r.chance(1, 4)) {
                v.push(o(Code::Drop, vec![A::R(i)], None));
            }
        }
    }
    v
}
/// A spec with one flaw that makes construction fail or evaluation err.
fn flawed(r: &mut Rng, d: &SpecDef) -> SpecDef {
    let mut t = d.clone();
    let mut m = t.derived.clone().unwrap_or_default();
    match r.below(3) {
        0 => {
            m.insert("H".into(), "H2 A".into());
        }
        1 => {
            m.insert("H".into(), "[K: K2]".into());
            m.insert("K".into(), "H'".into());
        }
        _ => {
            m.insert("H".into(), "NoSuch".into());
        }
    }
    t.derived = Some(m);
    t
}
pub fn base_specs() -> Vec<Spec> {
    vec![Spec::Builtin(2), Spec::Builtin(3), Spec::Builtin(4), Spec::Builtin(5)]
}

#[derive(Clone, Default)]
pub struct Weights {
    pub w: BTreeMap<&'static str, u32>,
}
impl Weights {
    pub fn new(v: &[(&'static str, u32)]) -> Weights {
        Weights { w: v.iter().cloned().collect() }
    }
}
pub struct G<'a> {
    pub r: &'a mut Rng,
    pub specs: &'a [Spec],
    pub defs: &'a [SpecDef],
    pub keys: &'a [Vec<String>],
    /// puzzles to build in this run
    pub use_specs: Vec<usize>,
    pub shared: Vec<Option<Ty>>,
    pub regs: Vec<Option<Ty>>,
    pub setup: bool,
    pub slots: Vec<Option<Ty>>,
    pub io: bool,
}
impl G<'_> {
    fn find(&mut self, f: &dyn Fn(Ty) -> bool) -> Option<(A, Ty)> {
        let mut c: Vec<(A, Ty)> = vec![];
        for (i, t) in self.regs.iter().enumerate() {
            if let Some(t) = t {
                if f(*t) {
                    c.push((if self.setup { A::S(i as u8) } else { A::R(i as u8) }, *t));
                }
            }
        }
        if !self.setup {
            for (i, t) in self.shared.iter().enumerate() {
                if let Some(t) = t {
                    if f(*t) {
                        c.push((A::S(i as u8), *t));
                    }
                }
            }
        }
        if c.is_empty() {
            None
        } else {
            let i = self.r.below(c.len());
            Some(c[i].clone())
        }
    }
    fn own(&mut self, f: &dyn Fn(Ty) -> bool) -> Option<(A, Ty)> {
        if self.setup {
            return None;
        }
        let c: Vec<(A, Ty)> = self.regs.iter().enumerate().filter_map(|(i, t)| t.filter(|t| f(*t)).map(|t| (A::R(i as u8), t))).collect();
        if c.is_empty() {
            None
        } else {
            let i = self.r.below(c.len());
            Some(c[i].clone())
        }
    }
    fn dest(&mut self, t: Ty) -> Option<u8> {
        if self.setup {
            self.regs.push(Some(t));
            return Some(self.regs.len() as u8 - 1);
        }
        // prefer a free register
        let i = match self.regs.iter().position(|x| x.is_none()) {
            Some(i) if self.r.chance(3, 4) => i,
            _ => self.r.below(NREG),
        };
        self.regs[i] = Some(t);
        Some(i as u8)
    }
    fn any_spec(&mut self) -> usize {
        let v = self.use_specs.clone();
        *self.r.pick(&v)
    }
    fn spec_in(&self, a: &[A]) -> Option<usize> {
        let t = match a.first()? {
            A::S(i) if !self.setup => self.shared.get(*i as usize),
            A::S(i) | A::R(i) => self.regs.get(*i as usize),
        };
        (*t?).map(Self::spec_of)
    }
    fn spec_of(t: Ty) -> usize {
        match t {
            Ty::Puzzle(s) | Ty::Pat(s) | Ty::Tr(s) | Ty::PBuf(s) | Ty::TBuf(s) | Ty::PData(s) | Ty::TData(s) => s,
            _ => 0,
        }
    }
    pub fn io_plan(&mut self, len: usize) -> IoPlan {
        let r = &mut *self.r;
        let chunks = match r.below(4) {
            0 => vec![],
            1 => vec![1],
            _ => (0..1 + r.below(5)).map(|_| 1 + r.below(7) as u16).collect(),
        };
        let intr = if r.chance(1, 2) { vec![] } else { (0..1 + r.below(4)).map(|_| r.below(12) as u16).collect() };
        let fail_at = if r.chance(2, 3) { Some(r.below(len + 2) as u32) } else { None };
        let fail_kind = if self.io { *r.pick(&[0u8, 0, 2, 3]) } else { *r.pick(&[0u8, 1, 1, 2, 3]) };
        IoPlan { chunks, intr, fail_at, fail_kind }
    }
    /// Produce one call of the named family, or None if it is not possible now.
    pub fn op(&mut self, fam: &str) -> Option<Op> {
        let op = |c: Code, a: Vec<A>, d: Option<u8>| Some(Op { c, a, d });
        match fam {
            "parse" => {
                let s = self.any_spec();
                let k = self.keys[s].clone();
                let t = alg_text(self.r, &k, 0);
                match self.r.below(8) {
                    0 => {
                        let t = move_text(self.r, &k);
                        let d = self.dest(Ty::Move);
                        op(Code::ParseMove(t), vec![], d)
                    }
                    1 => {
                        let t = (*self.r.pick(&["R", "2R", "3-4r", "_SLASH_", "R2", "", "Uw", "/", "BL_"])).to_string();
                        let d = self.dest(Ty::QMove);
                        op(Code::ParseQMove(t), vec![], d)
                    }
                    2 => {
                        let d = self.dest(Ty::Alg);
                        op(Code::AlgDe(serde_json::to_string(&t).unwrap()), vec![], d)
                    }
                    3 => {
                        let t = move_text(self.r, &k);
                        let d = self.dest(Ty::Move);
                        op(Code::MoveDe(serde_json::to_string(&t).unwrap()), vec![], d)
                    }
                    _ => {
                        let d = self.dest(Ty::Alg);
                        op(Code::ParseAlg(t), vec![], d)
                    }
                }
            }
            "nested" => {
                let s = self.any_spec();
                let k = self.keys[s].clone();
                let mut t = move_text(self.r, &k);
                let n = *self.r.pick(&[4usize, 8, 14, 25, 40]);
                let mut brackets = 0;
                for _ in 0..n {
                    let m = move_text(self.r, &k);
                    t = match self.r.below(6) {
                        0 if brackets < 4 => {
                            brackets += 1;
                            format!("[{m}: {t}]")
                        }
                        1 => format!("({t} {m})'"),
                        2 => format!("({m} {t})"),
                        _ => format!("({t})"),
                    };
                }
                let d = self.dest(Ty::Alg);
                op(Code::ParseAlg(t), vec![], d)
            }
            "badparse" => {
                let t = (*self.r.pick(&["(", "R'2", "[R, U", "R U)", "99999999999R", "R2'3", "[R: ", "R((", "é", "R99999999999", "(R U)99999999999", "RU]"])).to_string();
                match self.r.below(4) {
                    0 => {
                        let d = self.dest(Ty::Move);
                        op(Code::ParseMove(t), vec![], d)
                    }
                    1 => {
                        let d = self.dest(Ty::Alg);
                        op(Code::AlgDe(serde_json::to_string(&t).unwrap()), vec![], d)
                    }
                    2 => {
                        let d = self.dest(Ty::QMove);
                        op(Code::QMoveDe(serde_json::to_string(&t).unwrap()), vec![], d)
                    }
                    _ => {
                        let d = self.dest(Ty::Alg);
                        op(Code::ParseAlg(t), vec![], d)
                    }
                }
            }
            "sq1" => {
                let a = self.r.range(-6, 6);
                let b = self.r.range(-6, 6);
                let d = self.dest(Ty::Alg);
                op(Code::ParseAlg((*self.r.pick(&[format!("({a}, {b})"), format!("({a}, {b}) / (1, 0)"), format!("[(0, {b}): / ({a}, 3)]"), "/ /".to_string()])).clone()), vec![], d)
            }
            "print" => {
                let (a, _) = self.find(&|t| matches!(t, Ty::Alg | Ty::Move | Ty::QMove))?;
                let c = if self.r.chance(1, 4) { Code::Debug } else { Code::Print };
                if matches!(c, Code::Print) {
                    let d = self.dest(Ty::Text);
                    op(c, vec![a], d)
                } else {
                    op(c, vec![a], None)
                }
            }
            "debug" => {
                let (a, _) = self.find(&|t| matches!(t, Ty::Alg | Ty::Move | Ty::Puzzle(_) | Ty::Pat(_) | Ty::Tr(_)))?;
                op(Code::Debug, vec![a], None)
            }
            "invert" => {
                let (a, t) = self.find(&|t| matches!(t, Ty::Alg | Ty::Move | Ty::Tr(_)))?;
                let d = self.dest(t);
                op(Code::Invert, vec![a], d)
            }
            "clone" => {
                let (a, t) = self.find(&|t| !matches!(t, Ty::PBuf(_) | Ty::TBuf(_)))?;
                let d = self.dest(t);
                op(Code::Clone, vec![a], d)
            }
            "eq" => {
                let (a, t) = self.find(&|t| !matches!(t, Ty::Text | Ty::Puzzle(_) | Ty::PBuf(_) | Ty::TBuf(_)))?;
                let (b, _) = self.find(&|u| u == t)?;
                op(Code::Eq, vec![a, b], None)
            }
            "build" => {
                let n = 1 + self.r.below(3);
                let mut v = vec![];
                for _ in 0..n + self.r.below(2) {
                    v.push(self.find(&|t| matches!(t, Ty::Alg | Ty::Move))?.0);
                }
                let d = self.dest(Ty::Alg);
                op(Code::Build, v, d)
            }
            "node" => {
                let (a, _) = self.find(&|t| t == Ty::Alg)?;
                let n = self.r.below(5) as u8;
                let d = self.dest(Ty::Alg);
                op(Code::NodeAt(n), vec![a], d)
            }
            "ser" => {
                let (a, _) = self.find(&|t| matches!(t, Ty::Alg | Ty::Move | Ty::QMove | Ty::PData(_) | Ty::TData(_)))?;
                op(Code::Ser, vec![a], None)
            }
            "moveset" => {
                let n = 1 + self.r.below(3);
                let mut v = vec![];
                for _ in 0..n {
                    v.push(self.find(&|t| matches!(t, Ty::Alg | Ty::Move))?.0);
                }
                op(Code::MoveSet, v, None)
            }
            "puzzle" => {
                let v: Vec<usize> = self.use_specs.iter().cloned().filter(|s| *s >= NBASE || *s == 0).collect();
                let s = if v.is_empty() { self.any_spec() } else { *self.r.pick(&v) };
                let (how, order) = (self.r.below(3) as u8, if self.r.chance(1, 2) { 0 } else { self.r.next() });
                let d = self.dest(Ty::Puzzle(s));
                op(Code::NewPuzzle(s, how, order), vec![], d)
            }
            "static" => {
                let n = self.r.below(8) as u8;
                let t = [Ty::Puzzle(0), Ty::Puzzle(1), Ty::Puzzle(2), Ty::Puzzle(3), Ty::Pat(2), Ty::Pat(0), Ty::Tr(2), Ty::Tr(1)][n as usize];
                let d = self.dest(t);
                op(Code::Static(n), vec![], d)
            }
            "defread" => {
                let (a, _) = self.find(&|t| matches!(t, Ty::Puzzle(_)))?;
                let c = match self.r.below(3) {
                    0 => Code::DefSer,
                    1 => Code::DefRead,
                    _ => Code::LookupOrbit((*self.r.pick(&["E", "C", "Z", "EDGES", "CORNERS", "nope"])).into()),
                };
                op(c, vec![a], None)
            }
            "default" => {
                let (a, t) = self.find(&|t| matches!(t, Ty::Puzzle(_)))?;
                let s = Self::spec_of(t);
                let d = self.dest(Ty::Pat(s));
                op(Code::DefaultPattern, vec![a], d)
            }
            "identity" => {
                let (a, t) = self.find(&|t| matches!(t, Ty::Puzzle(_)))?;
                let s = Self::spec_of(t);
                let d = self.dest(Ty::Tr(s));
                op(Code::Identity, vec![a], d)
            }
            "trans" => {
                let (a, t) = self.find(&|t| matches!(t, Ty::Puzzle(_)))?;
                let s = Self::spec_of(t);
                let (b, u) = self.find(&|t| matches!(t, Ty::Alg | Ty::Move))?;
                let d = self.dest(Ty::Tr(s));
                op(if u == Ty::Alg { Code::TransAlg } else { Code::TransMove }, vec![a, b], d)
            }
            "apply" => {
                let (a, t) = self.find(&|t| matches!(t, Ty::Pat(_)))?;
                let s = Self::spec_of(t);
                let (b, u) = self.find(&|t| matches!(t, Ty::Alg | Ty::Move) || t == Ty::Tr(s))?;
                let c = match u {
                    Ty::Alg => Code::ApplyAlg,
                    Ty::Move => Code::ApplyMove,
                    _ => Code::ApplyTrans,
                };
                let d = self.dest(Ty::Pat(s));
                op(c, vec![a, b], d)
            }
            "compose" => {
                let (a, t) = self.find(&|t| matches!(t, Ty::Tr(_)))?;
                let s = Self::spec_of(t);
                let (b, _) = self.find(&|u| u == t)?;
                let d = self.dest(Ty::Tr(s));
                op(Code::Compose, vec![a, b], d)
            }
            "into" => {
                let (c, t) = self.own(&|t| matches!(t, Ty::Pat(_) | Ty::Tr(_)))?;
                let s = Self::spec_of(t);
                let (a, _) = self.find(&|u| u == t)?;
                let (b, _) = self.find(&|u| u == Ty::Tr(s))?;
                if a == c || b == c {
                    return None;
                }
                op(if matches!(t, Ty::Pat(_)) { Code::ApplyInto } else { Code::ComposeInto }, vec![a, b, c], None)
            }
            "todata" => {
                let (a, t) = self.find(&|t| matches!(t, Ty::Pat(_) | Ty::Tr(_)))?;
                let s = Self::spec_of(t);
                let d = self.dest(if matches!(t, Ty::Pat(_)) { Ty::PData(s) } else { Ty::TData(s) });
                op(Code::ToData, vec![a], d)
            }
            "fromdata" => {
                let (a, t) = self.find(&|t| matches!(t, Ty::Puzzle(_)))?;
                let s = Self::spec_of(t);
                let (b, u) = self.find(&|t| t == Ty::PData(s) || t == Ty::TData(s))?;
                let p = matches!(u, Ty::PData(_));
                let d = self.dest(if p { Ty::Pat(s) } else { Ty::Tr(s) });
                op(if p { Code::FromPData } else { Code::FromTData }, vec![a, b], d)
            }
            "fromjson" => {
                let (a, t) = self.find(&|t| matches!(t, Ty::Puzzle(_)))?;
                let s = Self::spec_of(t);
                let o = self.defs[s].orbits.clone();
                let mut ord = Some(self.r.fork(3));
                if self.r.chance(1, 2) {
                    let mut p = rand_pat(self.r, &o);
                    let how = self.r.below(12);
                    if how == 0 {
                        crate::judge::damage_pat(self.r, &o, &mut p);
                    }
                    let mut t = pat_json(&p, &mut ord);
                    if how == 1 {
                        t = String::from_utf8_lossy(&crate::judge::damage_bytes(self.r, &t, "{}")).into_owned();
                    }
                    let d = self.dest(Ty::Pat(s));
                    op(Code::PatFromJson(t), vec![a], d)
                } else {
                    let mut p = rand_tr(self.r, &o);
                    let how = self.r.below(12);
                    if how == 0 {
                        crate::judge::damage_tr(self.r, &o, &mut p);
                    }
                    let mut t = tr_json(&p, &mut ord);
                    if how == 1 {
                        t = String::from_utf8_lossy(&crate::judge::damage_bytes(self.r, &t, "{}")).into_owned();
                    }
                    let d = self.dest(Ty::Tr(s));
                    op(Code::TrFromJson(t), vec![a], d)
                }
            }
            "get" => {
                let (a, t) = self.find(&|t| matches!(t, Ty::Pat(_) | Ty::Tr(_)))?;
                let s = Self::spec_of(t);
                let no = self.defs[s].orbits.len();
                if no == 0 {
                    return None;
                }
                let o = self.r.below(no);
                let n = self.defs[s].orbits[o].pieces as usize;
                if n == 0 {
                    return None;
                }
                let i = self.r.below(n) as u8;
                op(if matches!(t, Ty::Pat(_)) { Code::PatGet(o as u8, i) } else { Code::TrGet(o as u8, i) }, vec![a], None)
            }
            // element updates; `badset` uses arguments out of range
            "set" | "badset" => {
                let bad = fam == "badset";
                let (a, t) = self.own(&|t| matches!(t, Ty::Pat(_) | Ty::Tr(_)))?;
                let s = Self::spec_of(t);
                let no = self.defs[s].orbits.len();
                if no == 0 {
                    return None;
                }
                let oi = self.r.below(no);
                let o = self.defs[s].orbits[oi].clone();
                if o.pieces == 0 && !bad {
                    return None;
                }
                let mut i = self.r.below(o.pieces.max(1) as usize) as u8;
                let oi = oi as u8;
                if matches!(t, Ty::Pat(_)) {
                    if self.r.chance(1, 2) {
                        if bad {
                            i = o.pieces.saturating_add(self.r.below(60) as u8);
                        }
                        let x = self.r.below(10) as u8;
                        op(Code::PatSet(oi, i, x), vec![a], None)
                    } else {
                        let m = *self.r.pick(&divisors(o.ori));
                        let mut x = self.r.below(if m == 0 { o.ori } else { m } as usize) as u8;
                        let mut m = m;
                        if bad {
                            match self.r.below(3) {
                                0 => i = o.pieces.saturating_add(self.r.below(9) as u8),
                                1 => x = if m == 0 { o.ori } else { m } + self.r.below(3) as u8,
                                _ => {
                                    m = o.ori + 1;
                                    x = 0
                                }
                            }
                        }
                        op(Code::PatSetOri(oi, i, x, m), vec![a], None)
                    }
                } else {
                    if bad {
                        return if self.r.chance(1, 2) {
                            op(Code::TrSetPerm(oi, o.pieces.saturating_add(self.r.below(60) as u8), 0), vec![a], None)
                        } else {
                            op(Code::TrSetDelta(oi, i, o.ori + self.r.below(5) as u8), vec![a], None)
                        };
                    }
                    let x = self.r.below(o.ori as usize) as u8;
                    op(Code::TrSetDelta(oi, i, x), vec![a], None)
                }
            }
            "badget" => {
                let (a, t) = self.find(&|t| matches!(t, Ty::Pat(_) | Ty::Tr(_)))?;
                let s = Self::spec_of(t);
                let no = self.defs[s].orbits.len();
                if no == 0 {
                    return None;
                }
                let o = self.r.below(no);
                let n = self.defs[s].orbits[o].pieces;
                let i = n.saturating_add(self.r.below(100) as u8);
                op(if matches!(t, Ty::Pat(_)) { Code::PatGet(o as u8, i) } else { Code::TrGet(o as u8, i) }, vec![a], None)
            }
            "hash" => {
                let (a, _) = self.find(&|t| matches!(t, Ty::Move | Ty::QMove | Ty::Pat(_)))?;
                op(Code::HashVal, vec![a], None)
            }
            // a long history of cheap calls
            "burst" | "repeat" => {
                let n = if fam == "repeat" { *self.r.pick(&[2u16, 4, 4, 9]) } else { *self.r.pick(&[20u16, 40, 70, 140, 140, 270]) };
                if fam == "burst" && self.r.chance(1, 2) {
                    let k = self.r.below(9) as u8;
                    let seed = self.r.next();
                    let a = if matches!(k, 1 | 2 | 4 | 7 | 8) { vec![self.find(&|t| matches!(t, Ty::Puzzle(_)))?.0] } else { vec![] };
                    return op(Code::Flood(k, n, seed), a, None);
                }
                let fam = *self.r.pick(&[
                    "badparse", "badparse", "parse", "print", "invert", "clone", "trans", "trans", "apply", "apply", "compose", "default", "identity", "todata", "fromjson", "fromdata", "hash", "moveset", "hashset", "ser", "badget", "puzzle",
                    "defread", "build", "eq", "printto", "serto", "defrom", "hashpanic",
                ]);
                let old = self.regs.clone();
                let o = self.op(fam);
                self.regs = old;
                let o = o?;
                let n = match &o.c {
                    Code::ParseMove(_) | Code::ParseAlg(_) | Code::ParseQMove(_) | Code::MoveDe(_) | Code::HashVal | Code::Eq | Code::Clone if n >= 140 && self.r.chance(1, 3) => *self.r.pick(&[520u16, 1040, 2100]),
                    Code::NewPuzzle(s, ..) if matches!(self.specs[*s], Spec::Builtin(_)) => return None,
                    Code::NewPuzzle(..) => n.min(70),
                    Code::HashPanic(_) | Code::PatGet(..) | Code::TrGet(..) => n.min(40),
                    Code::DefSer | Code::DefRead | Code::SerTo(_) | Code::DeFrom(..) => n.min(20),
                    _ => n,
                };
                let c = match o.c {
                    Code::NewPuzzle(s, how, _) => Code::NewPuzzle(s, how, 0),
                    c => c,
                };
                op(Code::Repeat(n, Box::new(c)), o.a, None)
            }
            // one call inside another
            "nest" => {
                let ctx = *self.r.pick(&[0u8, 0, 0, 4, 1, 1, 2, 3, 5, 7, 8, 9, 10, 10, 11]);
                let (a, _) = match ctx {
                    0 | 5 | 8 => self.find(&|t| matches!(t, Ty::Alg | Ty::Move | Ty::QMove | Ty::Text | Ty::Puzzle(_)))?,
                    10 | 11 => self.find(&|t| matches!(t, Ty::Puzzle(_) | Ty::Pat(_) | Ty::Tr(_)))?,
                    4 | 9 => self.find(&|t| !matches!(t, Ty::Text | Ty::PBuf(_) | Ty::TBuf(_)))?,
                    1 | 2 => self.find(&|t| matches!(t, Ty::Alg | Ty::Move | Ty::QMove | Ty::PData(_) | Ty::TData(_) | Ty::Puzzle(_)))?,
                    3 => self.find(&|t| matches!(t, Ty::Move | Ty::QMove | Ty::Pat(_)))?,
                    _ => self.find(&|t| matches!(t, Ty::Puzzle(_) | Ty::Pat(_) | Ty::PBuf(_) | Ty::TBuf(_)))?,
                };
                // often the same kind of call inside
                let fam = match self.r.below(3) {
                    0 => *self.r.pick(match ctx {
                        0 | 4 | 5 | 8 | 9 => &["print", "print", "printto", "trans", "badparse"][..],
                        1 => &["ser", "serto", "print"],
                        2 => &["parse", "defrom", "puzzle", "nested"],
                        3 => &["hash", "hashset", "moveset"],
                        _ => &["fromjson", "default", "get", "bufread", "trans", "apply"],
                    }),
                    _ => *self.r.pick(&[
                        "badparse", "parse", "parse", "sq1", "nested", "print", "print", "invert", "clone", "trans", "trans", "trans", "apply", "apply", "compose", "default", "identity", "todata", "fromjson", "fromjson", "fromdata", "hash", "moveset", "hashset", "ser",
                        "puzzle", "static", "defread", "build", "node", "eq", "get", "printto", "serto", "defrom", "hashpanic", "badget", "nest", "bufread", "bufeq",
                    ]),
                };
                let mut fam = fam;
                if matches!(ctx, 5 | 8 | 9 | 10 | 11) && matches!(fam, "hashpanic" | "badget" | "nest" | "printto" | "serto" | "defrom") {
                    fam = "print";
                }
                let old = self.regs.clone();
                let o = self.op(fam);
                self.regs = old;
                let o = o?;
                // a panic inside the panic hook ends the process
                if let (true, Code::DefaultPattern) = (matches!(ctx, 5 | 8 | 9 | 10 | 11), &o.c) {
                    if self.spec_in(&o.a).is_none_or(|s| crate::judge::pat_flaw(&self.defs[s].orbits, &self.defs[s].default).is_some()) {
                        return None;
                    }
                }
                if matches!(o.c, Code::NewPuzzle(s, ..) if matches!(self.specs[s], Spec::Builtin(_))) {
                    return None;
                }
                let at = *self.r.pick(&[0u16, 0, 1, 1, 2, 3, 4, 6, 9, 15]);
                let mut v = vec![a];
                v.extend(o.a);
                op(Code::Nest(ctx, at, Box::new(o.c)), v, None)
            }
            // moves that are almost the same
            "nearset" => {
                let f = (*self.r.pick(&["R", "Rw", "r", "_SLASH_", "U"])).to_string();
                let a = self.r.range(-3, 4) as i32;
                let l = 1 + self.r.below(3) as u32;
                let mut v = vec![];
                for _ in 0..3 + self.r.below(6) {
                    let mut m = CMove { f: f.clone(), p: *self.r.pick(&[None, Some((l, None)), Some((l, Some(l))), Some((l, Some(l + 1))), Some((1, None)), Some((1, Some(1))), Some((1, Some(l))), Some((l + 1, Some(l)))]), a };
                    match self.r.below(6) {
                        0 => m.a = -a,
                        1 => m.a = a + *self.r.pick(&[4, -4, 3, 1, 0]),
                        2 => m.f = (*self.r.pick(&["r", "R", "Rw", "rw", "RW", "R_"])).into(),
                        _ => {}
                    }
                    v.push(m);
                }
                op(Code::NearSet(v), vec![], None)
            }
            "nearpats" => {
                let (a, _) = self.find(&|t| matches!(t, Ty::Pat(_)))?;
                let s = self.r.next();
                op(Code::NearPats(s), vec![a], None)
            }
            "hashpanic" => {
                let (a, _) = self.find(&|t| matches!(t, Ty::Move | Ty::QMove | Ty::Pat(_)))?;
                let n = self.r.below(24) as u32;
                op(Code::HashPanic(n), vec![a], None)
            }
            "hashset" => {
                let (a, t) = self.find(&|t| matches!(t, Ty::Pat(_)))?;
                let mut v = vec![a];
                for _ in 0..self.r.below(4) {
                    v.push(self.find(&|u| u == t)?.0);
                }
                op(if self.r.chance(1, 2) { Code::HashSetOf } else { Code::HashMapOf }, v, None)
            }
            "bufnew" => {
                let (a, t) = self.find(&|t| matches!(t, Ty::Pat(_) | Ty::Tr(_)))?;
                if self.setup {
                    return None;
                }
                let s = Self::spec_of(t);
                let d = self.dest(if matches!(t, Ty::Pat(_)) { Ty::PBuf(s) } else { Ty::TBuf(s) });
                op(Code::BufNew, vec![a], d)
            }
            "bufapply" => {
                let (a, t) = self.own(&|t| matches!(t, Ty::PBuf(_) | Ty::TBuf(_)))?;
                let s = Self::spec_of(t);
                let (b, _) = self.find(&|u| u == Ty::Tr(s))?;
                op(Code::BufApply, vec![a, b], None)
            }
            // an update that panics half-way: the transformation belongs to a
            // puzzle with the same number of bytes and other orbits
            "bufbad" => {
                let (a, t) = self.own(&|t| matches!(t, Ty::TBuf(_)))?;
                let s = Self::spec_of(t);
                let specs = self.specs;
                let (b, _) = self.find(&|u| matches!(u, Ty::Tr(x) if x != s && specs_same_size(specs, s, x)))?;
                op(Code::BufApply, vec![a, b], None)
            }
            "bufread" => {
                let (a, t) = self.own(&|t| matches!(t, Ty::PBuf(_) | Ty::TBuf(_)))?;
                let s = Self::spec_of(t);
                let d = self.dest(if matches!(t, Ty::PBuf(_)) { Ty::Pat(s) } else { Ty::Tr(s) });
                op(Code::BufCurrent, vec![a], d)
            }
            "bufeq" => {
                let (a, t) = self.own(&|t| matches!(t, Ty::PBuf(_) | Ty::TBuf(_)))?;
                let (b, _) = self.own(&|u| u == t)?;
                op(Code::BufEq, vec![a, b], None)
            }
            "printto" => {
                let (a, t) = self.find(&|t| matches!(t, Ty::Alg | Ty::Move | Ty::QMove | Ty::Text | Ty::Puzzle(_)))?;
                let p = self.io_plan(if t == Ty::Alg { 30 } else { 6 });
                op(Code::PrintTo(p), vec![a], None)
            }
            "debugto" => {
                let (a, t) = self.find(&|t| !matches!(t, Ty::Text | Ty::PBuf(_) | Ty::TBuf(_)))?;
                let mut p = self.io_plan(if matches!(t, Ty::Puzzle(_) | Ty::Move | Ty::QMove) { 40 } else { 150 });
                if matches!(t, Ty::Pat(_) | Ty::Tr(_) | Ty::PData(_) | Ty::TData(_)) && p.fail_kind == 3 {
                    p.fail_kind = 0;
                }
                op(Code::DebugTo(p), vec![a], None)
            }
            // the same failing transfer again and again
            "failburst" | "failread" => {
                let n = *self.r.pick(&[20u16, 70, 70, 140, 270]);
                let fam = if fam == "failread" { "defrom" } else { *self.r.pick(&["printto", "printto", "debugto", "serto", "defrom"]) };
                let mut o = self.op(fam)?;
                if let Code::PrintTo(p) | Code::DebugTo(p) | Code::SerTo(p) | Code::DeFrom(_, _, p) = &mut o.c {
                    p.fail_at = Some(self.r.below(12) as u32);
                }
                let n = if matches!(o.c, Code::SerTo(_) | Code::DeFrom(..)) { n.min(40) } else { n };
                op(Code::Repeat(n, Box::new(o.c)), o.a, None)
            }
            "serto" => {
                let (a, t) = self.find(&|t| matches!(t, Ty::Alg | Ty::Move | Ty::QMove | Ty::PData(_) | Ty::TData(_) | Ty::Puzzle(_)))?;
                let p = self.io_plan(match t {
                    Ty::Alg => 40,
                    Ty::Move | Ty::QMove => 8,
                    Ty::Puzzle(_) => 900,
                    _ => 150,
                });
                op(Code::SerTo(p), vec![a], None)
            }
            "badtext" => {
                // a text register that does not parse: its error is printed
                let t = (*self.r.pick(&["(", "R'2", "[R, U", "R U)", "99999999999R", "é"])).to_string();
                let d = self.dest(Ty::Text);
                op(Code::Print, vec![], d).map(|mut o| {
                    o.c = Code::TextOf(t);
                    o
                })
            }
            "defrom" => {
                let s = self.any_spec();
                let k = self.r.below(6) as u8;
                let keys = self.keys[s].clone();
                let mut ord = Some(self.r.fork(5));
                let mut t = match k {
                    0 => serde_json::to_string(&alg_text(self.r, &keys, 0)).unwrap(),
                    1 => serde_json::to_string(&move_text(self.r, &keys)).unwrap(),
                    2 => (*self.r.pick(&["\"R\"", "\"2R\"", "\"3-4r\"", "\"\\u0052w\"", "\"R2\""])).to_string(),
                    3 => {
                        let o = self.r.next();
                        self.specs[if s < 2 { 2 } else { s }].json(o)
                    }
                    4 => pat_json(&rand_pat(self.r, &self.defs[s].orbits), &mut ord),
                    _ => tr_json(&rand_tr(self.r, &self.defs[s].orbits), &mut ord),
                };
                if k < 3 && self.r.chance(1, 4) {
                    // spaces and line ends inside the string
                    let w = *self.r.pick(&[" ", "  ", "\\n", "\\t", "\\u00a0", "\\r\\n", "\\u0000"]);
                    let i = *self.r.pick(&[1, t.len() - 1, t.len() - 1]);
                    t.insert_str(i, w);
                }
                if k < 2 && self.r.chance(1, 3) {
                    // escapes make the deserialiser use its scratch buffer
                    t = t.replace('R', "\\u0052").replace(' ', "\\u0020");
                }
                if self.r.chance(1, 4) {
                    t = format!(" {t}\n");
                }
                if self.r.chance(1, 6) {
                    let mut b = t.into_bytes();
                    if !b.is_empty() {
                        let i = self.r.below(b.len());
                        b[i] ^= 1 << self.r.below(7);
                    }
                    t = String::from_utf8_lossy(&b).into_owned();
                }
                let n = t.len();
                let p = self.io_plan(n);
                op(Code::DeFrom(k, t, p), vec![], None)
            }
            "send" => {
                let (a, t) = self.own(&|_| true)?;
                let A::R(i) = a else { return None };
                let k = self.r.below(self.slots.len());
                self.regs[i as usize] = None;
                self.slots[k] = Some(t);
                op(Code::Send(k as u8), vec![a], None)
            }
            "recv" => {
                if self.setup {
                    return None;
                }
                let k = self.r.below(self.slots.len());
                let t = self.slots[k]?;
                let i = self.dest(t);
                op(Code::Recv(k as u8), vec![], i)
            }
            "drop" => {
                let (a, _) = self.own(&|_| true)?;
                let A::R(i) = a else { return None };
                self.regs[i as usize] = None;
                op(Code::Drop, vec![a], None)
            }
            "droppuzzle" => {
                let (a, _) = self.own(&|t| matches!(t, Ty::Puzzle(_)))?;
                let A::R(i) = a else { return None };
                self.regs[i as usize] = None;
                op(Code::Drop, vec![a], None)
            }
            _ => panic!("unknown family {fam}"),
        }
    }
    pub fn ops(&mut self, n: usize, w: &Weights) -> Vec<Op> {
        let tot: u32 = w.w.values().sum();
        let mut v = vec![];
        let mut tries = 0;
        while v.len() < n && tries < n * 20 {
            tries += 1;
            let mut x = self.r.below(tot as usize) as u32;
            let mut fam = "";
            for (f, k) in &w.w {
                if x < *k {
                    fam = f;
                    break;
                }
                x -= k;
            }
            if let Some(o) = self.op(fam) {
                v.push(o);
            }
        }
        v
    }
}

fn sched(r: &mut Rng) -> Sched {
    let mut s = Sched { seed_sched: r.next(), seed_hash: r.next(), seed_fault: r.next(), ..Default::default() };
    match r.below(10) {
        0 => s.mode = 0,
        1..=6 => {
            s.mode = 1;
            s.p_hot = *r.pick(&[2_000, 10_000, 40_000, 150_000, 400_000]);
            s.plain_gap = *r.pick(&[0, 0, 2000, 20000, 200]);
        }
        _ => {
            s.mode = 2;
            s.pct_d = 1 + r.below(5) as u32;
            s.pct_len = *r.pick(&[300, 2000, 10000]);
        }
    }
    s.hash_mode = r.below(2) as u32;
    s.alloc_policy = *r.pick(&[0, 0, 1, 2]);
    s.poison = r.next() as u32 | 1;
    s.spurious = *r.pick(&[0, 0, 20_000, 200_000]);
    s.clockjump = *r.pick(&[0, 0, 500, 20_000]);
    s.wake_mode = r.below(2) as u32;
    s.realloc_move = r.below(2) as u32;
    s.step_cap = 60_000_000;
    s.fair_cap = 400_000;
    s
}
fn stall(r: &mut Rng, s: &mut Sched, nthreads: usize, first: usize) {
    if r.chance(1, 5) {
        s.stall_tid = 1 + (first + r.below(nthreads)) as u32;
    }
}

const ALL: &[(&str, u32)] = &[
    ("parse", 10), ("nested", 1), ("sq1", 3), ("badparse", 1), ("print", 4), ("invert", 4), ("clone", 4), ("eq", 3), ("build", 3), ("node", 1), ("ser", 2), ("moveset", 1),
    ("puzzle", 3), ("static", 3), ("defread", 2), ("default", 3), ("identity", 2), ("trans", 6), ("apply", 6), ("compose", 4), ("into", 3), ("todata", 2),
    ("fromdata", 2), ("fromjson", 2), ("get", 1), ("set", 2), ("hash", 1), ("hashset", 2), ("bufnew", 2), ("bufapply", 4), ("bufread", 2), ("bufeq", 1),
    ("send", 2), ("recv", 3), ("drop", 2), ("debug", 1),
];
fn adjust(base: &[(&'static str, u32)], over: &[(&'static str, u32)]) -> Weights {
    let mut w = Weights::new(base);
    for (k, v) in over {
        if *v == 0 {
            w.w.remove(k);
        } else {
            w.w.insert(k, *v);
        }
    }
    w
}
/// Swarm testing: concentrate a run on a few families, so that the same few
/// calls meet each other often.
fn swarm(r: &mut Rng, w: Weights) -> Weights {
    let mut w = w;
    let all: Vec<&'static str> = w.w.keys().cloned().collect();
    for f in &all {
        if r.chance(1, 3) && !matches!(*f, "puzzle" | "parse" | "default" | "trans" | "fromjson" | "printto" | "serto" | "defrom") {
            w.w.remove(f);
        }
    }
    let left: Vec<&'static str> = w.w.keys().cloned().collect();
    let tot: u32 = w.w.values().sum();
    for _ in 0..1 + r.below(3) {
        let f = *r.pick(&left);
        *w.w.get_mut(f).unwrap() += tot / 2;
    }
    w
}
struct Prog<'a> {
    setup_must: Vec<&'static str>,
    setup_n: usize,
    w_setup: Weights,
    threads: Vec<usize>,
    w: Weights,
    io: bool,
    specs: &'a [Spec],
    use_specs: Vec<usize>,
}
fn program(r: &mut Rng, p: Prog) -> (Vec<Op>, Vec<Vec<Op>>) {
    let defs: Vec<SpecDef> = p.specs.iter().map(|s| s.def()).collect();
    let keys: Vec<Vec<String>> = defs.iter().map(keys_of).collect();
    let mut g = G { r, specs: p.specs, defs: &defs, keys: &keys, use_specs: p.use_specs, shared: vec![], regs: vec![], setup: true, slots: vec![None; 3], io: p.io };
    let mut setup = vec![];
    for f in &p.setup_must {
        if let Some(o) = g.op(f) {
            setup.push(o);
        }
    }
    if p.setup_n > 0 {
        setup.append(&mut g.ops(p.setup_n, &p.w_setup));
    }
    g.shared = std::mem::take(&mut g.regs);
    g.setup = false;
    let mut ths = vec![];
    for n in p.threads {
        g.regs = vec![None; NREG];
        let o = g.ops(n, &p.w);
        ths.push(o);
    }
    (setup, ths)
}

pub fn plan(prop: &str, seed: u64, index: u64) -> Plan {
    let mut rng = Rng::new(seed ^ crate::rt::hash_str(prop), index);
    let r = &mut rng;
    let mut specs = base_specs();
    let mut pl = Plan { prop: prop.into(), index, specs: vec![], setup: vec![], threads: vec![], rounds: 1, balance: false, sched: sched(r) };
    let sc = Weights::new(ALL);
    let nosetup = [("bufnew", 0), ("bufapply", 0), ("bufread", 0), ("bufeq", 0), ("send", 0), ("recv", 0), ("drop", 0), ("into", 0), ("set", 0), ("debug", 0)];
    match prop {
        "C01" => {
            let nt = 2 + r.below(5);
            let use_specs = vec![0, 1, 2, 3];
            // first use in the threads; each thread then works with its puzzle
            let w0 = Weights::new(&[("static", 6), ("default", 2), ("trans", 3), ("parse", 2), ("identity", 1), ("defread", 1), ("apply", 2), ("clone", 1), ("sq1", 1), ("puzzle", 1)]);
            let (s, mut t) = program(r, Prog { setup_must: vec![], setup_n: 0, w_setup: w0.clone(), threads: vec![0; nt], w: w0.clone(), io: true, specs: &specs, use_specs: use_specs.clone() });
            // concentrate on one or two accessors so that first calls collide
            let focus: Vec<u8> = (0..1 + r.below(3)).map(|_| *r.pick(&[0u8, 1, 2, 2, 3, 4, 4, 5, 6, 6, 7])).collect();
            for th in t.iter_mut() {
                let n = *r.pick(&focus);
                let len = 2 + r.below(5);
                let (_, mut o) = program(r, Prog { setup_must: vec![], setup_n: 0, w_setup: w0.clone(), threads: vec![len], w: w0.clone(), io: true, specs: &specs, use_specs: use_specs.clone() });
                th.push(Op { c: Code::Static(n), a: vec![], d: Some(7) });
                if n < 4 {
                    th.push(Op { c: Code::DefSer, a: vec![A::R(7)], d: None });
                    th.push(Op { c: Code::DefaultPattern, a: vec![A::R(7)], d: Some(6) });
                }
                th.append(&mut o[0]);
            }
            (pl.setup, pl.threads) = (s, t);
            pl.sched.race = 1;
            stall(r, &mut pl.sched, nt, 0);
        }
        "C02" | "C07" | "C05" | "C03" | "C10" | "C15" | "C12" | "C13" | "C14" | "C17" => {
            let edge = matches!(prop, "C10" | "C12") || r.chance(1, 4);
            let nspec = 1 + r.below(2);
            for _ in 0..nspec {
                let d = rand_spec(r, edge);
                if r.chance(1, 2) || matches!(prop, "C03") {
                    specs.push(Spec::Custom(twin(r, &d)));
                }
                if prop == "C03" && r.chance(1, 2) || r.chance(1, 12) {
                    specs.push(Spec::Custom(reshape(r, &d)));
                }
                if r.chance(1, 6) {
                    specs.push(Spec::Custom(flawed(r, &d)));
                }
                // a default pattern that is not one
                if !d.orbits.is_empty() && r.chance(1, if prop == "C17" { 4 } else { 12 }) {
                    let mut t = d.clone();
                    crate::judge::damage_pat(r, &d.orbits, &mut t.default);
                    specs.push(Spec::Custom(t));
                }
                specs.push(Spec::Custom(d));
            }
            // same size, other shape: for updates that panic half-way
            if matches!(prop, "C12" | "C15") {
                let n = 3 + r.below(4) as u8;
                let k = 1 + r.below(2) as u8;
                for v in [vec![(n, 3u8)], vec![(k, 2), (n - k, 2)]] {
                    let orbits: Vec<OrbitSpec> = v.iter().enumerate().map(|(i, (p, o))| OrbitSpec { name: ["E", "C"][i].into(), pieces: *p, ori: *o }).collect();
                    let mut d = SpecDef { name: "p".into(), default: rand_pat(r, &orbits), ..Default::default() };
                    for f in ["R", "U"] {
                        d.moves.insert(f.into(), rand_tr(r, &orbits));
                    }
                    d.orbits = orbits;
                    specs.push(Spec::Custom(d));
                }
            }
            let mut use_specs: Vec<usize> = (NBASE..specs.len()).collect();
            if r.chance(1, 3) {
                use_specs.push(r.below(4));
            }
            let (nt, per): (usize, usize) = match prop {
                "C03" => (1, if r.chance(1, 4) { 120 } else { 40 }),
                "C05" => (1 + r.below(2), 20),
                "C07" => (1 + r.below(3), 12),
                "C10" => (1 + r.below(3), 12),
                "C12" => (1 + r.below(3), 26),
                "C13" | "C14" => (1 + r.below(2), 14),
                "C15" => (1 + r.below(3), 16),
                "C17" => (1 + r.below(3), 14),
                _ => (2 + r.below(5), 6 + r.below(10)),
            };
            let w = match prop {
                "C03" => adjust(ALL, &[("puzzle", 10), ("droppuzzle", 6), ("drop", 6), ("trans", 14), ("apply", 10), ("send", 0), ("recv", 0), ("badparse", 2), ("badset", 1), ("badget", 1), ("default", 5), ("fromjson", 4), ("burst", 3)]),
                "C05" => adjust(ALL, &[("hashset", 8), ("moveset", 8), ("nearset", 4), ("nearpats", 5), ("hash", 3), ("puzzle", 6), ("fromdata", 4), ("todata", 4), ("defread", 4), ("send", 0), ("recv", 0)]),
                "C07" => adjust(ALL, &[("badparse", 14), ("parse", 12), ("trans", 8), ("fromjson", 5)]),
                "C10" => adjust(ALL, &[("badparse", 3), ("drop", 8), ("send", 5), ("recv", 6), ("bufnew", 4), ("clone", 8), ("hashset", 4), ("fromjson", 5), ("puzzle", 5), ("badset", 2), ("droppuzzle", 2), ("nest", 5)]),
                "C12" => Weights::new(&[
                    ("puzzle", 2), ("parse", 3), ("default", 5), ("trans", 6), ("fromjson", 3), ("identity", 1), ("into", 10), ("bufnew", 7), ("bufapply", 24), ("bufread", 7), ("bufeq", 5), ("bufbad", 5), ("apply", 4), ("compose", 4), ("send", 3), ("recv", 5), ("drop", 1), ("eq", 2), ("set", 2),
                ]),
                "C13" => Weights::new(&[("parse", 8), ("sq1", 4), ("badtext", 4), ("invert", 4), ("build", 6), ("printto", 30), ("debugto", 6), ("failburst", 1), ("serto", 16), ("todata", 3), ("default", 2), ("trans", 2), ("puzzle", 2), ("print", 2)]),
                "C14" => Weights::new(&[("defrom", 30), ("parse", 3), ("failread", 1)]),
                "C15" => adjust(ALL, &[("printto", 6), ("debugto", 5), ("failburst", 2), ("debug", 3), ("serto", 6), ("defrom", 6), ("hashpanic", 6), ("badset", 12), ("badget", 6), ("bufbad", 4), ("bufnew", 4), ("bufapply", 6), ("set", 4), ("burst", 2), ("nest", 5)]),
                "C17" => adjust(ALL, &[("nest", 60)]),
                _ => adjust(ALL, &[("repeat", 2), ("nest", 2)]),
            };
            let w = if !matches!(prop, "C13" | "C14") && r.chance(1, 2) { swarm(r, w) } else { w };
            let ws = adjust(&sc.w.iter().map(|(k, v)| (*k, *v)).collect::<Vec<_>>(), &nosetup);
            let mut must = vec!["puzzle", "parse", "parse"];
            if prop == "C12" || prop == "C15" {
                must.extend(["puzzle", "puzzle", "default", "fromjson", "fromjson", "fromjson", "trans", "trans"]);
            } else {
                must.extend(["default", "trans"]);
            }
            if prop == "C14" {
                must.clear();
            }
            if prop == "C03" && r.chance(1, 2) {
                must.clear();
            }
            let setup_n = if prop == "C14" { 0 } else { r.below(6) };
            let threads = (0..nt).map(|_| per).collect();
            (pl.setup, pl.threads) = program(r, Prog { setup_must: must, setup_n, w_setup: ws, threads, w, io: prop != "C15", specs: &specs, use_specs });
            stall(r, &mut pl.sched, nt, 1);
            // a thread may do the rest of its work while it ends
            let often = match prop {
                "C17" => 2,
                "C02" | "C10" | "C15" => 12,
                _ => 0,
            };
            for t in pl.threads.iter_mut() {
                if often > 0 && r.chance(1, often) {
                    let k = t.len() - r.below(t.len().min(9) + 1);
                    let early = r.chance(2, 3);
                    t.insert(k, Op { c: Code::AtExit(early), a: vec![], d: None });
                }
            }
            match prop {
                "C02" => pl.sched.race = 1,
                "C10" => {
                    pl.sched.memcheck = 1;
                    pl.rounds = 3;
                    pl.balance = true;
                }
                "C15" | "C17" => {
                    pl.sched.memcheck = 1;
                    if prop == "C17" && r.chance(1, 2) {
                        pl.sched.race = 1;
                    }
                    if r.chance(1, if prop == "C15" { 2 } else { 4 }) {
                        pl.rounds = 3;
                        pl.balance = true;
                    }
                }
                "C07" => {
                    let n = 1 + r.below(20);
                    let mut io = vec![];
                    for _ in 0..n {
                        let k = match r.below(8) {
                            0 => 0,
                            1 => 1,
                            2 => 2,
                            3 => 3,
                            4 => 4,
                            5 => 5,
                            _ => 6,
                        };
                        io.push((k << 16) | r.below(30) as u32);
                    }
                    // the last entry repeats: never an endless interruption
                    io.push(*r.pick(&[0u32, 4 << 16, 5 << 16, 6 << 16, (1 << 16) | 3]));
                    pl.sched.io = io;
                }
                _ => {}
            }
            if matches!(prop, "C03" | "C05") && nt == 1 {
                pl.sched.mode = 0;
            }
            if prop == "C03" && r.chance(1, 4) {
                let (a, mut b) = (rand_spec(r, false), vec![]);
                b.push(twin(r, &a));
                b.push(reshape(r, &a));
                b.push(a);
                r.shuffle(&mut b);
                b.truncate(2 + r.below(2));
                let among: Vec<usize> = (0..b.len()).map(|i| specs.len() + i).collect();
                specs.extend(b.into_iter().map(Spec::Custom));
                let mut c = churn(r, &specs, &among);
                if r.chance(1, 3) {
                    c.append(&mut pl.threads[0]);
                    pl.threads[0] = c;
                } else {
                    pl.threads[0] = c;
                }
                if r.chance(2, 3) {
                    pl.sched.alloc_policy = 0;
                }
            }
        }
        "C11" => {
            let d = rand_spec(r, false);
            specs.push(Spec::Custom(d));
            let use_specs = vec![NBASE];
            let nt = if r.chance(1, 3) { 2 } else { 1 };
            let w = adjust(ALL, &[("send", 0), ("recv", 0), ("printto", 2), ("debugto", 2), ("serto", 2), ("defrom", 2), ("static", 1)]);
            let ws = adjust(ALL, &nosetup);
            let per = 3 + r.below(8);
            (pl.setup, pl.threads) =
                program(r, Prog { setup_must: vec!["puzzle", "parse", "default", "trans", "trans"], setup_n: 2, w_setup: ws, threads: vec![per; nt], w, io: true, specs: &specs, use_specs });
            pl.sched.memcheck = 0;
            if nt == 1 {
                pl.sched.mode = 0;
            }
        }
        "C04" | "C06" => crate::judge::plan_more(prop, r, &mut specs, &mut pl),
        _ => panic!("no generator for {prop}"),
    }
    if prop == "C15" {
        // panicking transfers only make sense with a caller that catches them
    }
    pl.specs = specs;
    pl
}
