//! Reference models and the checks that do not compare with a solo call:
//! definition verdicts (C04) and damaged stored data (C06).
use crate::cv::*;
use crate::exec::*;
use crate::gen::*;
use crate::ops::*;
use crate::rt::Rng;
use crate::run::*;
use crate::spec::*;
use crate::streams::short;
use std::collections::{BTreeMap, HashMap};

// ------------------------------------------------ reference reader for algs
struct P<'a> {
    b: &'a [u8],
    i: usize,
}
impl P<'_> {
    fn peek(&self) -> u8 {
        *self.b.get(self.i).unwrap_or(&0)
    }
    fn num(&mut self) -> Option<i64> {
        let s = self.i;
        while self.peek().is_ascii_digit() {
            self.i += 1;
        }
        if s == self.i {
            return None;
        }
        std::str::from_utf8(&self.b[s..self.i]).ok()?.parse().ok()
    }
    fn amount(&mut self) -> i32 {
        let n = self.num().unwrap_or(1);
        if self.peek() == b'\'' {
            self.i += 1;
            return -(n as i32);
        }
        n as i32
    }
    fn alg(&mut self) -> Option<CAlg> {
        let mut v = vec![];
        loop {
            while self.peek() == b' ' {
                self.i += 1;
            }
            match self.peek() {
                b'(' => {
                    self.i += 1;
                    let a = self.alg()?;
                    if self.peek() != b')' {
                        return None;
                    }
                    self.i += 1;
                    let n = self.amount();
                    v.push(CNode::Group(a, n));
                }
                b'[' => {
                    self.i += 1;
                    let a = self.alg()?;
                    let sep = self.peek();
                    if sep != b',' && sep != b':' {
                        return None;
                    }
                    self.i += 1;
                    let b = self.alg()?;
                    if self.peek() != b']' {
                        return None;
                    }
                    self.i += 1;
                    let n = self.amount();
                    let x = if sep == b',' { CNode::Comm(a, b) } else { CNode::Conj(a, b) };
                    v.push(if n == 1 { x } else { CNode::Group(vec![x], n) });
                }
                b'/' => {
                    self.i += 1;
                    v.push(CNode::M(CMove { f: "_SLASH_".into(), p: None, a: 1 }))
                }
                b'.' => {
                    self.i += 1;
                    v.push(CNode::Pause)
                }
                c if c.is_ascii_alphanumeric() || c == b'_' => {
                    let m = self.mv()?;
                    v.push(CNode::M(m))
                }
                _ => return Some(v),
            }
        }
    }
    fn mv(&mut self) -> Option<CMove> {
        let mut p = None;
        if self.peek().is_ascii_digit() {
            let a = self.num()? as u32;
            p = Some((a, None));
            if self.peek() == b'-' {
                self.i += 1;
                p = Some((a, Some(self.num()? as u32)));
            }
        }
        let s = self.i;
        while self.peek().is_ascii_alphabetic() || self.peek() == b'_' {
            self.i += 1;
        }
        if s == self.i {
            return None;
        }
        let f = std::str::from_utf8(&self.b[s..self.i]).ok()?.to_string();
        for (t, a) in [("++", 1), ("--", -1)] {
            if self.b[self.i..].starts_with(t.as_bytes()) {
                self.i += 2;
                return Some(CMove { f: f + "_PLUSPLUS_", p, a });
            }
        }
        let n = self.num();
        if let Some(n) = n {
            if self.peek() == b'+' || self.peek() == b'-' {
                let a = if self.peek() == b'+' { n } else { -n } as i32;
                self.i += 1;
                return Some(CMove { f: f + "_PLUS_", p, a });
            }
        }
        let mut a = n.unwrap_or(1) as i32;
        if self.peek() == b'\'' {
            self.i += 1;
            a = -a;
        }
        Some(CMove { f, p, a })
    }
}
/// Reads the subset of the notation the generator writes.
pub fn ref_alg(s: &str) -> Option<CAlg> {
    let mut p = P { b: s.as_bytes(), i: 0 };
    let a = p.alg()?;
    if p.i == s.len() {
        Some(a)
    } else {
        None
    }
}
pub fn ref_move(s: &str) -> Option<CMove> {
    match ref_alg(s)?.as_slice() {
        [CNode::M(m)] => Some(m.clone()),
        _ => None,
    }
}

// ------------------------------------------------ reference model of a puzzle
pub struct Model {
    def: SpecDef,
    direct: HashMap<CMove, TrMap>,
    derived: HashMap<CMove, CAlg>,
}
#[derive(Clone)]
enum Src {
    Direct(CMove),
    Derived(CMove),
}
impl Model {
    pub fn new(d: &SpecDef) -> Option<Model> {
        let mut m = Model { def: d.clone(), direct: HashMap::new(), derived: HashMap::new() };
        for (k, t) in &d.moves {
            m.direct.insert(ref_move(k)?, t.clone());
        }
        for (k, a) in d.derived.iter().flatten() {
            m.derived.insert(ref_move(k)?, ref_alg(a)?);
        }
        Some(m)
    }
    fn lookup(&self, m: &CMove) -> Option<(Src, i32)> {
        let one = CMove { a: 1, ..m.clone() };
        let inv = if m.f == "_SLASH_" && m.p.is_none() { m.clone() } else { CMove { a: m.a.wrapping_neg(), ..m.clone() } };
        for (k, rel) in [(one, m.a), (m.clone(), 1), (inv, -1)] {
            if self.direct.contains_key(&k) {
                return Some((Src::Direct(k), rel));
            }
            if self.derived.contains_key(&k) {
                return Some((Src::Derived(k), rel));
            }
        }
        None
    }
    fn moves_of(a: &CAlg, out: &mut Vec<CMove>) {
        for n in a {
            match n {
                CNode::M(m) => out.push(m.clone()),
                CNode::Group(a, _) => Self::moves_of(a, out),
                CNode::Comm(a, b) | CNode::Conj(a, b) => {
                    Self::moves_of(a, out);
                    Self::moves_of(b, out)
                }
                _ => {}
            }
        }
    }
    /// None: acceptable; Some(reason): must be rejected
    pub fn flaw(&self) -> Option<String> {
        for o in &self.def.orbits {
            if o.ori == 0 {
                return Some("an orbit with 0 orientations".into());
            }
            let sum: u32 = o.ori as u32 + (1..=o.ori as u32).filter(|d| o.ori as u32 % d == 0).sum::<u32>();
            if o.ori > 107 || sum > 256 {
                return Some("more orientations than the build supports".into());
            }
        }
        for (k, t) in &self.def.moves {
            if let Some(e) = tr_flaw(&self.def.orbits, t) {
                return Some(format!("move {k}: {e}"));
            }
        }
        let mut done: HashMap<CMove, bool> = HashMap::new();
        for k in self.derived.keys() {
            if let Some((Src::Derived(k2), _)) = self.lookup(k) {
                if let Some(e) = self.visit(&k2, &mut done) {
                    return Some(e);
                }
            }
        }
        None
    }
    fn visit(&self, k: &CMove, done: &mut HashMap<CMove, bool>) -> Option<String> {
        match done.get(k) {
            Some(true) => return None,
            Some(false) => return Some(format!("derived move {:?} needs itself", k)),
            None => {}
        }
        done.insert(k.clone(), false);
        let mut ms = vec![];
        Self::moves_of(&self.derived[k], &mut ms);
        for m in ms {
            match self.lookup(&m) {
                None => return Some(format!("derived move {:?} needs the unknown move {:?}", k, m)),
                Some((Src::Derived(x), _)) => {
                    if let Some(e) = self.visit(&x, done) {
                        return Some(e);
                    }
                }
                Some(_) => {}
            }
        }
        done.insert(k.clone(), true);
        None
    }
    fn identity(&self) -> TrMap {
        self.def.orbits.iter().map(|o| (o.name.clone(), TrOrbit { perm: (0..o.pieces).collect(), delta: vec![0; o.pieces as usize] })).collect()
    }
    fn mul(&self, a: &TrMap, b: &TrMap) -> TrMap {
        self.def
            .orbits
            .iter()
            .map(|o| {
                let (x, y) = (&a[&o.name], &b[&o.name]);
                let mut t = TrOrbit::default();
                for i in 0..o.pieces as usize {
                    let j = y.perm[i] as usize;
                    t.perm.push(x.perm[j]);
                    t.delta.push(((x.delta[j] as u32 + y.delta[i] as u32) % o.ori as u32) as u8);
                }
                (o.name.clone(), t)
            })
            .collect()
    }
    fn inv(&self, a: &TrMap) -> TrMap {
        self.def
            .orbits
            .iter()
            .map(|o| {
                let x = &a[&o.name];
                let mut t = TrOrbit { perm: vec![0; o.pieces as usize], delta: vec![0; o.pieces as usize] };
                for i in 0..o.pieces as usize {
                    let j = x.perm[i] as usize;
                    t.perm[j] = i as u8;
                    t.delta[j] = ((o.ori as u32 - x.delta[i] as u32) % o.ori as u32) as u8;
                }
                (o.name.clone(), t)
            })
            .collect()
    }
    fn pow(&self, t: &TrMap, n: i32) -> TrMap {
        let base = if n < 0 { self.inv(t) } else { t.clone() };
        let mut r = self.identity();
        for _ in 0..n.unsigned_abs() {
            r = self.mul(&r, &base);
        }
        r
    }
    pub fn eval_move(&self, m: &CMove, d: u32) -> Option<TrMap> {
        if d > 2000 {
            return None;
        }
        let (s, rel) = self.lookup(m)?;
        let t = match s {
            Src::Direct(k) => {
                let full = &self.direct[&k];
                self.def.orbits.iter().map(|o| (o.name.clone(), full.get(&o.name).cloned().unwrap_or_default())).collect()
            }
            Src::Derived(k) => self.eval(&self.derived[&k], d + 1)?,
        };
        Some(self.pow(&t, rel))
    }
    pub fn eval(&self, a: &CAlg, d: u32) -> Option<TrMap> {
        let mut t = self.identity();
        for n in a {
            let x = match n {
                CNode::M(m) => self.eval_move(m, d)?,
                CNode::Group(a, n) => {
                    let g = self.eval(a, d)?;
                    self.pow(&g, *n)
                }
                CNode::Comm(a, b) => {
                    let (a, b) = (self.eval(a, d)?, self.eval(b, d)?);
                    self.mul(&self.mul(&a, &b), &self.mul(&self.inv(&a), &self.inv(&b)))
                }
                CNode::Conj(a, b) => {
                    let (a, b) = (self.eval(a, d)?, self.eval(b, d)?);
                    self.mul(&self.mul(&a, &b), &self.inv(&a))
                }
                _ => continue,
            };
            t = self.mul(&t, &x);
        }
        Some(t)
    }
}
/// Data that leaves out an orbit without pieces may be accepted or refused.
fn names_all(orbits: &[OrbitSpec], has: impl Fn(&str) -> bool) -> bool {
    orbits.iter().all(|o| has(&o.name))
}
/// why this data cannot be a transformation of these orbits
pub fn tr_flaw(orbits: &[OrbitSpec], t: &TrMap) -> Option<String> {
    for o in orbits {
        let n = o.pieces as usize;
        let Some(x) = t.get(&o.name) else {
            if n == 0 {
                continue;
            }
            return Some(format!("orbit {} is missing", o.name));
        };
        if x.perm.len() != n || x.delta.len() != n {
            return Some(format!("orbit {} has entries for another number of pieces", o.name));
        }
        let mut s = x.perm.clone();
        s.sort();
        if s.iter().enumerate().any(|(i, v)| i != *v as usize) {
            return Some(format!("orbit {}: not a permutation", o.name));
        }
        if x.delta.iter().any(|d| *d >= o.ori) {
            return Some(format!("orbit {}: orientation out of range", o.name));
        }
    }
    None
}
pub fn pat_flaw(orbits: &[OrbitSpec], t: &PatMap) -> Option<String> {
    for o in orbits {
        let n = o.pieces as usize;
        let Some(x) = t.get(&o.name) else {
            if n == 0 {
                continue;
            }
            return Some(format!("orbit {} is missing", o.name));
        };
        if x.pieces.len() != n || x.ori.len() != n || x.omod.as_ref().is_some_and(|m| m.len() != n) {
            return Some(format!("orbit {} has entries for another number of pieces", o.name));
        }
        for i in 0..n {
            let m = x.omod.as_ref().map_or(0, |m| m[i]);
            if m != 0 && o.ori % m != 0 {
                return Some(format!("orbit {}: orientationMod {m}", o.name));
            }
            if x.ori[i] >= if m == 0 { o.ori } else { m } {
                return Some(format!("orbit {}: orientation out of range", o.name));
            }
        }
    }
    None
}

// ------------------------------------------------ C04: plans
/// Definitions whose derived moves form a random graph, with all kinds of keys.
fn c04_spec(r: &mut Rng) -> SpecDef {
    let edge = r.chance(1, 5);
    let orbits = if edge { rand_orbits(r, true) } else { (0..1 + r.below(2)).map(|i| OrbitSpec { name: ["E", "C"][i].into(), pieces: 2 + r.below(3) as u8, ori: 1 + r.below(3) as u8 }).collect() };
    let mut d = SpecDef { name: "d".into(), default: rand_pat(r, &orbits), ..Default::default() };
    d.orbits = orbits.clone();
    let fam = ["A", "B", "C", "D", "2E", "F", "G", "H"];
    let key = |r: &mut Rng, f: &str| match r.below(8) {
        0 => format!("{f}2"),
        1 => format!("{f}'"),
        2 => format!("{f}2'"),
        3 => format!("{f}3"),
        _ => f.to_string(),
    };
    let nd = 1 + r.below(3);
    let mut seen: Vec<CMove> = vec![];
    let mut pool: Vec<String> = vec![];
    for f in &fam[..nd] {
        for _ in 0..1 + r.below(5) / 4 {
            let k = key(r, f);
            let m = ref_move(&k).unwrap();
            if !seen.contains(&m) {
                seen.push(m);
                d.moves.insert(k.clone(), rand_tr(r, &orbits));
                pool.push(k);
            }
        }
    }
    let nv = r.below(6);
    let mut der = BTreeMap::new();
    let mut dk: Vec<String> = vec![];
    for j in 0..nv {
        let f = if r.chance(1, 6) { *r.pick(&fam[..nd]) } else { fam[nd + j % (8 - nd)] };
        let k = key(r, f);
        if !dk.contains(&k) && !dk.iter().any(|x| ref_move(x) == ref_move(&k)) {
            dk.push(k);
        }
    }
    // mostly acyclic: refer to earlier keys; sometimes to any key or a missing one
    let style = r.below(4);
    for (j, k) in dk.iter().enumerate() {
        let mut av: Vec<String> = pool.clone();
        match style {
            0 | 1 => av.extend(dk[..j].iter().cloned()),
            2 => av.extend(dk[j + 1..].iter().cloned()),
            _ => {
                av.extend(dk[..j].iter().cloned());
                if r.chance(1, 3) {
                    av.extend(dk[j..].iter().cloned());
                }
            }
        }
        let miss = r.chance(1, 25);
        let n = if r.chance(1, 12) { 0 } else { 1 + r.below(3) };
        let mut v = vec![];
        for _ in 0..n {
            let mv = |r: &mut Rng| {
                let k = if miss && r.chance(1, 3) { "Q".to_string() } else { r.pick(&av).clone() };
                let base = ref_move(&k).unwrap();
                let p = k.trim_end_matches('\'').trim_end_matches(|c: char| c.is_ascii_digit()).to_string();
                if base.a == 1 {
                    format!("{p}{}", r.pick(&["", "'", "2", "2'", "3", "0", "6", "0'"]))
                } else {
                    // the key itself or its inverse
                    let a = if r.chance(1, 2) { base.a } else { -base.a };
                    match a {
                        1 => p,
                        -1 => format!("{p}'"),
                        a if a < 0 => format!("{p}{}'", -a),
                        a => format!("{p}{a}"),
                    }
                }
            };
            v.push(match r.below(10) {
                0..=4 => mv(r),
                5 => format!("({} {}){}", mv(r), mv(r), r.pick(&["", "2", "'", "0", "0'", "3'"])),
                7 => format!("{}{}{}{}]{}", r.pick(&["[", "[", "[. "]), if r.chance(1, 2) { mv(r) } else { String::new() }, r.pick(&[": ", ", ", ":", " , "]), if r.chance(2, 3) { mv(r) } else { String::new() }, r.pick(&["", "", "2'"])),
                8 => format!("[({}){}: . {}]{}", mv(r), r.pick(&["", "0", "2'"]), mv(r), r.pick(&["", "0", "2", "'"])),
                9 => format!("(({})0 [{}, {}])'", mv(r), mv(r), mv(r)),
                6 => format!("[{}, {}]", mv(r), mv(r)),
                _ => format!("[{}: {}]", mv(r), mv(r)),
            });
        }
        der.insert(k.clone(), v.join(" "));
    }
    // a long chain of derived moves, sometimes closed to a ring or with a
    // missing end
    if r.chance(1, 12) {
        let n = *r.pick(&[12usize, 35, 70, 130, 130, 270, 520]);
        let name = |i: usize| format!("J{}{}", (b'a' + (i % 26) as u8) as char, (b'a' + (i / 26) as u8) as char);
        for i in 0..n {
            let next = if i + 1 < n {
                format!("{}{}", name(i + 1), r.pick(&["", "'"]))
            } else {
                match r.below(5) {
                    0 => name(r.below(n)),
                    1 => "Q".into(),
                    _ => r.pick(&pool).clone(),
                }
            };
            der.insert(name(i), if r.chance(1, 4) { format!("({next})") } else { next });
        }
    }
    // many derived moves side by side, used by one or two others
    if r.chance(1, 10) {
        let n = 8 + r.below(30);
        let name = |i: usize| format!("W{}{}", (b'a' + (i % 26) as u8) as char, (b'a' + (i / 26) as u8) as char);
        let bad = if r.chance(1, 2) { Some(r.below(n)) } else { None };
        for i in 0..n {
            let t = if bad == Some(i) { (*r.pick(&["Q", "Wz", "Wz'"])).to_string() } else if i > 0 && r.chance(1, 4) { name(r.below(i)) } else { r.pick(&pool).clone() };
            der.insert(name(i), t);
        }
        let mut all: Vec<String> = (0..n).map(|i| format!("{}{}", name(i), r.pick(&["", "'", "2"]))).collect();
        r.shuffle(&mut all);
        der.insert("Wz".into(), match r.below(3) {
            0 => format!("[{}: {}]", all[..n / 2].join(" "), all[n / 2..].join(" ")),
            1 => format!("({})'", all.join(" ")),
            _ => all.join(" "),
        });
        if r.chance(1, 2) {
            der.insert("Wy".into(), "Wz2'".into());
        }
    }
    // several amounts of one move, each defined through the others
    if r.chance(1, 5) {
        let f = *r.pick(&["Y", "Uw", "2-3Y", "Y_PLUS_"]);
        let mut am: Vec<i32> = vec![2, 3, 4, 6, -2, -3, -4, 7, 12];
        if r.chance(1, 4) {
            am.push(*r.pick(&[1, -1, 0]));
        }
        r.shuffle(&mut am);
        let mut use_: Vec<i32> = vec![];
        for a in am {
            if use_.len() < 2 + r.below(3) && !use_.contains(&a) {
                use_.push(a);
            }
        }
        let txt = |a: i32| -> String {
            if f == "Y_PLUS_" {
                return if a < 0 { format!("Y{}-", -a) } else { format!("Y{a}+") };
            }
            match a {
                1 => f.to_string(),
                -1 => format!("{f}'"),
                a if a < 0 => format!("{f}{}'", -a),
                a => format!("{f}{a}"),
            }
        };
        let acyclic = r.chance(1, 2);
        let keep = use_.clone();
        for (j, a) in keep.iter().enumerate() {
            let mut v = vec![];
            for _ in 0..1 + r.below(2) {
                let to: Vec<i32> = if acyclic { keep[..j].to_vec() } else { keep.clone() };
                v.push(if to.is_empty() || r.chance(1, 3) {
                    r.pick(&pool).clone()
                } else {
                    let b = *r.pick(&to);
                    txt(if r.chance(1, 3) { b.wrapping_neg() } else { b })
                });
            }
            if f != "Y_PLUS_" {
                der.insert(txt(*a), v.join(" "));
            } else {
                // a key is written with the family's inner name
                der.insert(format!("Y_PLUS_{}", if *a < 0 { format!("{}'", -a) } else { a.to_string() }), v.join(" "));
            }
        }
        if r.chance(1, 3) {
            der.insert("Yw".into(), txt(*r.pick(&keep)));
        }
    }
    if !der.is_empty() || r.chance(1, 2) {
        d.derived = Some(der);
    }
    if r.chance(1, 7) {
        extra_orbits(r, &mut d);
    }
    // damaged definitions
    if r.chance(1, 6) {
        match r.below(8) {
            0 => {
                let bad = *r.pick(&[0u8, 108, 72, 96, 255, 84]);
                if r.chance(1, 2) {
                    // nothing else is wrong with the orbit
                    let n = r.below(3) as u8;
                    for t in d.moves.values_mut() {
                        t.insert("W".into(), TrOrbit { perm: (0..n).collect(), delta: vec![0; n as usize] });
                    }
                    d.default.insert("W".into(), PatOrbit { pieces: vec![0; n as usize], ori: vec![0; n as usize], omod: None });
                    d.orbits.insert(r.below(orbits.len() + 1), OrbitSpec { name: "W".into(), pieces: n, ori: bad });
                } else if !d.orbits.is_empty() {
                    let i = r.below(d.orbits.len());
                    d.orbits[i].ori = bad;
                }
            }
            1 => {
                if let Some(o) = d.orbits.first_mut() {
                    o.pieces = o.pieces.wrapping_add(1);
                }
            }
            _ => {
                let keys: Vec<String> = d.moves.keys().cloned().collect();
                let k = r.pick(&keys).clone();
                let t = d.moves.get_mut(&k).unwrap();
                damage_tr(r, &orbits, t);
            }
        }
    }
    d
}
pub fn damage_tr(r: &mut Rng, orbits: &[OrbitSpec], t: &mut TrMap) {
    if orbits.is_empty() {
        return;
    }
    let o = r.pick(orbits);
    let Some(x) = t.get_mut(&o.name) else { return };
    match if o.pieces > 30 && r.chance(1, 2) { 7 } else { r.below(11) } {
        // two entries exchange one bit: all sums stay
        9 | 10 if x.perm.len() > 2 => {
            let (i, j) = (r.below(x.perm.len()), r.below(x.perm.len()));
            let bits: Vec<u8> = (0..8u8).filter(|k| (x.perm[i] ^ x.perm[j]) >> k & 1 == 1).collect();
            if !bits.is_empty() {
                let k = *r.pick(&bits);
                x.perm[i] ^= 1 << k;
                x.perm[j] ^= 1 << k;
            }
        }
        // one piece twice, another not at all
        7 | 8 if x.perm.len() > 1 => {
            let n = x.perm.len();
            let i = if r.chance(1, 2) { n - 1 - r.below(n.min(4)) } else { r.below(n) };
            let j = if r.chance(1, 2) { n - 1 - r.below(n.min(4)) } else { r.below(n) };
            x.perm[i] = x.perm[j];
        }
        0 => {
            t.remove(&o.name);
        }
        1 => {
            x.perm.pop();
        }
        2 => {
            x.delta.pop();
        }
        3 => x.perm.push(0),
        4 if !x.delta.is_empty() => {
            let i = r.below(x.delta.len());
            x.delta[i] = o.ori.wrapping_add(r.below(4) as u8);
        }
        5 if !x.perm.is_empty() => {
            let i = r.below(x.perm.len());
            x.perm[i] = *r.pick(&[o.pieces, 255, 0, 1, 7]);
        }
        _ if !x.perm.is_empty() => {
            let i = r.below(x.perm.len());
            x.perm[i] ^= 1 << r.below(8);
        }
        _ => {}
    }
}
pub fn damage_pat(r: &mut Rng, orbits: &[OrbitSpec], t: &mut PatMap) {
    if orbits.is_empty() {
        return;
    }
    let o = r.pick(orbits);
    let Some(x) = t.get_mut(&o.name) else { return };
    match r.below(8) {
        0 => {
            t.remove(&o.name);
        }
        1 => {
            x.pieces.pop();
        }
        2 => {
            x.ori.pop();
        }
        3 => x.pieces.push(0),
        4 => {
            let n = o.pieces as usize + r.below(3);
            x.omod = Some(vec![*r.pick(&[0u8, 1, 2, 3, 5, 255]); n.saturating_sub(1)]);
        }
        5 if !x.ori.is_empty() => {
            let i = r.below(x.ori.len());
            x.ori[i] = o.ori.wrapping_add(r.below(4) as u8);
        }
        6 if !x.pieces.is_empty() => {
            let i = r.below(x.pieces.len());
            x.pieces[i] = r.below(256) as u8;
        }
        _ if !x.ori.is_empty() => {
            let i = r.below(x.ori.len());
            x.ori[i] ^= 1 << r.below(8);
            if r.chance(1, 2) {
                x.omod = Some((0..o.pieces).map(|_| *r.pick(&[0u8, 1, 2, 3, 4])).collect());
            }
        }
        _ => {}
    }
}
pub fn damage_bytes(r: &mut Rng, t: &str, other: &str) -> Vec<u8> {
    let mut b = t.as_bytes().to_vec();
    for _ in 0..1 + r.below(2) {
        if b.is_empty() {
            break;
        }
        let i = r.below(b.len());
        match r.below(8) {
            0 => b.truncate(i),
            1 => b[i] ^= 1 << r.below(8),
            2 => {
                // a range of bytes written twice
                let n = (1 + r.below(24)).min(b.len() - i);
                let seg = b[i..i + n].to_vec();
                for (k, x) in seg.into_iter().enumerate() {
                    b.insert(i + n + k, x);
                }
            }
            3 => {
                // a range of bytes lost
                let n = (1 + r.below(16)).min(b.len() - i);
                b.drain(i..i + n);
            }
            4 => {
                // torn: the rest comes from another version
                b.truncate(i);
                let o = other.as_bytes();
                if i < o.len() {
                    b.extend_from_slice(&o[i..]);
                }
            }
            5 => {
                let n = (1 + r.below(8)).min(b.len() - i);
                for x in &mut b[i..i + n] {
                    *x = 0;
                }
            }
            _ => {
                // another digit
                let ds: Vec<usize> = (0..b.len()).filter(|k| b[*k].is_ascii_digit()).collect();
                if !ds.is_empty() {
                    let k = *r.pick(&ds);
                    match r.below(4) {
                        0 => b.insert(k, b'0' + r.below(10) as u8),
                        1 => b[k] = b'-',
                        _ => b[k] = b'0' + r.below(10) as u8,
                    }
                }
            }
        }
    }
    b
}
/// bytes as a text where they are one
fn from_bytes(pat: bool, b: Vec<u8>) -> Code {
    match (pat, String::from_utf8(b)) {
        (true, Ok(t)) => Code::PatFromJson(t),
        (true, Err(e)) => Code::PatFromBytes(e.into_bytes()),
        (false, Ok(t)) => Code::TrFromJson(t),
        (false, Err(e)) => Code::TrFromBytes(e.into_bytes()),
    }
}

pub fn plan_more(prop: &str, r: &mut Rng, specs: &mut Vec<Spec>, pl: &mut Plan) {
    let mk = |c: Code, a: Vec<A>, d: Option<u8>| Op { c, a, d };
    if prop == "C04" {
        let d = c04_spec(r);
        let s = specs.len();
        specs.push(Spec::Custom(d.clone()));
        let mut texts: Vec<String> = vec![];
        let mut keys: Vec<String> = d.moves.keys().cloned().collect();
        keys.extend(d.derived.iter().flat_map(|m| m.keys().cloned()));
        for k in &keys {
            let p = k.trim_end_matches('\'').trim_end_matches(|c: char| c.is_ascii_digit()).to_string();
            texts.push(k.clone());
            texts.push(if let Some(b) = k.strip_suffix('\'') { b.to_string() } else { format!("{k}'") });
            texts.push(format!("{p}{}", r.pick(&["2", "2'", "3", "'", "5", "0", ""])));
        }
        let nt = 1 + r.below(2);
        for _ in 0..nt {
            let mut v = vec![];
            for k in 0..2 + r.below(3) {
                v.push(mk(Code::NewPuzzle(s, r.below(3) as u8, if k == 0 { 0 } else { r.next() }), vec![], Some(0)));
                r.shuffle(&mut texts);
                for t in texts.iter().take(if k == 0 { 40 } else { 12 }) {
                    v.push(mk(Code::ParseMove(t.clone()), vec![], Some(1)));
                    v.push(mk(Code::TransMove, vec![A::R(0), A::R(1)], Some(2)));
                }
            }
            pl.threads.push(v);
        }
        pl.sched.hash_mode = 1;
        if nt == 1 {
            pl.sched.mode = 0;
        }
        pl.sched.step_cap = 30_000_000;
        return;
    }
    // C06
    let d = if r.chance(1, 6) {
        let b = r.below(2);
        specs[b].def()
    } else {
        rand_spec(r, true)
    };
    let s = specs.len();
    specs.push(Spec::Custom(d.clone()));
    let mut v = vec![mk(Code::NewPuzzle(s, 0, 0), vec![], Some(0)), mk(Code::Identity, vec![A::R(0)], Some(1)), mk(Code::DefaultPattern, vec![A::R(0)], Some(2))];
    let mut ord = Some(r.fork(9));
    for _ in 0..2 + r.below(5) {
        let intact = r.chance(1, 6);
        if r.chance(1, 2) {
            let mut p = rand_pat(r, &d.orbits);
            if r.chance(1, 6) {
                p.insert((*r.pick(&["X", "extra", "EC"])).into(), PatOrbit { pieces: vec![0, 200], ori: vec![0], omod: None });
            }
            let other = pat_json(&rand_pat(r, &d.orbits), &mut ord);
            if r.chance(1, 2) {
                let how = r.below(2);
                if !intact {
                    damage_pat(r, &d.orbits, &mut p);
                }
                if how == 0 {
                    v.push(mk(Code::PDataLit(p), vec![], Some(3)));
                    v.push(mk(Code::FromPData, vec![A::R(0), A::R(3)], Some(4)));
                } else {
                    v.push(mk(Code::PatFromJson(pat_json(&p, &mut ord)), vec![A::R(0)], Some(4)));
                }
            } else {
                let mut t = pat_json(&p, &mut ord).into_bytes();
                if !intact {
                    let s = String::from_utf8(t).unwrap();
                    t = damage_bytes(r, &s, &other);
                    if r.chance(1, 4) {
                        // a byte of a name lost its meaning
                        let q: Vec<usize> = (0..t.len()).filter(|i| t[*i].is_ascii_alphabetic()).collect();
                        if !q.is_empty() {
                            let i = *r.pick(&q);
                            match r.below(4) {
                                0 => t[i] |= 0x80,
                                1 => t.insert(i, 0xff),
                                2 => t.splice(i..i + 1, [0xed, 0xa0, 0x80]).for_each(drop),
                                _ => t.splice(i..i, "\u{e9}".bytes()).for_each(drop),
                            }
                        }
                    }
                }
                v.push(mk(from_bytes(true, t), vec![A::R(0)], Some(4)));
            }
            // use whatever was loaded
            v.push(mk(Code::ToData, vec![A::R(4)], Some(5)));
            v.push(mk(Code::ApplyTrans, vec![A::R(4), A::R(1)], Some(6)));
            v.push(mk(Code::Debug, vec![A::R(4)], None));
            v.push(mk(Code::HashVal, vec![A::R(4)], None));
            v.push(mk(Code::Eq, vec![A::R(4), A::R(2)], None));
            v.push(mk(Code::BufNew, vec![A::R(4)], Some(5)));
            v.push(mk(Code::BufApply, vec![A::R(5), A::R(1)], None));
            v.push(mk(Code::Drop, vec![A::R(4)], None));
        } else {
            let mut p = rand_tr(r, &d.orbits);
            if r.chance(1, 6) {
                p.insert((*r.pick(&["X", "extra", "EC"])).into(), TrOrbit { perm: vec![0, 200], delta: vec![0] });
            }
            let other = tr_json(&rand_tr(r, &d.orbits), &mut ord);
            if r.chance(1, 2) {
                let how = r.below(2);
                if !intact {
                    damage_tr(r, &d.orbits, &mut p);
                }
                if how == 0 {
                    v.push(mk(Code::TDataLit(p), vec![], Some(3)));
                    v.push(mk(Code::FromTData, vec![A::R(0), A::R(3)], Some(4)));
                } else {
                    v.push(mk(Code::TrFromJson(tr_json(&p, &mut ord)), vec![A::R(0)], Some(4)));
                }
            } else {
                let mut t = tr_json(&p, &mut ord).into_bytes();
                if !intact {
                    let s = String::from_utf8(t).unwrap();
                    t = damage_bytes(r, &s, &other);
                    if r.chance(1, 4) {
                        // a byte of a name lost its meaning
                        let q: Vec<usize> = (0..t.len()).filter(|i| t[*i].is_ascii_alphabetic()).collect();
                        if !q.is_empty() {
                            let i = *r.pick(&q);
                            match r.below(4) {
                                0 => t[i] |= 0x80,
                                1 => t.insert(i, 0xff),
                                2 => t.splice(i..i + 1, [0xed, 0xa0, 0x80]).for_each(drop),
                                _ => t.splice(i..i, "\u{e9}".bytes()).for_each(drop),
                            }
                        }
                    }
                }
                v.push(mk(from_bytes(false, t), vec![A::R(0)], Some(4)));
            }
            v.push(mk(Code::ToData, vec![A::R(4)], Some(5)));
            v.push(mk(Code::Invert, vec![A::R(4)], Some(6)));
            v.push(mk(Code::Compose, vec![A::R(4), A::R(6)], Some(7)));
            v.push(mk(Code::Compose, vec![A::R(4), A::R(4)], Some(7)));
            v.push(mk(Code::ApplyTrans, vec![A::R(2), A::R(4)], Some(6)));
            v.push(mk(Code::Debug, vec![A::R(4)], None));
            v.push(mk(Code::Drop, vec![A::R(4)], None));
        }
    }
    // sometimes the damaged loads run on two threads at once
    if r.chance(1, 4) {
        pl.threads.push(v.clone());
    }
    pl.threads.push(v);
    if pl.threads.len() == 1 {
        pl.sched.mode = 0;
    }
    pl.sched.memcheck = 1;
}

// ------------------------------------------------ verdicts
fn bad(kind: &str, r: &Rec, msg: String) -> Verdict {
    Verdict { kind: kind.into(), msg: format!("thread {} op {}: {msg}", r.t, r.i), at: format!("{}:{}", r.t, r.i) }
}
fn code<'a>(plan: &'a Plan, r: &Rec) -> &'a Code {
    if r.t == SETUP {
        &plan.setup[r.i as usize].c
    } else {
        &plan.threads[r.t as usize][r.i as usize].c
    }
}
pub fn judge_c04(plan: &Plan, recs: &[Rec]) -> Verdict {
    let mut models: HashMap<usize, Option<Model>> = HashMap::new();
    let mut cache: HashMap<(usize, CMove), Option<TrMap>> = HashMap::new();
    let mut seen: HashMap<usize, bool> = HashMap::new();
    let said = |ok: bool| if ok { "accepted" } else { "rejected" };
    for r in recs {
        match code(plan, r) {
            Code::NewPuzzle(s, ..) => {
                let Some(m) = models.entry(*s).or_insert_with(|| Model::new(&plan.specs[*s].def())) else { continue };
                let flaw = m.flaw();
                let ok = matches!(r.r, CV::Puzzle(..));
                let first = *seen.entry(*s).or_insert(ok);
                if r.r != CV::Panic && first != ok {
                    return bad("verdict-varies", r, format!("the same definition was {} before and is now {}", said(first), said(ok)));
                }
                match (&r.r, flaw) {
                    (CV::Puzzle(..), Some(f)) => return bad("accepted-flawed", r, format!("the definition was accepted although it has {f}")),
                    (CV::Err(_), None) if m.def.moves.values().all(|t| t.len() == m.def.orbits.len() && names_all(&m.def.orbits, |o| t.contains_key(o))) && m.def.default.len() == m.def.orbits.len() => return bad("rejected-sound", r, "a sound definition was rejected".into()),
                    (CV::Panic, _) => return bad("panic", r, "construction panicked".into()),
                    _ => {}
                }
            }
            Code::TransMove => {
                let (CV::Puzzle(s, _), CV::Move(mv)) = (&r.a[0], &r.a[1]) else { continue };
                let Some(m) = models.entry(*s).or_insert_with(|| Model::new(&plan.specs[*s].def())) else { continue };
                let want = cache.entry((*s, mv.clone())).or_insert_with(|| m.eval_move(mv, 0)).clone();
                let want = match want {
                    Some(t) => CV::Tr(*s, t),
                    None => CV::Err("InvalidAlg/InvalidMove".into()),
                };
                if r.r != want && !matches!((&r.r, &want), (CV::Err(e), CV::Err(w)) if e.starts_with(w.as_str())) {
                    return bad(if r.r == CV::Panic { "panic" } else { "move-value" }, r, format!("evaluating {:?} gave {} instead of {}", mv, short(&r.r), short(&want)));
                }
            }
            _ => {}
        }
    }
    Verdict::default()
}
fn u8s(v: &serde_json::Value) -> Option<Vec<u8>> {
    v.as_array()?.iter().map(|x| x.as_u64().and_then(|n| u8::try_from(n).ok())).collect()
}
/// what the bytes describe, for the orbits of the puzzle
fn ref_pat(t: &str) -> Option<PatMap> {
    let v: serde_json::Value = serde_json::from_str(t).ok()?;
    let mut m = PatMap::new();
    for (k, o) in v.as_object()? {
        // entries of other shapes than expected cannot be loaded faithfully
        let om = match o.get("orientationMod") {
            None | Some(serde_json::Value::Null) => None,
            Some(x) => Some(u8s(x)?),
        };
        m.insert(k.clone(), PatOrbit { pieces: u8s(o.get("pieces")?)?, ori: u8s(o.get("orientation")?)?, omod: om });
    }
    Some(m)
}
fn ref_tr(t: &str) -> Option<TrMap> {
    let v: serde_json::Value = serde_json::from_str(t).ok()?;
    let mut m = TrMap::new();
    for (k, o) in v.as_object()? {
        m.insert(k.clone(), TrOrbit { perm: u8s(o.get("permutation")?)?, delta: u8s(o.get("orientationDelta")?)? });
    }
    Some(m)
}
/// does some orbit have a field that no reader asks for?
fn unread_text(b: &[u8]) -> bool {
    let t = String::from_utf8_lossy(b);
    let Ok(v) = serde_json::from_str::<serde_json::Value>(&t) else { return false };
    let known = ["pieces", "orientation", "orientationMod", "permutation", "orientationDelta"];
    v.as_object().is_some_and(|o| o.values().any(|x| x.as_object().is_some_and(|y| y.iter().any(|(k, z)| !known.contains(&k.as_str()) && z.to_string().contains('\u{fffd}')))))
}
pub fn judge_c06(plan: &Plan, recs: &[Rec], stats: &mut [u64; 4]) -> Verdict {
    for r in recs {
        let c = code(plan, r);
        let CV::Puzzle(s, _) = r.a.first().cloned().unwrap_or(CV::Unit) else {
            if r.r == CV::Panic {
                return bad("panic", r, format!("{:?} panicked on {}", trunc(&format!("{:?}", c)), trunc(&format!("{:?}", r.a))));
            }
            continue;
        };
        let orbits = plan.specs[s].def().orbits;
        let (patd, trd) = match c {
            Code::PatFromJson(t) => (Some(ref_pat(t)), None),
            Code::TrFromJson(t) => (None, Some(ref_tr(t))),
            // not UTF-8: only inside text that nobody reads may this go unnoticed
            Code::PatFromBytes(b) if r.r == CV::Panic || !unread_text(b) => (Some(None), None),
            Code::TrFromBytes(b) if r.r == CV::Panic || !unread_text(b) => (None, Some(None)),
            Code::PatFromBytes(_) | Code::TrFromBytes(_) => continue,
            Code::FromPData => match &r.a[1] {
                CV::PData(m) => (Some(Some(m.clone())), None),
                _ => continue,
            },
            Code::FromTData => match &r.a[1] {
                CV::TData(m) => (None, Some(Some(m.clone()))),
                _ => continue,
            },
            _ => {
                if r.r == CV::Panic {
                    return bad("panic", r, format!("{:?} panicked", trunc(&format!("{:?}", c))));
                }
                continue;
            }
        };
        if r.r == CV::Panic {
            return bad("panic", r, format!("loading panicked: {}", trunc(&format!("{:?}", c))));
        }
        let loaded = !matches!(r.r, CV::Err(_));
        stats[loaded as usize] += 1;
        if let Some(p) = patd {
            let flaw = match &p {
                None => Some("bytes that are not pattern data".to_string()),
                Some(p) => pat_flaw(&orbits, p),
            };
            match (flaw, &r.r) {
                (Some(f), CV::Pat(..)) => return bad("accepted-damaged", r, format!("loading succeeded on {f}: {}", trunc(&format!("{:?} {:?}", c, r.a.get(1))))),
                (None, CV::Err(_)) => {
                    // extra orbits or duplicated fields may be refused; intact data may not
                    let p = p.unwrap();
                    if p.len() == orbits.len() && names_all(&orbits, |o| p.contains_key(o)) && (!matches!(c, Code::PatFromJson(_)) || intact_json(c)) {
                        return bad("rejected-intact", r, format!("intact data was refused: {}", trunc(&format!("{:?} {:?}", c, p))));
                    }
                }
                (None, CV::Pat(_, got)) => {
                    let p = p.unwrap();
                    for o in &orbits {
                        if o.pieces == 0 {
                            continue;
                        }
                        let (w, g) = (&p[&o.name], &got[&o.name]);
                        let om = w.omod.clone().unwrap_or(vec![0; o.pieces as usize]);
                        if w.pieces != g.pieces || w.ori != g.ori || Some(om) != g.omod {
                            return bad("loaded-differs", r, format!("orbit {} describes {:?} but was loaded as {:?}", o.name, w, g));
                        }
                    }
                }
                _ => {}
            }
        }
        if let Some(p) = trd {
            let flaw = match &p {
                None => Some("bytes that are not transformation data".to_string()),
                Some(p) => tr_flaw(&orbits, p),
            };
            match (flaw, &r.r) {
                (Some(f), CV::Tr(..)) => return bad("accepted-damaged", r, format!("loading succeeded on {f}: {}", trunc(&format!("{:?} {:?}", c, r.a.get(1))))),
                (None, CV::Err(_)) => {
                    let p = p.unwrap();
                    if p.len() == orbits.len() && names_all(&orbits, |o| p.contains_key(o)) && (!matches!(c, Code::TrFromJson(_)) || intact_json(c)) {
                        return bad("rejected-intact", r, format!("intact data was refused: {}", trunc(&format!("{:?} {:?}", c, p))));
                    }
                }
                (None, CV::Tr(_, got)) => {
                    let p = p.unwrap();
                    for o in &orbits {
                        if o.pieces > 0 && p[&o.name] != got[&o.name] {
                            return bad("loaded-differs", r, format!("orbit {} describes {:?} but was loaded as {:?}", o.name, p[&o.name], got[&o.name]));
                        }
                    }
                }
                _ => {}
            }
        }
    }
    Verdict::default()
}
/// the text is exactly what a writer produces: no repeated or unknown names
fn intact_json(c: &Code) -> bool {
    let (Code::PatFromJson(t) | Code::TrFromJson(t)) = c else { return true };
    let Ok(v) = serde_json::from_str::<serde_json::Value>(t) else { return false };
    let n: usize = v.as_object().map_or(0, |o| o.len() + o.values().map(|x| x.as_object().map_or(0, |y| y.len())).sum::<usize>());
    t.matches(':').count() == n && v.as_object().is_some_and(|o| o.values().all(|x| x.as_object().is_some_and(|y| y.keys().all(|k| matches!(k.as_str(), "pieces" | "orientation" | "orientationMod" | "permutation" | "orientationDelta")))))
}
