//! Canonical values: what a call was given and what it returned, as plain
//! data that does not depend on the code under test.
use crate::spec::{pat_map, tr_map, PatMap, PatOrbit, TrMap, TrOrbit};
use cubing_core::alg::*;
use cubing_core::kpuzzle::*;
use serde::{Deserialize, Serialize};
use std::sync::Arc;

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Eq, Hash)]
pub struct CMove {
    pub f: String,
    pub p: Option<(u32, Option<u32>)>,
    pub a: i32,
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Eq, Hash)]
pub enum CNode {
    M(CMove),
    Pause,
    Nl,
    Comment(String),
    Group(Vec<CNode>, i32),
    Comm(Vec<CNode>, Vec<CNode>),
    Conj(Vec<CNode>, Vec<CNode>),
}
pub type CAlg = Vec<CNode>;

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Eq, Hash)]
pub enum CV {
    Unit,
    Empty,
    Bool(bool),
    Num(i64),
    Text(String),
    Err(String),
    Panic,
    Crash(String),
    Alg(CAlg),
    Move(CMove),
    QMove(String, Option<(u32, Option<u32>)>),
    /// spec index, name of the definition
    Puzzle(usize, String),
    Pat(usize, PatMap),
    Tr(usize, TrMap),
    PBuf(usize, PatMap),
    TBuf(usize, TrMap),
    PData(PatMap),
    TData(TrMap),
    Json(String),
    List(Vec<CV>),
}

fn nodes(a: &CAlg) -> usize {
    a.iter()
        .map(|n| match n {
            CNode::Group(a, _) => 1 + nodes(a),
            CNode::Comm(a, b) | CNode::Conj(a, b) => 1 + nodes(a) + nodes(b),
            _ => 1,
        })
        .sum()
}
impl CV {
    /// number of nodes of an alg
    pub fn weight(&self) -> usize {
        match self {
            CV::Alg(a) => nodes(a),
            _ => 1,
        }
    }
}
pub fn prefix_cv(p: &Option<MovePrefix>) -> Option<(u32, Option<u32>)> {
    match p {
        None => None,
        Some(MovePrefix::Layer(l)) => Some((l.layer, None)),
        Some(MovePrefix::Range(r)) => Some((r.outer_layer, Some(r.inner_layer))),
    }
}
pub fn move_cv(m: &Move) -> CMove {
    CMove { f: m.quantum.family.clone(), p: prefix_cv(&m.quantum.prefix), a: m.amount }
}
pub fn node_cv(n: &AlgNode) -> CNode {
    match n {
        AlgNode::MoveNode(m) => CNode::M(move_cv(m)),
        AlgNode::PauseNode(_) => CNode::Pause,
        AlgNode::NewlineNode(_) => CNode::Nl,
        AlgNode::LineCommentNode(c) => CNode::Comment(c.text().to_owned()),
        AlgNode::GroupingNode(g) => CNode::Group(alg_cv(&g.alg), g.amount),
        AlgNode::CommutatorNode(c) => CNode::Comm(alg_cv(&c.a), alg_cv(&c.b)),
        AlgNode::ConjugateNode(c) => CNode::Conj(alg_cv(&c.a), alg_cv(&c.b)),
    }
}
pub fn alg_cv(a: &Alg) -> CAlg {
    a.nodes.iter().map(node_cv).collect()
}
/// pieces and orientations through the element accessors
pub fn pat_cv(p: &KPattern) -> PatMap {
    let mut m = PatMap::new();
    for o in p.kpuzzle().orbit_info_iter() {
        let mut po = PatOrbit { omod: Some(vec![]), ..Default::default() };
        for i in 0..o.num_pieces {
            po.pieces.push(p.get_piece(o, i));
            let w = p.get_orientation_with_mod(o, i);
            po.ori.push(w.orientation);
            po.omod.as_mut().unwrap().push(w.orientation_mod);
        }
        m.insert(o.name.0.clone(), po);
    }
    m
}
pub fn tr_cv(t: &KTransformation) -> TrMap {
    let mut m = TrMap::new();
    for o in t.kpuzzle().orbit_info_iter() {
        let mut to = TrOrbit::default();
        for i in 0..o.num_pieces {
            to.perm.push(t.get_permutation_idx(o, i));
            to.delta.push(t.get_orientation_delta(o, i));
        }
        m.insert(o.name.0.clone(), to);
    }
    m
}
pub fn pdata_cv(d: &KPatternData) -> CV {
    CV::PData(pat_map(d))
}
pub fn tdata_cv(d: &KTransformationData) -> CV {
    CV::TData(tr_map(d))
}
/// JSON text as a value with sorted keys
pub fn json_norm(s: &str) -> String {
    match serde_json::from_str::<serde_json::Value>(s) {
        Ok(v) => v.to_string(),
        Err(_) => format!("NOT JSON: {s}"),
    }
}

// ---- the way back: build a value from its canonical form
pub fn mk_prefix(p: &Option<(u32, Option<u32>)>) -> Option<MovePrefix> {
    match p {
        None => None,
        Some((l, None)) => Some(MovePrefix::Layer(MoveLayer::new(*l))),
        Some((o, Some(i))) => Some(MovePrefix::Range(MoveRange::new(*o, *i))),
    }
}
pub fn mk_move(m: &CMove) -> Move {
    Move { quantum: Arc::new(QuantumMove::new(m.f.clone(), mk_prefix(&m.p))), amount: m.a }
}
pub fn mk_node(n: &CNode) -> AlgNode {
    match n {
        CNode::M(m) => mk_move(m).into(),
        CNode::Pause => Pause {}.into(),
        CNode::Nl => Newline {}.into(),
        CNode::Comment(t) => LineComment::try_new(t).unwrap().into(),
        CNode::Group(a, n) => Grouping { alg: Arc::new(mk_alg(a)), amount: *n }.into(),
        CNode::Comm(a, b) => Commutator { a: Arc::new(mk_alg(a)), b: Arc::new(mk_alg(b)) }.into(),
        CNode::Conj(a, b) => Conjugate { a: Arc::new(mk_alg(a)), b: Arc::new(mk_alg(b)) }.into(),
    }
}
pub fn mk_alg(a: &CAlg) -> Alg {
    Alg { nodes: a.iter().map(mk_node).collect() }
}
pub fn mk_pat(k: &KPuzzle, m: &PatMap) -> Option<KPattern> {
    KPattern::try_from_data(k, &crate::spec::pat_data(m)).ok()
}
pub fn mk_tr(k: &KPuzzle, m: &TrMap) -> Option<KTransformation> {
    let bij = m.values().all(|o| {
        let mut s = o.perm.clone();
        s.sort();
        s.iter().enumerate().all(|(i, x)| i == *x as usize)
    });
    if bij {
        return KTransformation::try_from_data(k, &crate::spec::tr_data(m)).ok();
    }
    let mut t = k.identity_transformation();
    for o in k.orbit_info_iter() {
        let x = m.get(&o.name.0)?;
        for i in 0..o.num_pieces {
            t.set_permutation_idx(o, i, x.perm[i as usize]);
            t.set_orientation_delta(o, i, x.delta[i as usize]);
        }
    }
    Some(t)
}
