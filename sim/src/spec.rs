//! Puzzle definitions as the harness knows them: plain data, independent of
//! the code under test.
use crate::rt::Rng;
use cubing_core::kpuzzle::{
    KPatternData, KPatternOrbitData, KPuzzleDefinition, KPuzzleOrbitDefinition, KPuzzleOrbitName,
    KTransformationData, KTransformationOrbitData,
};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashMap};

pub const JSON_2X2X2: &str = include_str!("/repo/cubing_core/src/puzzles/2x2x2.kpuzzle.json");
pub const JSON_3X3X3: &str = include_str!("/repo/cubing_core/src/puzzles/3x3x3.kpuzzle.json");

pub const JSON_MA: &str = include_str!("../data/ma.kpuzzle.json");
pub const JSON_MB: &str = include_str!("../data/mb.kpuzzle.json");

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct OrbitSpec {
    pub name: String,
    pub pieces: u8,
    pub ori: u8,
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord, Default)]
pub struct PatOrbit {
    pub pieces: Vec<u8>,
    pub ori: Vec<u8>,
    pub omod: Option<Vec<u8>>,
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord, Default)]
pub struct TrOrbit {
    pub perm: Vec<u8>,
    pub delta: Vec<u8>,
}
pub type PatMap = BTreeMap<String, PatOrbit>;
pub type TrMap = BTreeMap<String, TrOrbit>;

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct SpecDef {
    pub name: String,
    pub orbits: Vec<OrbitSpec>,
    pub default: PatMap,
    pub moves: BTreeMap<String, TrMap>,
    pub derived: Option<BTreeMap<String, String>>,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Eq, Hash)]
pub enum Spec {
    /// the built-in 2x2x2 / 3x3x3
    Builtin(u8),
    Custom(SpecDef),
}

fn q(s: &str) -> String {
    serde_json::to_string(s).unwrap()
}
fn nums(v: &[u8]) -> String {
    format!("[{}]", v.iter().map(|n| n.to_string()).collect::<Vec<_>>().join(", "))
}
/// Write `{k: v, …}` with the keys in the order chosen by `rng` (None: sorted).
fn obj(items: Vec<(String, String)>, rng: &mut Option<Rng>) -> String {
    let mut items = items;
    if let Some(r) = rng {
        r.shuffle(&mut items);
    }
    format!("{{{}}}", items.iter().map(|(k, v)| format!("{}: {}", q(k), v)).collect::<Vec<_>>().join(", "))
}
pub fn pat_json(p: &PatMap, rng: &mut Option<Rng>) -> String {
    let mut v = vec![];
    for (k, o) in p {
        let mut f = vec![("pieces".to_string(), nums(&o.pieces)), ("orientation".to_string(), nums(&o.ori))];
        if let Some(m) = &o.omod {
            f.push(("orientationMod".to_string(), nums(m)));
        }
        v.push((k.clone(), obj(f, rng)));
    }
    obj(v, rng)
}
pub fn tr_json(p: &TrMap, rng: &mut Option<Rng>) -> String {
    let mut v = vec![];
    for (k, o) in p {
        let f = vec![("permutation".to_string(), nums(&o.perm)), ("orientationDelta".to_string(), nums(&o.delta))];
        v.push((k.clone(), obj(f, rng)));
    }
    obj(v, rng)
}
impl SpecDef {
    pub fn json(&self, order: u64) -> String {
        let mut rng = if order == 0 { None } else { Some(Rng::new(order, 0x15)) };
        let orbits = format!(
            "[{}]",
            self.orbits.iter().map(|o| format!("{{\"orbitName\": {}, \"numPieces\": {}, \"numOrientations\": {}}}", q(&o.name), o.pieces, o.ori)).collect::<Vec<_>>().join(", ")
        );
        let default = pat_json(&self.default, &mut rng);
        let moves = {
            let v = self.moves.iter().map(|(k, t)| (k.clone(), tr_json(t, &mut rng))).collect();
            obj(v, &mut rng)
        };
        let mut top = vec![
            ("name".to_string(), q(&self.name)),
            ("orbits".to_string(), orbits),
            ("defaultPattern".to_string(), default),
            ("moves".to_string(), moves),
        ];
        if let Some(d) = &self.derived {
            let v = d.iter().map(|(k, t)| (k.clone(), q(t))).collect();
            top.push(("derivedMoves".to_string(), obj(v, &mut rng)));
        }
        obj(top, &mut rng)
    }
    /// Build the definition value programmatically, inserting into the maps in
    /// the order chosen by `order`.  Runs library code (parsing of moves).
    pub fn definition(&self, order: u64) -> Option<KPuzzleDefinition> {
        let mut rng = Rng::new(order, 0x16);
        let mut moves: Vec<_> = self.moves.iter().collect();
        if order != 0 {
            rng.shuffle(&mut moves);
        }
        let mut mm = HashMap::new();
        for (k, t) in moves {
            mm.insert(k.parse().ok()?, tr_data(t));
        }
        let derived_moves = match &self.derived {
            None => None,
            Some(d) => {
                let mut d: Vec<_> = d.iter().collect();
                if order != 0 {
                    rng.shuffle(&mut d);
                }
                let mut m = HashMap::new();
                for (k, t) in d {
                    m.insert(k.parse().ok()?, t.parse().ok()?);
                }
                Some(m)
            }
        };
        Some(KPuzzleDefinition {
            name: self.name.clone(),
            orbits: self
                .orbits
                .iter()
                .map(|o| KPuzzleOrbitDefinition { orbit_name: KPuzzleOrbitName(o.name.clone()), num_pieces: o.pieces, num_orientations: o.ori })
                .collect(),
            default_pattern: pat_data(&self.default),
            moves: mm,
            derived_moves,
        })
    }
}
pub fn pat_data(p: &PatMap) -> KPatternData {
    p.iter()
        .map(|(k, o)| {
            (KPuzzleOrbitName(k.clone()), KPatternOrbitData { pieces: o.pieces.clone(), orientation: o.ori.clone(), orientation_mod: o.omod.clone() })
        })
        .collect()
}
pub fn tr_data(p: &TrMap) -> KTransformationData {
    p.iter()
        .map(|(k, o)| (KPuzzleOrbitName(k.clone()), KTransformationOrbitData { permutation: o.perm.clone(), orientation_delta: o.delta.clone() }))
        .collect()
}
pub fn pat_map(d: &KPatternData) -> PatMap {
    d.iter().map(|(k, o)| (k.0.clone(), PatOrbit { pieces: o.pieces.clone(), ori: o.orientation.clone(), omod: o.orientation_mod.clone() })).collect()
}
pub fn tr_map(d: &KTransformationData) -> TrMap {
    d.iter().map(|(k, o)| (k.0.clone(), TrOrbit { perm: o.permutation.clone(), delta: o.orientation_delta.clone() })).collect()
}
impl Spec {
    pub fn json(&self, order: u64) -> String {
        match self {
            Spec::Builtin(2) => JSON_2X2X2.to_string(),
            Spec::Builtin(3) => JSON_3X3X3.to_string(),
            Spec::Builtin(4) => JSON_MA.to_string(),
            Spec::Builtin(_) => JSON_MB.to_string(),
            Spec::Custom(d) => d.json(order),
        }
    }
    /// The definition as plain data.
    pub fn def(&self) -> SpecDef {
        match self {
            Spec::Builtin(_) => parse_def(&self.json(0)),
            Spec::Custom(d) => d.clone(),
        }
    }
}
/// Read a definition file without the code under test.
pub fn parse_def(text: &str) -> SpecDef {
    let v: serde_json::Value = serde_json::from_str(text).unwrap();
    let arr = |v: &serde_json::Value| -> Vec<u8> { v.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect() };
    let mut d = SpecDef { name: v["name"].as_str().unwrap().to_string(), ..Default::default() };
    for o in v["orbits"].as_array().unwrap() {
        d.orbits.push(OrbitSpec {
            name: o["orbitName"].as_str().unwrap().into(),
            pieces: o["numPieces"].as_u64().unwrap() as u8,
            ori: o["numOrientations"].as_u64().unwrap() as u8,
        });
    }
    for (k, o) in v["defaultPattern"].as_object().unwrap() {
        d.default.insert(
            k.clone(),
            PatOrbit {
                pieces: arr(&o["pieces"]),
                ori: arr(&o["orientation"]),
                omod: if o["orientationMod"].is_array() { Some(arr(&o["orientationMod"])) } else { None },
            },
        );
    }
    for (m, t) in v["moves"].as_object().unwrap() {
        let mut tm = TrMap::new();
        for (k, o) in t.as_object().unwrap() {
            tm.insert(k.clone(), TrOrbit { perm: arr(&o["permutation"]), delta: arr(&o["orientationDelta"]) });
        }
        d.moves.insert(m.clone(), tm);
    }
    if let Some(dm) = v["derivedMoves"].as_object() {
        d.derived = Some(dm.iter().map(|(k, a)| (k.clone(), a.as_str().unwrap().to_string())).collect());
    }
    d
}
