//! The built-in puzzles: what the real crate decodes, the relations, and words against the model.
use crate::model::*;
use crate::note;
use crate::rng::Rng;
use crate::tryp;
use cubing_core::alg::*;
use cubing_core::kpuzzle::*;
use cubing_core::puzzles::*;
use serde_json::Value;
use std::collections::HashMap;

type R = Result<(), String>;
type Key = (u32, String, i32);

fn rels() -> Value {
    serde_json::from_str(include_str!("../../tools/relations.json")).unwrap()
}
fn puzzle(tag: &str) -> Result<&'static KPuzzle, String> {
    tryp(&format!("building the {} puzzle", tag), || match tag {
        "3x3x3" => cube3x3x3_kpuzzle(),
        _ => cube2x2x2_kpuzzle(),
    })
}
/// digits, one or two letters, digits, a prime
fn key(s: &str) -> Option<Key> {
    let neg = s.ends_with('\'');
    let s = s.strip_suffix('\'').unwrap_or(s);
    let a = s.find(|c: char| !c.is_ascii_digit())?;
    let (pre, rest) = s.split_at(a);
    let b = rest.find(|c: char| c.is_ascii_digit()).unwrap_or(rest.len());
    let (fam, num) = rest.split_at(b);
    let n: i32 = if num.is_empty() { 1 } else { num.parse().ok()? };
    let p: u32 = if pre.is_empty() { 0 } else { 1 + pre.parse::<u32>().ok()? };
    Some((p, fam.to_owned(), if neg { -n } else { n }))
}
fn word(s: &str) -> Option<Vec<Key>> {
    s.split_whitespace().map(key).collect()
}
fn node(k: &Key) -> N {
    N::Mv(if k.0 == 0 { Pre::None } else { Pre::Layer(k.0 - 1) }, k.1.clone(), k.2)
}
fn alg(s: &str) -> Option<Vec<N>> {
    let w = |s: &str| word(s).map(|v| v.iter().map(node).collect::<Vec<N>>());
    let s = s.trim();
    if let Some(x) = s.strip_prefix('[').and_then(|x| x.strip_suffix(']')) {
        let conj = x.contains(':');
        let (a, b) = x.split_once(if conj { ':' } else { ',' })?;
        let (a, b) = (w(a)?, w(b)?);
        return Some(vec![if conj { N::Conj(a, b) } else { N::Comm(a, b) }]);
    }
    w(s)
}
fn bytes(v: &Value) -> Option<Vec<u8>> {
    v.as_array()?.iter().map(|x| x.as_u64().map(|y| y as u8)).collect()
}
struct File {
    p: MPuz,
    direct: HashMap<Key, MT>,
    derived: HashMap<Key, Vec<N>>,
}
/// what the file says (None: it is not there or has a form this reader does not know)
fn file(tag: &str, d: &KPuzzleDefinition) -> Result<Option<File>, String> {
    let Ok(txt) = std::fs::read_to_string(format!("/repo/cubing_core/src/puzzles/{}.kpuzzle.json", tag)) else { return Ok(None) };
    let Ok(v) = serde_json::from_str::<Value>(&txt) else { return Ok(None) };
    let go = || -> Option<Result<File, String>> {
        let mut p: MPuz = vec![];
        for (i, o) in v["orbits"].as_array()?.iter().enumerate() {
            let x = MO { name: o["orbitName"].as_str()?.to_owned(), n: o["numPieces"].as_u64()? as usize, k: o["numOrientations"].as_u64()? as u8 };
            match d.orbits.get(i) {
                Some(y) if y.orbit_name.0 == x.name && y.num_pieces as usize == x.n && y.num_orientations == x.k => {}
                y => return Some(Err(format!("orbit {} is {:?} in the definition, the file says {:?}", i, y.map(|y| (&y.orbit_name.0, y.num_pieces, y.num_orientations)), x))),
            }
            p.push(x);
        }
        if d.orbits.len() != p.len() {
            return Some(Err("the definition has more orbits than the file".to_owned()));
        }
        for o in &p {
            let e = &v["defaultPattern"][&o.name];
            let g = d.default_pattern.get(&KPuzzleOrbitName(o.name.clone()));
            let want = (bytes(&e["pieces"])?, bytes(&e["orientation"])?, bytes(&e["orientationMod"]));
            if g.map(|g| (g.pieces.clone(), g.orientation.clone(), g.orientation_mod.clone())) != Some(want) {
                return Some(Err(format!("default pattern of orbit {} differs from the file: {:?}", o.name, e)));
            }
        }
        let (mut direct, mut derived) = (HashMap::new(), HashMap::new());
        for (m, t) in v["moves"].as_object()? {
            let k = key(m)?;
            let mut mt: MT = vec![];
            for o in &p {
                mt.push((bytes(&t[&o.name]["permutation"])?, bytes(&t[&o.name]["orientationDelta"])?));
            }
            let n = node(&k);
            let N::Mv(pre, f, a) = &n else { return None };
            match d.moves.get(&r_move(pre, f, *a)) {
                Some(x) if p.iter().enumerate().all(|(i, o)| {
                    x.get(&KPuzzleOrbitName(o.name.clone())).is_some_and(|y| y.permutation == mt[i].0 && y.orientation_delta == mt[i].1)
                }) => {}
                _ => return Some(Err(format!("move {} of the definition is not what the file says", m))),
            }
            direct.insert(k, mt);
        }
        for (m, a) in v["derivedMoves"].as_object()? {
            let k = key(m)?;
            let x = alg(a.as_str()?)?;
            let n = node(&k);
            let N::Mv(pre, f, am) = &n else { return None };
            match d.derived_moves.as_ref().and_then(|z| z.get(&r_move(pre, f, *am))) {
                Some(y) if n_alg(y) == x => {}
                y => return Some(Err(format!("derived move {} of the definition is {:?}, the file says {}", m, y.map(|y| y.to_string()), a))),
            }
            derived.insert(k, x);
        }
        if d.moves.len() != direct.len() || d.derived_moves.as_ref().map_or(0, |z| z.len()) != derived.len() {
            return Some(Err("the definition has other moves than the file".to_owned()));
        }
        Some(Ok(File { p, direct, derived }))
    };
    go().transpose()
}
fn eval(f: &File, w: &[N]) -> Option<MT> {
    let p = &f.p;
    let mut t = m_id(p);
    for n in w {
        let e = match n {
            N::Mv(pre, fam, a) => {
                let k = (if let Pre::Layer(l) = pre { l + 1 } else { 0 }, fam.clone(), 1);
                let base = match f.direct.get(&k) {
                    Some(t) => t.clone(),
                    None => eval(f, f.derived.get(&k)?)?,
                };
                m_pow(p, &base, *a as i64)
            }
            N::Comm(a, b) | N::Conj(a, b) => {
                let (x, y) = (eval(f, a)?, eval(f, b)?);
                let c = m_comp(p, &m_comp(p, &x, &y), &m_inv(p, &x));
                if let N::Comm(..) = n {
                    m_comp(p, &c, &m_inv(p, &y))
                } else {
                    c
                }
            }
            _ => return None,
        };
        t = m_comp(p, &t, &e);
    }
    Some(t)
}
fn real(k: &KPuzzle, s: &str) -> Result<KTransformation, String> {
    let a: Alg = s.parse().map_err(|_| format!("{:?} does not parse", s))?;
    k.transformation_from_alg(&a).map_err(|e| format!("{:?} does not evaluate: {}", s, e))
}
fn relations(tag: &str, k: &'static KPuzzle) -> R {
    let rel = &rels()[tag];
    let mut all: Vec<(String, String)> = rel["order4"].as_str().unwrap().split_whitespace().map(|m| (format!("{} {} {} {}", m, m, m, m), String::new())).collect();
    for x in rel["same"].as_array().unwrap() {
        all.push((x[0].as_str().unwrap().to_owned(), x[1].as_str().unwrap().to_owned()));
    }
    let dp = KPattern::try_from_data(k, &k.definition().default_pattern).map_err(|e| format!("the default pattern of {} is no pattern: {}", tag, e))?;
    if dp != k.default_pattern() {
        return Err(format!("default_pattern() of {} is not the default pattern of its definition", tag));
    }
    for (a, b) in &all {
        note!("{}: {} = {}", tag, a, b);
        let (x, y) = (real(k, a)?, real(k, b)?);
        if x != y {
            return Err(format!("{}: {} and {:?} do different things", tag, a, b));
        }
        if k.default_pattern().apply_transformation(&x) != k.default_pattern().apply_transformation(&y) {
            return Err(format!("{}: {} and {:?} do different things to the default pattern", tag, a, b));
        }
    }
    crate::clear_notes();
    let d = k.definition();
    for m in d.moves.keys().chain(d.derived_moves.iter().flatten().map(|x| x.0)) {
        note!("{}: {}", tag, m);
        let t = k.transformation_from_move(m).map_err(|e| format!("{}: move {} does not evaluate: {}", tag, m, e))?;
        if m.amount == 1 && t.apply_transformation(&t).apply_transformation(&t).apply_transformation(&t) != k.identity_transformation() {
            return Err(format!("{}: four times {} is not nothing", tag, m));
        }
    }
    Ok(())
}
pub fn c20(r: &mut Rng, idx: u64) -> R {
    let tag = if idx % 2 == 0 { "3x3x3" } else { "2x2x2" };
    note!("built-in puzzle {}", tag);
    let k = puzzle(tag)?;
    if idx < 2 {
        relations(tag, k)?;
    }
    let Some(f) = file(tag, k.definition())? else { return Ok(()) };
    let mut keys: Vec<&Key> = f.direct.keys().chain(f.derived.keys()).filter(|k| k.2 == 1).collect();
    keys.sort();
    for _ in 0..20 {
        let w: Vec<N> = (0..r.range(0, 25))
            .map(|_| {
                let k = r.pick(&keys);
                node(&(k.0, k.1.clone(), amount(r, true).max(-i32::MAX)))
            })
            .collect();
        let s = r_alg(&w);
        note!("{}: {}", tag, s);
        let Some(want) = eval(&f, &w) else { return Ok(()) };
        let t = k.transformation_from_alg(&s).map_err(|e| format!("{}: {} does not evaluate: {}", tag, s, e))?;
        if read_t(&f.p, &t)? != want {
            return Err(format!("{}: {} does not do what the moves of the file do", tag, s));
        }
        let dp = k.default_pattern();
        if read_p(&f.p, &dp.apply_transformation(&t))? != m_act(&f.p, &read_p(&f.p, &dp)?, &want) {
            return Err(format!("{}: {} does something else to the default pattern", tag, s));
        }
        crate::clear_notes();
    }
    Ok(())
}
