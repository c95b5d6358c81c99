//! Independent model of puzzles, transformations, patterns and algs (the oracle), and conversion
//! to and from the real values through their public interface.
use crate::rng::Rng;
use cubing_core::alg::*;
use cubing_core::kpuzzle::*;
use std::collections::HashMap;
use std::sync::Arc;

#[derive(Clone, Debug)]
pub struct MO {
    pub name: String,
    pub n: usize,
    pub k: u8,
}
pub type MPuz = Vec<MO>;
/// per orbit: permutation, orientation delta
pub type MT = Vec<(Vec<u8>, Vec<u8>)>;
/// per orbit: pieces, (orientation, modulus; 0 = unset)
pub type MP = Vec<(Vec<u8>, Vec<(u8, u8)>)>;

pub fn gen_puz(r: &mut Rng, idx: u64) -> MPuz {
    let ks = [1u8, 1, 2, 2, 3, 3, 4, 5, 6, 6, 12, 24, 60, 96, 105, 106, 107];
    let lo = if r_chance(idx, r) { 0 } else { 1 };
    let many = idx > 60 && r.chance(1, 30);
    let huge = idx > 60 && r.chance(1, 500);
    let orbits = if huge { r.range(129, 133) } else if many { *r.pick(&[4, 5, 7, 8, 9, 12, 16, 17, 33, 65]) } else { r.range(lo, 3) };
    // names in any order, not only as sorted
    let style = r.below(5);
    (0..orbits)
        .map(|i| {
            let n = if idx < 40 {
                r.range(1, 3)
            } else if huge {
                r.range(253, 255)
            } else if many {
                r.range(0, 4)
            } else {
                match r.below(12) {
                    0 => 0,
                    1..=8 => r.range(1, 8),
                    9 | 10 => r.range(9, 40),
                    _ => *r.pick(&[127, 128, 129, 200, 254, 255]),
                }
            };
            let k = if r.chance(1, 3) { r.range(1, 107) as u8 } else { *r.pick(&ks) };
            let name = match style {
                0 => format!("O{}", 90 - i),
                1 => ["EDGES", "CORNERS", "CENTERS", "C", ""].get(i as usize).map_or(format!("{}", 99 - i), |s| s.to_string()),
                2 => ["EDGES", "edges", "Edges", "EDGES ", "EDGE", "EDGES2", "EDGESa"].get(i as usize).map_or(format!("{}", 99 - i), |s| s.to_string()),
                _ => format!("O{}", i),
            };
            MO { name, n: n as usize, k }
        })
        .collect()
}
fn r_chance(idx: u64, r: &mut Rng) -> bool {
    idx > 60 && r.chance(1, 30)
}
pub fn divisors(k: u8) -> Vec<u8> {
    (1..=k).filter(|d| k % d == 0).collect()
}
/// an unset modulus reads as 0; a modulus equal to the orientation count counts as unset
pub fn norm(k: u8, om: (u8, u8)) -> (u8, u8) {
    (om.0, if om.1 == k { 0 } else { om.1 })
}
pub fn gen_t(r: &mut Rng, p: &MPuz) -> MT {
    p.iter()
        .map(|o| {
            let perm = if r.chance(1, 8) { (0..o.n).map(|x| x as u8).collect() } else { r.perm(o.n) };
            let hi = r.chance(1, 4);
            let d = (0..o.n)
                .map(|_| if hi { o.k - 1 } else { r.below(o.k as u64) as u8 })
                .collect();
            (perm, d)
        })
        .collect()
}
/// modulus may be given as the orientation count itself (before normalisation)
pub fn gen_p(r: &mut Rng, p: &MPuz) -> MP {
    p.iter()
        .map(|o| {
            let wild = r.chance(1, 3);
            let pieces = (0..o.n)
                .map(|i| if wild { r.below(256) as u8 } else { i as u8 })
                .collect();
            let ds = divisors(o.k);
            let om = (0..o.n)
                .map(|_| {
                    let m = if r.chance(1, 2) { 0 } else { *r.pick(&ds) };
                    let lim = if m == 0 { o.k } else { m };
                    (r.below(lim as u64) as u8, m)
                })
                .collect();
            (pieces, om)
        })
        .collect()
}
pub fn m_id(p: &MPuz) -> MT {
    p.iter().map(|o| ((0..o.n).map(|x| x as u8).collect(), vec![0; o.n])).collect()
}
pub fn m_comp(p: &MPuz, a: &MT, b: &MT) -> MT {
    (0..p.len())
        .map(|o| {
            let (n, k) = (p[o].n, p[o].k as u32);
            (
                (0..n).map(|i| a[o].0[b[o].0[i] as usize]).collect(),
                (0..n)
                    .map(|i| ((a[o].1[b[o].0[i] as usize] as u32 + b[o].1[i] as u32) % k) as u8)
                    .collect(),
            )
        })
        .collect()
}
pub fn m_inv(p: &MPuz, a: &MT) -> MT {
    let mut r = m_id(p);
    for o in 0..p.len() {
        for i in 0..p[o].n {
            let f = a[o].0[i] as usize;
            r[o].0[f] = i as u8;
            r[o].1[f] = ((p[o].k as u32 - a[o].1[i] as u32) % p[o].k as u32) as u8;
        }
    }
    r
}
pub fn m_pow(p: &MPuz, a: &MT, n: i64) -> MT {
    let base = if n < 0 { m_inv(p, a) } else { a.clone() };
    let mut e = n.unsigned_abs();
    if e <= 12 {
        let mut r = m_id(p);
        for _ in 0..e {
            r = m_comp(p, &r, &base);
        }
        return r;
    }
    let (mut r, mut b) = (m_id(p), base);
    while e > 0 {
        if e & 1 == 1 {
            r = m_comp(p, &r, &b);
        }
        b = m_comp(p, &b, &b);
        e >>= 1;
    }
    r
}
pub fn m_act(p: &MPuz, s: &MP, t: &MT) -> MP {
    (0..p.len())
        .map(|o| {
            let n = p[o].n;
            (
                (0..n).map(|i| s[o].0[t[o].0[i] as usize]).collect(),
                (0..n)
                    .map(|i| {
                        let (or, m) = norm(p[o].k, s[o].1[t[o].0[i] as usize]);
                        let md = if m == 0 { p[o].k } else { m } as u32;
                        (((or as u32 + t[o].1[i] as u32) % md) as u8, m)
                    })
                    .collect(),
            )
        })
        .collect()
}
pub fn m_norm(p: &MPuz, s: &MP) -> MP {
    (0..p.len())
        .map(|o| (s[o].0.clone(), s[o].1.iter().map(|x| norm(p[o].k, *x)).collect()))
        .collect()
}

pub fn t_data(p: &MPuz, t: &MT) -> KTransformationData {
    (0..p.len())
        .map(|o| {
            (
                KPuzzleOrbitName(p[o].name.clone()),
                KTransformationOrbitData { permutation: t[o].0.clone(), orientation_delta: t[o].1.clone() },
            )
        })
        .collect()
}
pub fn p_data(p: &MPuz, s: &MP, force_mod: bool) -> KPatternData {
    (0..p.len())
        .map(|o| {
            let mods: Vec<u8> = s[o].1.iter().map(|x| x.1).collect();
            let has = force_mod || mods.iter().any(|m| *m != 0);
            (
                KPuzzleOrbitName(p[o].name.clone()),
                KPatternOrbitData {
                    pieces: s[o].0.clone(),
                    orientation: s[o].1.iter().map(|x| x.0).collect(),
                    orientation_mod: if has { Some(mods) } else { None },
                },
            )
        })
        .collect()
}
pub fn def(p: &MPuz, moves: HashMap<Move, KTransformationData>, derived: Option<HashMap<Move, Alg>>) -> KPuzzleDefinition {
    KPuzzleDefinition {
        name: "test".to_owned(),
        orbits: p
            .iter()
            .map(|o| KPuzzleOrbitDefinition {
                orbit_name: KPuzzleOrbitName(o.name.clone()),
                num_pieces: o.n as u8,
                num_orientations: o.k,
            })
            .collect(),
        default_pattern: p_data(
            p,
            &p.iter().map(|o| ((0..o.n).map(|x| x as u8).collect(), vec![(0, 0); o.n])).collect(),
            false,
        ),
        moves,
        derived_moves: derived,
    }
}
pub fn build(p: &MPuz) -> Result<KPuzzle, String> {
    KPuzzle::try_new(def(p, HashMap::new(), None)).map_err(|e| format!("a valid definition was rejected: {} ({:?})", e, p))
}
pub fn infos<'a>(k: &'a KPuzzle, p: &MPuz) -> Result<Vec<&'a KPuzzleOrbitInfo>, String> {
    p.iter()
        .map(|o| {
            k.orbit_info_iter()
                .find(|x| x.name.0 == o.name)
                .ok_or_else(|| format!("orbit {} is missing in the built puzzle", o.name))
        })
        .collect()
}
pub fn real_t(k: &KPuzzle, p: &MPuz, t: &MT, by_data: bool) -> Result<KTransformation, String> {
    if by_data {
        return KTransformation::try_from_data(k, &t_data(p, t))
            .map_err(|e| format!("valid transformation data was rejected: {} ({:?} {:?})", e, p, t));
    }
    let mut v = k.identity_transformation();
    for (o, info) in infos(k, p)?.into_iter().enumerate() {
        for i in 0..p[o].n {
            v.set_permutation_idx(info, i as u8, t[o].0[i]);
            v.set_orientation_delta(info, i as u8, t[o].1[i]);
        }
    }
    Ok(v)
}
pub fn real_p(k: &KPuzzle, p: &MPuz, s: &MP, by_data: bool) -> Result<KPattern, String> {
    if by_data {
        return KPattern::try_from_data(k, &p_data(p, s, false))
            .map_err(|e| format!("valid pattern data was rejected: {} ({:?} {:?})", e, p, s));
    }
    let mut v = KPattern::try_from_data(
        k,
        &p_data(p, &p.iter().map(|o| (vec![0; o.n], vec![(0, 0); o.n])).collect(), false),
    )
    .map_err(|e| format!("valid pattern data was rejected: {} ({:?})", e, p))?;
    for (o, info) in infos(k, p)?.into_iter().enumerate() {
        for i in 0..p[o].n {
            v.set_piece(info, i as u8, s[o].0[i]);
            v.set_orientation_with_mod(
                info,
                i as u8,
                &OrientationWithMod { orientation: s[o].1[i].0, orientation_mod: s[o].1[i].1 },
            );
        }
    }
    Ok(v)
}
pub fn read_t(p: &MPuz, t: &KTransformation) -> Result<MT, String> {
    Ok(infos(t.kpuzzle(), p)?
        .into_iter()
        .enumerate()
        .map(|(o, info)| {
            (
                (0..p[o].n).map(|i| t.get_permutation_idx(info, i as u8)).collect(),
                (0..p[o].n).map(|i| t.get_orientation_delta(info, i as u8)).collect(),
            )
        })
        .collect())
}
pub fn read_p(p: &MPuz, s: &KPattern) -> Result<MP, String> {
    Ok(infos(s.kpuzzle(), p)?
        .into_iter()
        .enumerate()
        .map(|(o, info)| {
            (
                (0..p[o].n).map(|i| s.get_piece(info, i as u8)).collect(),
                (0..p[o].n)
                    .map(|i| {
                        let x = s.get_orientation_with_mod(info, i as u8);
                        (x.orientation, x.orientation_mod)
                    })
                    .collect(),
            )
        })
        .collect())
}

// ---------------------------------------------------------------- algs

#[derive(Clone, Debug, PartialEq)]
pub enum Pre {
    None,
    Layer(u32),
    Range(u32, u32),
}
#[derive(Clone, Debug, PartialEq)]
pub enum N {
    Mv(Pre, String, i32),
    Pause,
    Nl,
    Com(String),
    Grp(Vec<N>, i32),
    Comm(Vec<N>, Vec<N>),
    Conj(Vec<N>, Vec<N>),
}
pub fn mv(f: &str, a: i32) -> N {
    N::Mv(Pre::None, f.to_owned(), a)
}
pub fn r_move(p: &Pre, f: &str, a: i32) -> Move {
    Move {
        quantum: Arc::new(QuantumMove::new(
            f,
            match p {
                Pre::None => None,
                Pre::Layer(l) => Some(MovePrefix::Layer(MoveLayer::new(*l))),
                Pre::Range(a, b) => Some(MovePrefix::Range(MoveRange::new(*a, *b))),
            },
        )),
        amount: a,
    }
}
pub fn r_node(n: &N) -> AlgNode {
    match n {
        N::Mv(p, f, a) => AlgNode::MoveNode(r_move(p, f, *a)),
        N::Pause => AlgNode::PauseNode(Pause {}),
        N::Nl => AlgNode::NewlineNode(Newline {}),
        N::Com(s) => AlgNode::LineCommentNode(LineComment::try_new(s).unwrap()),
        N::Grp(a, k) => AlgNode::GroupingNode(Grouping { alg: Arc::new(r_alg(a)), amount: *k }),
        N::Comm(a, b) => AlgNode::CommutatorNode(Commutator { a: Arc::new(r_alg(a)), b: Arc::new(r_alg(b)) }),
        N::Conj(a, b) => AlgNode::ConjugateNode(Conjugate { a: Arc::new(r_alg(a)), b: Arc::new(r_alg(b)) }),
    }
}
pub fn r_alg(v: &[N]) -> Alg {
    Alg { nodes: v.iter().map(r_node).collect() }
}
pub fn n_move(m: &Move) -> N {
    N::Mv(
        match &m.quantum.prefix {
            None => Pre::None,
            Some(MovePrefix::Layer(l)) => Pre::Layer(l.layer),
            Some(MovePrefix::Range(r)) => Pre::Range(r.outer_layer, r.inner_layer),
        },
        m.quantum.family.clone(),
        m.amount,
    )
}
pub fn n_node(n: &AlgNode) -> N {
    match n {
        AlgNode::MoveNode(m) => n_move(m),
        AlgNode::PauseNode(_) => N::Pause,
        AlgNode::NewlineNode(_) => N::Nl,
        AlgNode::LineCommentNode(c) => N::Com(c.text().to_owned()),
        AlgNode::GroupingNode(g) => N::Grp(n_alg(&g.alg), g.amount),
        AlgNode::CommutatorNode(c) => N::Comm(n_alg(&c.a), n_alg(&c.b)),
        AlgNode::ConjugateNode(c) => N::Conj(n_alg(&c.a), n_alg(&c.b)),
    }
}
pub fn n_alg(a: &Alg) -> Vec<N> {
    a.nodes.iter().map(n_node).collect()
}
pub fn is_tuple(v: &[N]) -> bool {
    v.len() == 2
        && matches!(&v[0], N::Mv(Pre::None, f, _) if f == "U_SQ_")
        && matches!(&v[1], N::Mv(Pre::None, f, _) if f == "D_SQ_")
}
pub fn inv_move(p: &Pre, f: &str, a: i32) -> N {
    if *p == Pre::None && f == "_SLASH_" {
        N::Mv(p.clone(), f.to_owned(), a)
    } else {
        N::Mv(p.clone(), f.to_owned(), -a)
    }
}
pub fn inv_node(n: &N) -> N {
    match n {
        N::Mv(p, f, a) => inv_move(p, f, *a),
        N::Pause | N::Nl | N::Com(_) => n.clone(),
        N::Grp(v, 1) if is_tuple(v) => N::Grp(v.iter().map(inv_node).collect(), 1),
        N::Grp(v, k) => N::Grp(v.clone(), -k),
        N::Comm(a, b) => N::Comm(b.clone(), a.clone()),
        N::Conj(a, b) => N::Conj(a.clone(), inv_alg(b)),
    }
}
pub fn inv_alg(v: &[N]) -> Vec<N> {
    v.iter().rev().map(inv_node).collect()
}
/// is there a group of amount -1 around exactly a Square-1 pair of moves (known finding)?
pub fn has_neg_tuple(v: &[N]) -> bool {
    v.iter().any(|n| match n {
        N::Grp(w, k) => (*k == -1 && is_tuple(w)) || has_neg_tuple(w),
        N::Comm(a, b) | N::Conj(a, b) => has_neg_tuple(a) || has_neg_tuple(b),
        _ => false,
    })
}

/// families: generated move families; amounts small, sometimes extreme
pub fn gen_alg(r: &mut Rng, fams: &[&str], depth: u32, len: i64, extreme: bool) -> Vec<N> {
    if r.chance(1, 60) {
        // long: a stretch of moves, repeated nodes, nesting
        return match r.below(4) {
            0 => {
                let l = *r.pick(&[16i64, 17, 31, 33, 64, 65, 127, 129, 255, 257, 300]);
                (0..l).map(|_| mv(*r.pick(fams), if r.chance(2, 3) { 1 } else { amount(r, false) })).collect()
            }
            1 => {
                let x = mv(*r.pick(fams), amount(r, extreme));
                vec![x; r.range(2, 9) as usize]
            }
            2 => {
                let x = gen_alg(r, fams, 0, 4, extreme);
                let n = r.range(2, 5) as usize;
                (0..n).flat_map(|_| x.clone()).collect()
            }
            _ => {
                let mut x = vec![mv(*r.pick(fams), amount(r, extreme))];
                for _ in 0..r.range(1, 12) {
                    x = match r.below(4) {
                        0 => vec![N::Comm(x, vec![mv(*r.pick(fams), 1)])],
                        1 => vec![N::Conj(vec![mv(*r.pick(fams), 1)], x)],
                        _ => vec![N::Grp(x, *r.pick(&[1, 1, -1, 2, -2]))],
                    };
                }
                x
            }
        };
    }
    let l = r.range(0, len);
    (0..l)
        .map(|_| {
            let k = if depth == 0 { r.below(8) } else { r.below(12) };
            match k {
                0..=5 => {
                    let p = match r.below(10) {
                        0 => Pre::Layer(r.below(5) as u32),
                        1 => Pre::Range(r.below(5) as u32, r.below(9) as u32),
                        _ => Pre::None,
                    };
                    let p = if extreme { p } else { Pre::None };
                    N::Mv(p, (*r.pick(fams)).to_owned(), amount(r, extreme))
                }
                6 => N::Pause,
                7 => {
                    if r.chance(1, 2) {
                        N::Nl
                    } else {
                        N::Com(" c".to_owned())
                    }
                }
                8 | 9 => {
                    if extreme && r.chance(1, 4) {
                        N::Grp(vec![mv("U_SQ_", amount(r, false)), mv("D_SQ_", amount(r, false))], 1)
                    } else {
                        N::Grp(gen_alg(r, fams, depth - 1, 3, extreme), amount(r, extreme))
                    }
                }
                10 => N::Comm(gen_alg(r, fams, depth - 1, 3, extreme), gen_alg(r, fams, depth - 1, 3, extreme)),
                _ => N::Conj(gen_alg(r, fams, depth - 1, 3, extreme), gen_alg(r, fams, depth - 1, 3, extreme)),
            }
        })
        .collect()
}
pub fn amount(r: &mut Rng, extreme: bool) -> i32 {
    match r.below(if extreme { 12 } else { 10 }) {
        0..=3 => 1,
        4 | 5 => -1,
        6 => 2,
        7 => -2,
        8 => 0,
        9 => r.range(-7, 7) as i32,
        10 => *r.pick(&[i32::MAX, -i32::MAX, 1000, -1000]),
        _ => r.range(-100, 100) as i32,
    }
}
