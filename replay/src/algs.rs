//! C11, C13, C16: algs.
use crate::model::*;
use crate::note;
use crate::rng::Rng;
use cubing_core::alg::*;

type R = Result<(), String>;
macro_rules! eq {
    ($a:expr, $b:expr, $w:expr) => {{
        let (a, b) = (&$a, &$b);
        if *a != *b {
            return Err(format!("{}: got {:?}, expected {:?}", $w, a, b));
        }
    }};
}
const FAMS: &[&str] = &["R", "U", "x", "_SLASH_", "U_SQ_", "D_SQ_", "R_PLUS_", "ALL_PLUS_", "R_PLUSPLUS_", "_PLUS_", "_PLUSPLUS_", "SLASH_", "_SLASH", "R_PLUS_PLUS_"];

/// nodes that together cover every clause of inversion
fn directed(idx: u64) -> Option<Vec<N>> {
    let m = |f: &str, a| mv(f, a);
    let tup = |a, b| N::Grp(vec![mv("U_SQ_", a), mv("D_SQ_", b)], 1);
    let l: Vec<Vec<N>> = vec![
        vec![],
        vec![m("R", 1), m("U", 2), m("F", -1), m("D", 0)],
        vec![m("_SLASH_", 1), m("R", 1)],
        vec![m("_SLASH_", 3), m("_SLASH_", -2)],
        vec![N::Mv(Pre::Layer(2), "_SLASH_".into(), 1), N::Mv(Pre::Range(2, 3), "_SLASH_".into(), 1)],
        vec![N::Mv(Pre::Layer(2), "R".into(), 2), N::Mv(Pre::Range(1, 3), "U".into(), -3)],
        vec![tup(3, -4), m("_SLASH_", 1), tup(0, 6)],
        vec![N::Grp(vec![mv("U_SQ_", 3), mv("D_SQ_", -4)], 2)],
        vec![N::Grp(vec![mv("D_SQ_", 3), mv("U_SQ_", -4)], 1)],
        vec![N::Grp(vec![mv("U_SQ_", 3), mv("D_SQ_", -4), mv("R", 1)], 1)],
        vec![N::Grp(vec![N::Mv(Pre::Layer(2), "U_SQ_".into(), 3), mv("D_SQ_", -4)], 1)],
        vec![N::Grp(vec![mv("U_SQ_", 3)], 1)],
        vec![N::Grp(vec![], 1), N::Grp(vec![], 0), N::Grp(vec![], -1)],
        vec![N::Grp(vec![m("R", 1), m("U", 1)], 3), N::Grp(vec![m("R", 1)], -1)],
        vec![N::Comm(vec![m("R", 1), m("U", 2)], vec![m("F", -1), m("D", 1)])],
        vec![N::Conj(vec![m("R", 1), m("U", 2)], vec![m("F", -1), m("D", 1)])],
        vec![N::Conj(vec![N::Comm(vec![m("A", 1)], vec![m("B", 1)])], vec![N::Conj(vec![m("C", 1)], vec![m("D", 1), N::Grp(vec![m("E", 2)], 5)])])],
        vec![N::Pause, N::Nl, N::Com(" text".into()), m("R", 1)],
        vec![m("R", i32::MAX), N::Grp(vec![m("U", 1)], -i32::MAX)],
    ];
    l.get(idx as usize).cloned()
}

fn strip_neg(v: Vec<N>) -> Vec<N> {
    v.into_iter()
        .map(|n| match n {
            N::Grp(w, k) => {
                let w = strip_neg(w);
                if k == -1 && is_tuple(&w) {
                    N::Grp(w, 2)
                } else {
                    N::Grp(w, k)
                }
            }
            N::Comm(a, b) => N::Comm(strip_neg(a), strip_neg(b)),
            N::Conj(a, b) => N::Conj(strip_neg(a), strip_neg(b)),
            x => x,
        })
        .collect()
}

pub fn c11(r: &mut Rng, idx: u64) -> R {
    // a group of amount -1 around a Square-1 pair is the recorded finding
    let v = strip_neg(directed(idx).unwrap_or_else(|| gen_alg(r, FAMS, 3, 5, true)));
    note!("alg {:?}", v);
    let a = r_alg(&v);
    let i = a.invert();
    eq!(n_alg(&i), inv_alg(&v), "inverse");
    eq!(n_alg(&a), v, "alg after inverting it");
    let ii = i.invert();
    eq!(n_alg(&ii), v, "inverted twice");
    if ii != a {
        return Err("inverting twice gives an alg that compares different".into());
    }
    for n in &v {
        eq!(n_node(&r_node(n).invert()), inv_node(n), format!("inverse of node {:?}", n));
    }
    Ok(())
}

/// the recorded finding of C11: does it still fail?
pub fn c11_known() -> bool {
    let v = vec![N::Grp(vec![mv("U_SQ_", 1), mv("D_SQ_", 1)], -1)];
    let a = r_alg(&v);
    n_alg(&a.invert().invert()) != v
}

pub fn c16(r: &mut Rng, idx: u64) -> R {
    let mut want: Vec<N> = vec![];
    let start = r.below(4);
    let len = if idx < 4 { idx } else { r.below(7) };
    let first = gen_alg(r, FAMS, 2, 4, true);
    note!("start {} first {:?}", start, first);
    let mut b = match start {
        0 => AlgBuilder::default(),
        1 => AlgBuilder::new(None::<&Alg>),
        2 => {
            want.extend(first.clone());
            AlgBuilder::new(Some(&r_alg(&first)))
        }
        _ => {
            if let Some(n) = first.first() {
                want.push(n.clone());
                AlgBuilder::new(Some(&r_node(n)))
            } else {
                AlgBuilder::default()
            }
        }
    };
    for _ in 0..len {
        let v = gen_alg(r, FAMS, 2, 4, true);
        note!("push {:?}", v);
        if r.chance(1, 2) {
            b.push(&r_alg(&v));
            want.extend(v);
        } else if let Some(n) = v.first() {
            note!("(first node only)");
            b.push(&r_node(n));
            want.push(n.clone());
        }
    }
    eq!(n_alg(&b.to_alg()), want, "built alg");
    c16_parts(r)
}

/// Constructors and conversions of the parts of a move store what they are given.
fn c16_parts(r: &mut Rng) -> R {
    let a = r.below(1 << 32) as u32;
    let b = r.below(1 << 32) as u32;
    let (a, b) = if r.chance(1, 2) { (a % 9, b % 9) } else { (a, b) };
    let fam = FAMS[r.below(FAMS.len() as u64) as usize];
    note!("parts {} {} {:?}", a, b, fam);
    eq!(MoveLayer::new(a).layer, a, "MoveLayer::new");
    eq!(MoveLayer::from(a).layer, a, "MoveLayer::from");
    let parts = |m: &MoveRange| (m.outer_layer, m.inner_layer);
    eq!(parts(&MoveRange::new(a, b)), (a, b), "MoveRange::new");
    eq!(parts(&MoveRange::from((a, b))), (a, b), "MoveRange::from");
    let layer = |p: Option<MovePrefix>| match p {
        Some(MovePrefix::Layer(l)) => Some(l.layer),
        _ => None,
    };
    let range = |p: Option<MovePrefix>| match p {
        Some(MovePrefix::Range(m)) => Some(parts(&m)),
        _ => None,
    };
    eq!(layer(Some(a.into())), Some(a), "MovePrefix from a number");
    eq!(layer(Some(MoveLayer { layer: a }.into())), Some(a), "MovePrefix from a layer");
    eq!(layer(MoveLayer { layer: a }.into()), Some(a), "Option<MovePrefix> from a layer");
    let m = MoveRange { outer_layer: a, inner_layer: b };
    eq!(range(Some((a, b).into())), Some((a, b)), "MovePrefix from two numbers");
    eq!(range(Some(m.clone().into())), Some((a, b)), "MovePrefix from a range");
    eq!(range(m.clone().into()), Some((a, b)), "Option<MovePrefix> from a range");
    let q = QuantumMove::new(fam, m.into());
    eq!(q.family, fam.to_owned(), "QuantumMove::new");
    eq!(range(q.prefix), Some((a, b)), "QuantumMove::new");
    let q = QuantumMove::new(fam.to_owned(), None);
    eq!((q.family, q.prefix.is_none()), (fam.to_owned(), true), "QuantumMove::new");
    Ok(())
}
