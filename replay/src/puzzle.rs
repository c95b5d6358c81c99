//! C01-C10, C14, C15: puzzles, transformations, patterns.
use crate::model::*;
use crate::rng::Rng;
use crate::{alloc, note, tryp};
use cubing_core::alg::*;
use cubing_core::kpuzzle::*;
use std::collections::hash_map::DefaultHasher;
use std::collections::HashMap;
use std::hash::{Hash, Hasher};

type R = Result<(), String>;
macro_rules! eq {
    ($a:expr, $b:expr, $w:expr) => {{
        let (a, b) = (&$a, &$b);
        if *a != *b {
            return Err(format!("{}: got {:?}, expected {:?}", $w, a, b));
        }
    }};
}
macro_rules! ok {
    ($c:expr, $($w:tt)*) => { if !$c { return Err(format!($($w)*)); } };
}

pub fn c01(r: &mut Rng, idx: u64) -> R {
    let p = gen_puz(r, idx);
    let (s, t) = (gen_p(r, &p), gen_t(r, &p));
    note!("puzzle {:?}\npattern (pieces, (orientation, mod)) {:?}\ntransformation (perm, delta) {:?}", p, s, t);
    let k = build(&p)?;
    let (ps, pt) = (real_p(&k, &p, &s, r.chance(1, 2))?, real_t(&k, &p, &t, r.chance(1, 2))?);
    let want = m_act(&p, &s, &t);
    let got = ps.apply_transformation(&pt);
    eq!(read_p(&p, &got)?, want, "apply_transformation result");
    let junk = gen_p(r, &p);
    let mut into = real_p(&k, &p, &junk, false)?;
    ps.apply_transformation_into(&pt, &mut into);
    eq!(read_p(&p, &into)?, want, "apply_transformation_into result");
    eq!(read_p(&p, &ps)?, m_norm(&p, &s), "input pattern afterwards");
    eq!(read_t(&p, &pt)?, t, "input transformation afterwards");
    let t2 = gen_t(r, &p);
    note!("second transformation {:?}", t2);
    let pt2 = real_t(&k, &p, &t2, true)?;
    eq!(read_p(&p, &got.apply_transformation(&pt2))?, m_act(&p, &want, &t2), "second apply_transformation result");
    drop((ps, pt, got, into));
    alloc::take()
}

pub fn c02(r: &mut Rng, idx: u64) -> R {
    let p = gen_puz(r, idx);
    let (a, b, c, s) = (gen_t(r, &p), gen_t(r, &p), gen_t(r, &p), gen_p(r, &p));
    note!("puzzle {:?}\na {:?}\nb {:?}\nc {:?}\npattern {:?}", p, a, b, c, s);
    let k = build(&p)?;
    let d = r.chance(1, 2);
    let (ra, rb, rc) = (real_t(&k, &p, &a, d)?, real_t(&k, &p, &b, d)?, real_t(&k, &p, &c, d)?);
    let ps = real_p(&k, &p, &s, d)?;
    let ab = ra.apply_transformation(&rb);
    eq!(read_t(&p, &ab)?, m_comp(&p, &a, &b), "composition of a and b");
    let mut into = real_t(&k, &p, &c, false)?;
    ra.apply_transformation_into(&rb, &mut into);
    eq!(read_t(&p, &into)?, m_comp(&p, &a, &b), "composition of a and b (into)");
    let l = ab.apply_transformation(&rc);
    let rr = ra.apply_transformation(&rb.apply_transformation(&rc));
    eq!(read_t(&p, &l)?, read_t(&p, &rr)?, "(ab)c versus a(bc)");
    let id = k.identity_transformation();
    eq!(read_t(&p, &id)?, m_id(&p), "identity transformation");
    eq!(read_t(&p, &id.apply_transformation(&ra))?, a, "id a");
    eq!(read_t(&p, &ra.apply_transformation(&id))?, a, "a id");
    eq!(
        read_p(&p, &ps.apply_transformation(&ab))?,
        read_p(&p, &ps.apply_transformation(&ra).apply_transformation(&rb))?,
        "pattern after ab versus after a then b"
    );
    Ok(())
}

pub fn c03(r: &mut Rng, idx: u64) -> R {
    let p = gen_puz(r, idx);
    let (a, s) = (gen_t(r, &p), gen_p(r, &p));
    note!("puzzle {:?}\na {:?}\npattern {:?}", p, a, s);
    let k = build(&p)?;
    let ra = real_t(&k, &p, &a, r.chance(1, 2))?;
    let inv = ra.invert();
    eq!(read_t(&p, &inv)?, m_inv(&p, &a), "inverse");
    eq!(read_t(&p, &ra.apply_transformation(&inv))?, m_id(&p), "a a'");
    eq!(read_t(&p, &inv.apply_transformation(&ra))?, m_id(&p), "a' a");
    eq!(read_t(&p, &ra)?, a, "a afterwards");
    let ps = real_p(&k, &p, &s, true)?;
    eq!(
        read_p(&p, &ps.apply_transformation(&ra).apply_transformation(&inv))?,
        m_norm(&p, &s),
        "pattern after a then a'"
    );
    Ok(())
}

pub fn c04(r: &mut Rng, idx: u64) -> R {
    let p = gen_puz(r, idx);
    let (a, b) = (gen_t(r, &p), gen_t(r, &p));
    let small = |r: &mut Rng| r.range(-9, 9);
    let n = if r.chance(1, 4) {
        let sh = r.below(31);
        r.range(-(1 << sh), 1 << sh).clamp(-(i32::MAX as i64), i32::MAX as i64)
    } else {
        small(r)
    };
    let n = if r.chance(1, 20) { *r.pick(&[i32::MAX as i64, -(i32::MAX as i64)]) } else { n };
    let m = small(r);
    note!("puzzle {:?}\na {:?}\nb {:?}\nn {} m {}", p, a, b, n, m);
    let mut mvs = HashMap::new();
    mvs.insert(r_move(&Pre::None, "A", 1), t_data(&p, &a));
    mvs.insert(r_move(&Pre::None, "B", 1), t_data(&p, &b));
    let k = KPuzzle::try_new(def(&p, mvs, None)).map_err(|e| format!("valid definition rejected: {}", e))?;
    let t = |x: i64| -> Result<KTransformation, String> {
        k.transformation_from_move(&r_move(&Pre::None, "A", x as i32)).map_err(|e| e.to_string())
    };
    let tn = t(n)?;
    eq!(read_t(&p, &tn)?, m_pow(&p, &a, n), format!("move with amount {}", n));
    if let Ok(sum) = i32::try_from(n + m) {
        if sum != i32::MIN {
            eq!(
                read_t(&p, &tn.apply_transformation(&t(m)?))?,
                read_t(&p, &t(n + m)?)?,
                format!("amounts {} then {} versus {}", n, m, n + m)
            );
        }
    }
    let ab = vec![mv("A", 1), mv("B", 1)];
    let g = r_alg(&[N::Grp(ab, n as i32)]);
    let tg = k.transformation_from_alg(&g).map_err(|e| e.to_string())?;
    eq!(read_t(&p, &tg)?, m_pow(&p, &m_comp(&p, &a, &b), n), format!("group (A B){}", n));
    // groups in groups: each amount on its own, whatever their product
    let l = if r.chance(1, 2) { small(r) } else { r.range(-100_000, 100_000) };
    let nested = r_alg(&[N::Grp(vec![N::Grp(vec![mv("A", m as i32)], n as i32)], l as i32)]);
    note!("((A{}){}){}", m, n, l);
    let tg = k.transformation_from_alg(&nested).map_err(|e| e.to_string())?;
    eq!(read_t(&p, &tg)?, m_pow(&p, &m_pow(&p, &m_pow(&p, &a, m), n), l), format!("group ((A{}){}){}", m, n, l));
    Ok(())
}

#[derive(Clone, Debug)]
pub enum Src {
    T(MT),
    A(Vec<N>),
}
/// definitions: key (prefix, family, amount) -> source
type Defs = Vec<((Pre, String, i32), Src)>;
fn find<'a>(d: &'a Defs, k: &(Pre, String, i32), direct: bool) -> Option<&'a ((Pre, String, i32), Src)> {
    d.iter().find(|(x, s)| x == k && matches!(s, Src::T(_)) == direct)
}
fn m_lookup<'a>(d: &'a Defs, p: &Pre, f: &str, a: i32) -> Option<(&'a (Pre, String, i32), &'a Src, i32)> {
    let inv = match inv_move(p, f, a) {
        N::Mv(p, f, a) => (p, f, a),
        _ => unreachable!(),
    };
    for (key, rel) in [((p.clone(), f.to_owned(), 1), a), ((p.clone(), f.to_owned(), a), 1), (inv, -1)] {
        for direct in [true, false] {
            if let Some((k, s)) = find(d, &key, direct) {
                return Some((k, s, rel));
            }
        }
    }
    None
}
fn m_eval(p: &MPuz, d: &Defs, alg: &[N]) -> Option<MT> {
    let mut t = m_id(p);
    for n in alg {
        let e = match n {
            N::Mv(pr, f, a) => {
                let (_, s, rel) = m_lookup(d, pr, f, *a)?;
                let base = match s {
                    Src::T(t) => t.clone(),
                    Src::A(x) => m_eval(p, d, x)?,
                };
                m_pow(p, &base, rel as i64)
            }
            N::Pause | N::Nl | N::Com(_) => m_id(p),
            N::Grp(x, k) => m_pow(p, &m_eval(p, d, x)?, *k as i64),
            N::Comm(x, y) => {
                let (a, b) = (m_eval(p, d, x)?, m_eval(p, d, y)?);
                let (ai, bi) = (m_eval(p, d, &inv_alg(x))?, m_eval(p, d, &inv_alg(y))?);
                m_comp(p, &m_comp(p, &m_comp(p, &a, &b), &ai), &bi)
            }
            N::Conj(x, y) => {
                let (a, b) = (m_eval(p, d, x)?, m_eval(p, d, y)?);
                let ai = m_eval(p, d, &inv_alg(x))?;
                m_comp(p, &m_comp(p, &a, &b), &ai)
            }
        };
        t = m_comp(p, &t, &e);
    }
    Some(t)
}
fn real_def(p: &MPuz, d: &Defs) -> KPuzzleDefinition {
    let mut mvs = HashMap::new();
    let mut der = HashMap::new();
    for ((pr, f, a), s) in d {
        let key = r_move(pr, f, *a);
        match s {
            Src::T(t) => {
                mvs.insert(key, t_data(p, t));
            }
            Src::A(x) => {
                der.insert(key, r_alg(x));
            }
        }
    }
    let none = der.is_empty();
    def(p, mvs, if none { None } else { Some(der) })
}
/// direct moves named by `direct`, then derived moves that only use moves already there
fn gen_defs(r: &mut Rng, p: &MPuz, direct: &[&str], derived: &[&str]) -> Defs {
    let mut d: Defs = vec![];
    let amt = |r: &mut Rng| if r.chance(4, 5) { 1 } else { *r.pick(&[2, -1, -2, 3, 0]) };
    for f in direct {
        let a = amt(r);
        d.push(((Pre::None, (*f).to_owned(), a), Src::T(gen_t(r, p))));
    }
    let mut avail: Vec<((Pre, String), i32)> = d.iter().map(|(k, _)| ((k.0.clone(), k.1.clone()), k.2)).collect();
    for f in derived {
        let a = amt(r);
        let mut x = gen_alg(r, &["_"], 2, 3, false);
        fn fix(r: &mut Rng, v: &mut [N], avail: &[((Pre, String), i32)]) {
            for n in v.iter_mut() {
                match n {
                    N::Mv(p, f, am) => {
                        let ((pp, ff), key) = r.pick(avail).clone();
                        *p = pp;
                        *f = ff;
                        if key != 1 {
                            *am = if r.chance(1, 2) { key } else { -key };
                        }
                    }
                    N::Grp(x, _) => fix(r, x, avail),
                    N::Comm(x, y) | N::Conj(x, y) => {
                        fix(r, x, avail);
                        fix(r, y, avail)
                    }
                    _ => {}
                }
            }
        }
        fix(r, &mut x, &avail);
        d.push(((Pre::None, (*f).to_owned(), a), Src::A(x)));
        avail.push(((Pre::None, (*f).to_owned()), a));
    }
    d
}

pub fn c05(r: &mut Rng, idx: u64) -> R {
    let p = gen_puz(r, if idx % 16 == 9 { idx } else { idx % 40 });
    let derived: &[&str] = if r.chance(1, 2) { &["X", "Y"] } else { &[] };
    let d = gen_defs(r, &p, &["A", "B", "C"], derived);
    let fams: &[&str] = if r.chance(1, 6) { &["A", "B", "C", "X", "Z"] } else { &["A", "B", "C"] };
    let alg = gen_alg(r, fams, 3, 4, false);
    note!("puzzle {:?}\ndefinitions {:?}\nalg {:?}", p, d, alg);
    let k = KPuzzle::try_new(real_def(&p, &d)).map_err(|e| format!("valid definition rejected: {}", e))?;
    let ra = r_alg(&alg);
    let s = gen_p(r, &p);
    let ps = real_p(&k, &p, &s, true)?;
    let want = m_eval(&p, &d, &alg);
    match (k.transformation_from_alg(&ra), &want) {
        (Ok(t), Some(w)) => eq!(read_t(&p, &t)?, *w, "transformation_from_alg"),
        (Err(_), None) => {}
        (Ok(_), None) => return Err("evaluation succeeded although a needed move does not exist".to_owned()),
        (Err(e), Some(_)) => return Err(format!("evaluation failed although every needed move exists: {}", e)),
    }
    match (ps.apply_alg(&ra), &want) {
        (Ok(x), Some(w)) => eq!(read_p(&p, &x)?, m_act(&p, &s, w), "apply_alg"),
        (Err(_), None) => {}
        (Ok(_), None) => return Err("apply_alg succeeded although a needed move does not exist".to_owned()),
        (Err(e), Some(_)) => return Err(format!("apply_alg failed although every needed move exists: {}", e)),
    }
    for f in ["A", "X", "Z"] {
        let a = amount(r, false);
        let m = m_eval(&p, &d, &[mv(f, a)]);
        match (ps.apply_move(&r_move(&Pre::None, f, a)), &m) {
            (Ok(x), Some(w)) => eq!(read_p(&p, &x)?, m_act(&p, &s, w), format!("apply_move {}{}", f, a)),
            (Err(_), None) => {}
            (Ok(_), None) => return Err(format!("apply_move {}{} succeeded although it does not exist", f, a)),
            (Err(e), Some(_)) => return Err(format!("apply_move {}{} failed: {}", f, a, e)),
        }
    }
    Ok(())
}

pub fn c06(r: &mut Rng, idx: u64) -> R {
    let p: MPuz = vec![MO { name: "P".to_owned(), n: r.range(3, 7) as usize, k: r.range(3, 9) as u8 }];
    let mut d: Defs = vec![];
    let fams = ["A", "B", "_SLASH_"];
    // prefixes that are easily taken for one another
    let all = [
        Pre::None, Pre::Layer(2), Pre::Range(2, 3), Pre::Layer(1), Pre::Layer(0), Pre::Layer(3), Pre::Range(3, 2), Pre::Range(2, 2), Pre::Range(1, 2), Pre::Range(1, 1), Pre::Range(0, 2), Pre::Range(2, 0), Pre::Range(1, 3),
        Pre::Range(0, 0), Pre::Layer(23), Pre::Layer(u32::MAX), Pre::Range(2, u32::MAX), Pre::Range(u32::MAX, 2), Pre::Layer(65538), Pre::Layer(258),
    ];
    let pres: Vec<Pre> = if idx % 3 == 0 { all[..3].to_vec() } else { let mut v = vec![Pre::None]; for _ in 0..4 { v.push(r.pick(&all).clone()); } v };
    for f in fams {
        for pre in &pres {
            let sparse = r.range(2, 6) as u64;
            if d.iter().any(|x| x.0.0 == *pre && x.0.1 == f) || r.chance(1, 4) {
                continue;
            }
            for a in [-3, -2, -1, 0, 1, 2, 3] {
                if r.chance(1, sparse) {
                    d.push(((pre.clone(), f.to_owned(), a), Src::T(gen_t(r, &p))));
                }
                if r.chance(1, sparse) {
                    d.push(((pre.clone(), f.to_owned(), a), Src::A(vec![mv("Q", 1), N::Grp(vec![mv("W", 1), mv("Q", 1)], r.range(1, 9) as i32)])));
                }
            }
        }
    }
    d.push(((Pre::None, "Q".to_owned(), 1), Src::T(gen_t(r, &p))));
    d.push(((Pre::None, "W".to_owned(), 1), Src::T(gen_t(r, &p))));
    note!("puzzle {:?}\ndefinitions {:?}", p, d);
    let k = KPuzzle::try_new(real_def(&p, &d)).map_err(|e| format!("valid definition rejected: {}", e))?;
    for f in ["A", "B", "_SLASH_", "C"] {
        for pre in &pres {
            for a in -5..=5 {
                let want = m_eval(&p, &d, &[N::Mv(pre.clone(), f.to_owned(), a)]);
                let w = format!("move {:?} {} {}", pre, f, a);
                match (k.transformation_from_move(&r_move(pre, f, a)), &want) {
                    (Ok(t), Some(x)) => eq!(read_t(&p, &t)?, *x, w),
                    (Err(_), None) => {}
                    (Ok(_), None) => return Err(format!("{} resolves, but no definition applies", w)),
                    (Err(e), Some(_)) => return Err(format!("{} does not resolve, but a definition applies: {}", w, e)),
                }
            }
        }
    }
    Ok(())
}

/// which definition keys does evaluating this alg need (None: a move does not exist)
fn deps(d: &Defs, alg: &[N], out: &mut Vec<usize>) -> Option<()> {
    for n in alg {
        match n {
            N::Mv(p, f, a) => {
                let (k, s, _) = m_lookup(d, p, f, *a)?;
                let i = d.iter().position(|(x, y)| x == k && matches!(y, Src::T(_)) == matches!(s, Src::T(_))).unwrap();
                out.push(i);
            }
            N::Grp(x, _) => deps(d, x, out)?,
            N::Comm(x, y) => {
                deps(d, x, out)?;
                deps(d, y, out)?;
                deps(d, &inv_alg(x), out)?;
                deps(d, &inv_alg(y), out)?;
            }
            N::Conj(x, y) => {
                deps(d, x, out)?;
                deps(d, y, out)?;
                deps(d, &inv_alg(x), out)?;
            }
            _ => {}
        }
    }
    Some(())
}
/// 0 = fine, 1 = recursive, 2 = missing move (reachable from some derived move)
fn m_check(d: &Defs) -> u32 {
    fn go(d: &Defs, i: usize, st: &mut Vec<u8>) -> u32 {
        match st[i] {
            1 => return 1,
            2 => return 0,
            _ => {}
        }
        st[i] = 1;
        if let Src::A(x) = &d[i].1 {
            let mut o = vec![];
            if deps(d, x, &mut o).is_none() {
                return 2;
            }
            for j in o {
                let e = go(d, j, st);
                if e != 0 {
                    return e;
                }
            }
        }
        st[i] = 2;
        0
    }
    let mut st = vec![0; d.len()];
    for i in 0..d.len() {
        if let ((p, f, a), Src::A(_)) = &d[i] {
            // the definition that the key itself resolves to
            let (k, s, _) = m_lookup(d, p, f, *a).unwrap();
            let j = d.iter().position(|(x, y)| x == k && matches!(y, Src::T(_)) == matches!(s, Src::T(_))).unwrap();
            let e = go(d, j, &mut st);
            if e != 0 {
                return e;
            }
        }
    }
    0
}

pub fn c07(r: &mut Rng, _idx: u64) -> R {
    let p: MPuz = vec![MO { name: "P".to_owned(), n: 3, k: 2 }];
    let mut d: Defs = vec![];
    let key = |r: &mut Rng, f: &str| (Pre::None, f.to_owned(), if r.chance(2, 3) { 1 } else { *r.pick(&[2, -2, -1, 3]) });
    let nd = r.range(1, 2);
    for f in ["A", "B"].iter().take(nd as usize) {
        let kk = key(r, f);
        d.push((kk, Src::T(gen_t(r, &p))));
    }
    let nx = r.range(1, 4) as usize;
    let names = ["W", "X", "Y", "Z", "_SLASH_", "A"];
    for f in names.iter().take(nx) {
        for _ in 0..r.range(1, 2) {
            let kk = key(r, f);
            if find(&d, &kk, false).is_some() {
                continue;
            }
            // mostly small algs, moves from all names
            let fams: Vec<&str> = if r.chance(1, 2) { vec!["A", "B"] } else { ["A", "B"].iter().chain(names.iter().take(nx)).cloned().collect() };
            let x = gen_alg(r, &fams, 2, 2, false);
            d.push((kk, Src::A(x)));
        }
    }
    note!("definitions {:?}", d);
    let want = m_check(&d);
    match KPuzzle::try_new(real_def(&p, &d)) {
        Ok(k) => {
            ok!(
                want == 0,
                "the puzzle was accepted although a derived move {}",
                if want == 1 { "depends on itself" } else { "uses a move that does not exist" }
            );
            for ((pre, f, a), _) in &d {
                for x in [*a, -*a, 1, 2] {
                    if let Ok(t) = k.transformation_from_move(&r_move(pre, f, x)) {
                        read_t(&p, &t)?;
                    }
                }
                ok!(
                    k.transformation_from_move(&r_move(pre, f, *a)).is_ok(),
                    "defined move {:?} {} {} does not evaluate on the accepted puzzle", pre, f, a
                );
            }
            let ns: Vec<&str> = ["A", "B", "W", "X"].to_vec();
            let alg = gen_alg(r, &ns, 2, 3, false);
            let _ = k.transformation_from_alg(&r_alg(&alg));
            Ok(())
        }
        Err(e) => {
            ok!(want != 0, "the puzzle was rejected although no derived move is recursive and every used move exists: {}", e);
            Ok(())
        }
    }
}

pub fn c08(r: &mut Rng, idx: u64) -> R {
    let k0 = (idx % 256) as u8;
    let n = if idx < 256 { 2 } else { r.range(1, 200) as usize };
    note!("numOrientations {} numPieces {}", k0, n);
    let p: MPuz = vec![MO { name: "P".to_owned(), n, k: k0 }];
    // whatever else the puzzle has, and however many pieces the orbit has
    let mut others: MPuz = vec![MO { name: "P".to_owned(), n: *r.pick(&[0, 1, n]), k: k0 }];
    for i in 0..r.below(3) {
        let at = r.below(others.len() as u64 + 1) as usize;
        others.insert(at, MO { name: format!("Q{}", i), n: r.below(3) as usize, k: r.range(1, 107) as u8 });
    }
    note!("and {:?}", others);
    let more = tryp("KPuzzle::try_new", || KPuzzle::try_new(def(&others, HashMap::new(), None)))?;
    ok!(more.is_ok() == (1..=107).contains(&k0), "a puzzle with orbits {:?} was {}", others, if more.is_ok() { "accepted" } else { "rejected" });
    let res = tryp("KPuzzle::try_new", || KPuzzle::try_new(def(&p, HashMap::new(), None)))?;
    if k0 == 0 || k0 > 107 {
        ok!(res.is_err(), "a puzzle with {} orientations was accepted", k0);
        return Ok(());
    }
    let k = res.map_err(|e| format!("a puzzle with {} orientations was rejected: {}", k0, e))?;
    let info = infos(&k, &p)?[0];
    let mut pat = k.default_pattern();
    let mut seen: HashMap<u8, (u8, u8)> = HashMap::new();
    let mut pairs = vec![];
    for m in std::iter::once(0).chain(divisors(k0)) {
        for o in 0..(if m == 0 { k0 } else { m }) {
            pairs.push((o, m));
        }
    }
    let mut ts = vec![];
    for delta in 0..k0 {
        let mut t = k.identity_transformation();
        for i in 0..n {
            t.set_orientation_delta(info, i as u8, delta);
        }
        ts.push(t);
    }
    for (o, m) in pairs {
        let i = r.below(n as u64) as u8;
        let want = norm(k0, (o, m));
        pat.set_orientation_with_mod(info, i, &OrientationWithMod { orientation: o, orientation_mod: m });
        let g = pat.get_orientation_with_mod(info, i);
        eq!((g.orientation, g.orientation_mod), want, format!("stored pair {:?} read back", (o, m)));
        let b = unsafe { pat.packed_orbit_data().get_raw_orientation_value(info, i) };
        if let Some(old) = seen.insert(b, want) {
            ok!(old == want, "pairs {:?} and {:?} are both stored as byte {}", old, want, b);
        }
        let lim = if want.1 == 0 { k0 } else { want.1 } as u32;
        for (delta, t) in ts.iter().enumerate() {
            let q = pat.apply_transformation(t);
            let g = q.get_orientation_with_mod(info, i);
            let w = (((o as u32 + delta as u32) % lim) as u8, want.1);
            eq!((g.orientation, g.orientation_mod), w, format!("pair {:?} turned by {}", (o, m), delta));
            let mut direct = pat.clone();
            direct.set_orientation_with_mod(info, i, &OrientationWithMod { orientation: w.0, orientation_mod: w.1 });
            let x = unsafe { (q.packed_orbit_data().get_raw_orientation_value(info, i), direct.packed_orbit_data().get_raw_orientation_value(info, i)) };
            eq!(x.0, x.1, format!("byte of pair {:?} turned by {}", (o, m), delta));
        }
    }
    Ok(())
}

pub fn c09(r: &mut Rng, idx: u64) -> R {
    let p = gen_puz(r, idx);
    let k = build(&p)?;
    let (t, s) = (gen_t(r, &p), gen_p(r, &p));
    // valid data
    note!("puzzle {:?}\ntransformation {:?}\npattern {:?}", p, t, s);
    let td = t_data(&p, &t);
    let rt = tryp("KTransformation::try_from_data", || KTransformation::try_from_data(&k, &td))?
        .map_err(|e| format!("valid transformation data was rejected: {}", e))?;
    eq!(read_t(&p, &rt)?, t, "transformation read back");
    ok!(rt.to_data() == td, "KTransformation::to_data gives {:?} for {:?}", rt.to_data(), td);
    let fm = r.chance(1, 2);
    let pd = p_data(&p, &s, fm);
    let rp = tryp("KPattern::try_from_data", || KPattern::try_from_data(&k, &pd))?
        .map_err(|e| format!("valid pattern data was rejected: {}", e))?;
    eq!(read_p(&p, &rp)?, m_norm(&p, &s), "pattern read back");
    let wd = p_data(&p, &m_norm(&p, &s), true);
    ok!(
        wd.iter().all(|(k, v)| rp.to_data().get(k).map_or(false, |x| {
            x.pieces == v.pieces
                && x.orientation == v.orientation
                && x.orientation_mod.clone().unwrap_or(vec![0; v.pieces.len()])
                    == v.orientation_mod.clone().unwrap_or(vec![0; v.pieces.len()])
        })) && rp.to_data().len() == wd.len(),
        "KPattern::to_data gives {:?}, expected {:?}", rp.to_data(), wd
    );
    let again = KPattern::try_from_data(&k, &rp.to_data()).map_err(|e| format!("to_data of a pattern was rejected: {}", e))?;
    eq!(read_p(&p, &again)?, m_norm(&p, &s), "pattern converted to data and back");
    // damaged data: mutate one thing, and judge by an independent validity test
    for _ in 0..6 {
        let mut td = t_data(&p, &t);
        mutate_t(r, &p, &mut td);
        let valid = t_valid(&p, &td);
        note!("mutated transformation data {:?}", td);
        let g = tryp("KTransformation::try_from_data", || KTransformation::try_from_data(&k, &td).map(|x| read_t(&p, &x)))?;
        match g {
            Ok(x) => {
                ok!(valid, "invalid transformation data was accepted: {:?}", td);
                let x = x?;
                for (o, mo) in p.iter().enumerate() {
                    let e = &td[&KPuzzleOrbitName(mo.name.clone())];
                    eq!(x[o].0, e.permutation, "permutation read back");
                    eq!(x[o].1, e.orientation_delta, "delta read back");
                }
            }
            Err(e) => ok!(!valid, "valid transformation data was rejected: {} ({:?})", e, td),
        }
        let mut pd = p_data(&p, &s, r.chance(1, 2));
        mutate_p(r, &p, &mut pd);
        let valid = p_valid(&p, &pd);
        note!("mutated pattern data {:?}", pd);
        let g = tryp("KPattern::try_from_data", || KPattern::try_from_data(&k, &pd).map(|x| read_p(&p, &x)))?;
        match g {
            Ok(x) => {
                ok!(valid, "invalid pattern data was accepted: {:?}", pd);
                let x = x?;
                for (o, mo) in p.iter().enumerate() {
                    let e = &pd[&KPuzzleOrbitName(mo.name.clone())];
                    eq!(x[o].0, e.pieces, "pieces read back");
                    for i in 0..mo.n {
                        let m = e.orientation_mod.as_ref().map_or(0, |v| v[i]);
                        eq!(x[o].1[i], norm(mo.k, (e.orientation[i], m)), "orientation read back");
                    }
                }
            }
            Err(e) => ok!(!valid, "valid pattern data was rejected: {} ({:?})", e, pd),
        }
        // a definition with this direct move builds exactly when its data is valid
        let mut mvs = HashMap::new();
        let tv = t_valid(&p, &td);
        mvs.insert(r_move(&Pre::None, "A", 1), td);
        let g = tryp("KPuzzle::try_new", || KPuzzle::try_new(def(&p, mvs, None)))?;
        ok!(g.is_ok() == tv, "a puzzle whose direct move has {} data was {}", if tv { "valid" } else { "invalid" }, if tv { "rejected" } else { "accepted" });
    }
    Ok(())
}
fn pos(r: &mut Rng, n: usize) -> usize {
    match r.below(3) {
        0 => 0,
        1 => n - 1,
        _ => r.below(n as u64) as usize,
    }
}
fn mut_vec(r: &mut Rng, v: &mut Vec<u8>, lims: &[u32]) {
    match r.below(6) {
        0 => {
            v.pop();
        }
        1 => v.push(0),
        _ => {
            if !v.is_empty() {
                let i = pos(r, v.len());
                let l = *r.pick(lims);
                v[i] = match r.below(5) {
                    0 => l,
                    1 => l.saturating_sub(1),
                    2 => l + 1,
                    3 => 255,
                    _ => r.below(256) as u32,
                }
                .min(255) as u8;
            }
        }
    }
}
fn mutate_t(r: &mut Rng, p: &MPuz, d: &mut KTransformationData) {
    if p.is_empty() {
        return;
    }
    let o = r.pick(p).clone();
    let key = KPuzzleOrbitName(o.name.clone());
    match r.below(14) {
        0 => {
            d.remove(&key);
        }
        1 => {
            let v = d[&key].clone();
            d.insert(KPuzzleOrbitName("EXTRA".to_owned()), v);
        }
        // repeated entries with the right sum, or the right sum and xor
        12 => {
            let v = &mut d.get_mut(&key).unwrap().permutation;
            let (i, j) = (pos(r, v.len().max(1)), pos(r, v.len().max(1)));
            if i < v.len() && j < v.len() && i != j {
                let x = 1 + r.below(2) as u8;
                v[i] = v[i].wrapping_add(x);
                v[j] = v[j].wrapping_sub(x);
            }
        }
        13 => {
            let v = &mut d.get_mut(&key).unwrap().permutation;
            if v.len() >= 4 {
                // {a, a^b, ..} pairs: 0 3 and 1 2 have one sum and one xor
                let b = 4 * r.below(v.len() as u64 / 4) as u8;
                let low = r.chance(1, 2);
                for e in v.iter_mut() {
                    if *e & !3 == b {
                        *e = b + match (*e & 3, low) { (0 | 1, true) => 1, (_, true) => 2, (0 | 1, false) => 0, (_, false) => 3 };
                    }
                }
            }
        }
        2..=4 => mut_vec(r, &mut d.get_mut(&key).unwrap().orientation_delta, &[o.k as u32]),
        5 | 6 => {
            let v = &mut d.get_mut(&key).unwrap().permutation;
            if v.len() > 1 {
                let (i, j) = (pos(r, v.len()), pos(r, v.len()));
                v[i] = v[j];
            }
        }
        _ => mut_vec(r, &mut d.get_mut(&key).unwrap().permutation, &[o.n as u32]),
    }
}
fn mutate_p(r: &mut Rng, p: &MPuz, d: &mut KPatternData) {
    if p.is_empty() {
        return;
    }
    let o = r.pick(p).clone();
    let key = KPuzzleOrbitName(o.name.clone());
    match r.below(12) {
        0 => {
            d.remove(&key);
        }
        1 => mut_vec(r, &mut d.get_mut(&key).unwrap().pieces, &[o.n as u32]),
        2..=5 => {
            let ds: Vec<u32> = divisors(o.k).iter().map(|x| *x as u32).collect();
            mut_vec(r, &mut d.get_mut(&key).unwrap().orientation, &ds)
        }
        _ => {
            let n = o.n;
            let ds: Vec<u32> = divisors(o.k).iter().map(|x| *x as u32).collect();
            let e = d.get_mut(&key).unwrap();
            if e.orientation_mod.is_none() {
                e.orientation_mod = Some(vec![0; n]);
            }
            mut_vec(r, e.orientation_mod.as_mut().unwrap(), &ds)
        }
    }
}
fn t_valid(p: &MPuz, d: &KTransformationData) -> bool {
    p.iter().all(|o| match d.get(&KPuzzleOrbitName(o.name.clone())) {
        None => false,
        Some(e) => {
            e.permutation.len() == o.n
                && e.orientation_delta.len() == o.n
                && (0..o.n).all(|x| e.permutation.iter().filter(|y| **y as usize == x).count() == 1)
                && e.orientation_delta.iter().all(|x| *x < o.k)
        }
    })
}
fn p_valid(p: &MPuz, d: &KPatternData) -> bool {
    p.iter().all(|o| match d.get(&KPuzzleOrbitName(o.name.clone())) {
        None => false,
        Some(e) => {
            e.pieces.len() == o.n
                && e.orientation.len() == o.n
                && e.orientation_mod.as_ref().map_or(true, |v| v.len() == o.n)
                && (0..o.n).all(|i| {
                    let m = e.orientation_mod.as_ref().map_or(0, |v| v[i]);
                    if m == 0 {
                        e.orientation[i] < o.k
                    } else {
                        o.k % m == 0 && e.orientation[i] < m
                    }
                })
        }
    })
}

/// one run of a script of operations; everything observable is returned
fn c10_script(seed: u64, idx: u64) -> Result<Vec<Vec<u8>>, String> {
    let mut r = Rng::new(seed, "C10s", idx);
    let r = &mut r;
    let mut out: Vec<Vec<u8>> = vec![];
    let p = if idx % 16 == 0 { vec![MO { name: "Z".to_owned(), n: 0, k: 1 }] } else { gen_puz(r, idx) };
    note!("puzzle {:?}", p);
    let k = build(&p)?;
    let mut ts: Vec<(KTransformation, MT)> = vec![(k.identity_transformation(), m_id(&p))];
    let t = gen_t(r, &p);
    ts.push((real_t(&k, &p, &t, true)?, t));
    let s = gen_p(r, &p);
    let mut ps: Vec<(KPattern, MP)> = vec![(real_p(&k, &p, &s, true)?, m_norm(&p, &s))];
    for step in 0..12 {
        let (i, j, q) = (r.below(ts.len() as u64) as usize, r.below(ts.len() as u64) as usize, r.below(ps.len() as u64) as usize);
        let op = r.below(9);
        note!("step {}: op {} on t{} t{} p{}", step, op, i, j, q);
        match op {
            0 => {
                let v = (ts[i].0.apply_transformation(&ts[j].0), m_comp(&p, &ts[i].1, &ts[j].1));
                ts.push(v)
            }
            1 => {
                let v = (ts[i].0.invert(), m_inv(&p, &ts[i].1));
                ts.push(v)
            }
            2 => {
                let v = (ps[q].0.apply_transformation(&ts[i].0), m_act(&p, &ps[q].1, &ts[i].1));
                ps.push(v)
            }
            3 => {
                let v = ps[q].clone();
                ps.push(v)
            }
            4 => {
                let v = ts[i].clone();
                ts.push(v)
            }
            5 | 6 => {
                // distinct cells do not share bytes: write every cell, then read every cell
                for (o, info) in infos(&k, &p)?.into_iter().enumerate() {
                    for x in 0..p[o].n {
                        let v = r.below(256) as u8;
                        ps[q].0.set_piece(info, x as u8, v);
                        ps[q].1[o].0[x] = v;
                        let w = r.below(p[o].k as u64) as u8;
                        ps[q].0.set_orientation_with_mod(info, x as u8, &OrientationWithMod { orientation: w, orientation_mod: 0 });
                        ps[q].1[o].1[x] = (w, 0);
                    }
                }
            }
            7 => {
                let nt = gen_t(r, &p);
                ts[i] = (real_t(&k, &p, &nt, false)?, nt);
            }
            _ => {
                if ps.len() > 1 {
                    ps.swap_remove(q);
                }
                if ts.len() > 1 {
                    ts.swap_remove(i);
                }
            }
        }
        for (n, (a, m)) in ts.iter().enumerate() {
            eq!(read_t(&p, a)?, *m, format!("transformation t{} after step {}", n, step));
            out.push(unsafe { a.byte_slice() }.to_vec());
        }
        for (n, (a, m)) in ps.iter().enumerate() {
            eq!(read_p(&p, a)?, *m, format!("pattern p{} after step {}", n, step));
            out.push(unsafe { a.byte_slice() }.to_vec());
        }
    }
    // a transformation that the safe setters leave as a non-permutation
    if p.iter().any(|o| o.n > 1) {
        let mut t = k.identity_transformation();
        for (o, info) in infos(&k, &p)?.into_iter().enumerate() {
            for x in 0..p[o].n {
                t.set_permutation_idx(info, x as u8, r.below(p[o].n as u64) as u8);
            }
        }
        note!("non-permutation {:?}", read_t(&p, &t)?);
        out.push(unsafe { t.byte_slice() }.to_vec());
        let v = t.invert();
        out.push(unsafe { v.byte_slice() }.to_vec());
        out.push(unsafe { t.apply_transformation(&t).byte_slice() }.to_vec());
        out.push(unsafe { ps[0].0.apply_transformation(&v).byte_slice() }.to_vec());
        // out-of-range values must be refused by the safe setter
        for (o, info) in infos(&k, &p)?.into_iter().enumerate() {
            if p[o].n < 255 {
                let bad = p[o].n as u8;
                let mut t = k.identity_transformation();
                let i = 0u8;
                if (i as usize) < p[o].n {
                    let g = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| t.set_permutation_idx(info, i, bad)));
                    if g.is_ok() {
                        return Err(format!("set_permutation_idx stored the out-of-range value {} in orbit {:?}: applying the transformation reads out of bounds", bad, p[o]));
                    }
                }
                let mut s = k.default_pattern();
                if std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| s.set_piece(info, bad, 0))).is_ok() {
                    return Err(format!("set_piece wrote outside of orbit {:?}", p[o]));
                }
                if std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| s.get_piece(info, bad))).is_ok() {
                    return Err(format!("get_piece read outside of orbit {:?}", p[o]));
                }
                if std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| t.get_permutation_idx(info, bad))).is_ok()
                    || std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| t.get_orientation_delta(info, bad))).is_ok()
                    || std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| t.set_permutation_idx(info, bad, 0))).is_ok()
                    || std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| t.set_orientation_delta(info, bad, 0))).is_ok()
                    || std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                        s.get_orientation_with_mod(info, bad);
                    }))
                    .is_ok()
                    || std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                        s.set_orientation_with_mod(info, bad, &OrientationWithMod { orientation: 0, orientation_mod: 0 })
                    }))
                    .is_ok()
                {
                    return Err(format!("an accessor accepted position {} of orbit {:?}", bad, p[o]));
                }
            }
        }
    }
    // layout: every orbit's fields in their own bytes of the allocation
    let total: usize = p.iter().map(|o| 2 * o.n).sum();
    let id = k.identity_transformation();
    ok!(unsafe { id.byte_slice() }.len() == total, "byte_slice has {} bytes for {} cells", unsafe { id.byte_slice() }.len(), total);
    let mut used = vec![false; total];
    for (o, info) in infos(&k, &p)?.into_iter().enumerate() {
        for x in 0..p[o].n {
            for off in [info.pieces_or_permutations_offset + x, info.orientations_offset + x] {
                ok!(off < total && !used[off], "byte {} of orbit {:?} is shared or out of bounds", off, p[o]);
                used[off] = true;
            }
        }
    }
    Ok(out)
}

/// values of two puzzles of similar sizes, made and released in turns
fn c10_two(r: &mut Rng, idx: u64) -> R {
    let p = gen_puz(r, idx);
    let mut q = p.clone();
    for o in q.iter_mut() {
        o.n -= r.below(o.n as u64 / 3 + 1) as usize;
    }
    let ps = if r.chance(1, 2) { [p, q] } else { [q, p] };
    note!("puzzles {:?} and {:?}", ps[0], ps[1]);
    let ks = [build(&ps[0])?, build(&ps[1])?];
    let mut ts: Vec<(usize, KTransformation, MT)> = vec![];
    for _ in 0..r.range(6, 16) {
        let w = r.below(2) as usize;
        if !ts.is_empty() && r.chance(2, 5) {
            let i = r.below(ts.len() as u64) as usize;
            let (w, t, m) = ts.swap_remove(i);
            note!("release a value of {}", w);
            eq!(read_t(&ps[w], &t)?, m, "value before it is released");
        } else if !ts.is_empty() && r.chance(1, 3) {
            let i = r.below(ts.len() as u64) as usize;
            note!("invert a value of {}", ts[i].0);
            let w = ts[i].0;
            let v = (w, ts[i].1.invert(), m_inv(&ps[w], &ts[i].2));
            ts.push(v);
        } else {
            note!("make a value of {}", w);
            let m = gen_t(r, &ps[w]);
            ts.push((w, real_t(&ks[w], &ps[w], &m, r.chance(1, 2))?, m));
        }
        for (w, t, m) in &ts {
            eq!(read_t(&ps[*w], t)?, *m, "value of one of two puzzles");
        }
    }
    drop(ts);
    alloc::take()
}

pub fn c10(r: &mut Rng, idx: u64) -> R {
    if idx % 2 == 1 {
        c10_two(r, idx)?;
    }
    use std::sync::atomic::Ordering::SeqCst;
    let seed = r.next();
    let mut outs = vec![];
    for fill in [0x00u8, 0xff, 0x5b] {
        alloc::FILL.store(fill, SeqCst);
        outs.push(c10_script(seed, idx)?);
        alloc::take()?;
    }
    ok!(outs[0] == outs[1] && outs[0] == outs[2], "results depend on the previous contents of fresh memory (uninitialised bytes are read)");
    drop(outs);
    // released: number of live blocks is the same after repeating the script
    let mut live = [0u64; 3];
    for l in live.iter_mut() {
        crate::clear_notes();
        {
            let x = c10_script(seed, idx)?;
            drop(x);
        }
        crate::clear_notes();
        *l = alloc::LIVE.load(SeqCst);
    }
    ok!(live[1] == live[2], "running the script leaves {} block(s) unreleased", live[2] as i64 - live[1] as i64);
    alloc::take()
}

pub fn c14(r: &mut Rng, idx: u64) -> R {
    let p = gen_puz(r, idx);
    let k = build(&p)?;
    let (s, t0) = (gen_p(r, &p), gen_t(r, &p));
    note!("puzzle {:?}\ninitial pattern {:?}\ninitial transformation {:?}", p, s, t0);
    let mut pb = KPatternBuffer::from(real_p(&k, &p, &s, true)?);
    let mut tb = KTransformationBuffer::from(real_t(&k, &p, &t0, true)?);
    let (mut ms, mut mt) = (m_norm(&p, &s), t0);
    eq!(read_p(&p, pb.current())?, ms, "fresh pattern buffer");
    eq!(read_t(&p, tb.current())?, mt, "fresh transformation buffer");
    for i in 0..r.range(1, 7) {
        let t = gen_t(r, &p);
        note!("apply {:?}", t);
        let rt = real_t(&k, &p, &t, true)?;
        pb.apply_transformation(&rt);
        tb.apply_transformation(&rt);
        ms = m_act(&p, &ms, &t);
        mt = m_comp(&p, &mt, &t);
        eq!(read_p(&p, pb.current())?, ms, format!("pattern buffer after {} steps", i + 1));
        eq!(read_t(&p, tb.current())?, mt, format!("transformation buffer after {} steps", i + 1));
        // comparison, whichever of the two values is current
        let mut pb2 = KPatternBuffer::from(real_p(&k, &p, &ms, true)?);
        let mut tb2 = KTransformationBuffer::from(real_t(&k, &p, &mt, true)?);
        ok!(pb == pb2 && tb == tb2, "buffers with equal current values compare different");
        let u = gen_t(r, &p);
        pb2.apply_transformation(&real_t(&k, &p, &u, true)?);
        tb2.apply_transformation(&real_t(&k, &p, &u, true)?);
        ok!((pb == pb2) == (m_act(&p, &ms, &u) == ms), "pattern buffer comparison is wrong");
        ok!((tb == tb2) == (m_comp(&p, &mt, &u) == mt), "transformation buffer comparison is wrong");
        // both back to the same current value but different other value
        pb2.apply_transformation(&real_t(&k, &p, &m_inv(&p, &u), true)?);
        tb2.apply_transformation(&real_t(&k, &p, &m_inv(&p, &u), true)?);
        ok!(pb == pb2 && tb == tb2, "buffers with equal current values compare different (other values differ)");
    }
    // long histories (counters of any width): `u` and its inverse, in turn
    let long = if idx % 1024 == 7 { 66_000 } else if idx % 16 == 3 { r.range(250, 800) as usize } else { 0 };
    if long > 0 && p.iter().map(|o| o.n as usize).sum::<usize>() <= 24 {
        let u = gen_t(r, &p);
        let ui = m_inv(&p, &u);
        note!("then {} times in turn {:?} and its inverse", long, u);
        let (ru, rui) = (real_t(&k, &p, &u, true)?, real_t(&k, &p, &ui, true)?);
        let (ms1, mt1) = (m_act(&p, &ms, &u), m_comp(&p, &mt, &u));
        for i in 0..long {
            let x = if i % 2 == 0 { &ru } else { &rui };
            pb.apply_transformation(x);
            tb.apply_transformation(x);
            if i % 256 < 3 || i % 256 > 252 || i + 2 > long {
                let (es, et) = if i % 2 == 0 { (&ms1, &mt1) } else { (&ms, &mt) };
                eq!(&read_p(&p, pb.current())?, es, format!("pattern buffer after {} further steps", i + 1));
                eq!(&read_t(&p, tb.current())?, et, format!("transformation buffer after {} further steps", i + 1));
            }
        }
    }
    Ok(())
}

fn h<T: Hash>(x: &T) -> u64 {
    let mut s = DefaultHasher::new();
    x.hash(&mut s);
    s.finish()
}
/// the packed data of a pattern
macro_rules! pod {
    ($p:expr) => {
        unsafe { $p.packed_orbit_data() }
    };
}
pub fn c15(r: &mut Rng, idx: u64) -> R {
    let p = gen_puz(r, idx);
    let k = build(&p)?;
    let (s, t) = (gen_p(r, &p), gen_t(r, &p));
    note!("puzzle {:?}\npattern {:?}\ntransformation {:?}", p, s, t);
    let (rp, rt) = (real_p(&k, &p, &s, true)?, real_t(&k, &p, &t, true)?);
    let (mut cp, mut ct) = (rp.clone(), rt.clone());
    let ns = m_norm(&p, &s);
    eq!(read_p(&p, &cp)?, ns, "cloned pattern");
    eq!(read_t(&p, &ct)?, t, "cloned transformation");
    ok!(cp == rp && ct == rt && h(&cp) == h(&rp), "a clone is not equal to (or hashes unlike) the original");
    // independently built equal values
    let (ip, it) = (real_p(&k, &p, &ns, false)?, real_t(&k, &p, &t, false)?);
    ok!(ip == rp && it == rt && h(&ip) == h(&rp), "values with equal contents compare different or hash differently");
    ok!(!(ip != rp) && !(it != rt), "`!=` holds for equal values");
    // the packed data themselves, and `clone_from` over other values (of this puzzle and of another one)
    ok!(!(pod!(rp) != pod!(cp)) && pod!(rp) == pod!(cp), "packed data of equal patterns compare different");
    {
        let q = gen_puz(r, r.0 % 64);
        let kq = build(&q)?;
        let (oq, ot) = (gen_p(r, &q), gen_t(r, &q));
        let (s2, t2) = (gen_p(r, &p), gen_t(r, &p));
        let mut x = real_p(&k, &p, &s2, true)?;
        let mut y = real_t(&k, &p, &t2, true)?;
        let kept = x.clone();
        x.clone_from(&rp);
        y.clone_from(&rt);
        eq!(read_p(&p, &x)?, ns, "pattern cloned over another one");
        eq!(read_t(&p, &y)?, t, "transformation cloned over another one");
        eq!(read_p(&p, &kept)?, m_norm(&p, &s2), "earlier clone of a pattern that was cloned over");
        let mut d = pod!(kept).clone();
        d.clone_from(pod!(rp));
        ok!(d == *pod!(rp) && !(d != *pod!(rp)), "packed data cloned over other data differ from the original");
        eq!(read_p(&p, &rp)?, ns, "original pattern after cloning it over another one");
        let mut x = real_p(&kq, &q, &oq, true)?;
        let mut y = real_t(&kq, &q, &ot, true)?;
        x.clone_from(&rp);
        y.clone_from(&rt);
        eq!(read_p(&p, &x)?, ns, "pattern cloned over one of another puzzle");
        eq!(read_t(&p, &y)?, t, "transformation cloned over one of another puzzle");
        let mut v = vec![real_p(&k, &p, &s2, true)?, kept.clone()];
        v.clone_from(&vec![rp.clone(), rp.clone()]);
        eq!(read_p(&p, &v[0])?, ns, "pattern cloned over another one in a vector");
        eq!(read_p(&p, &v[1])?, ns, "pattern cloned over another one in a vector");
    }
    // change one cell
    let is = infos(&k, &p)?;
    for (o, info) in is.iter().enumerate() {
        if p[o].n == 0 {
            continue;
        }
        for i in [0, p[o].n - 1, r.below(p[o].n as u64) as usize] {
            let mut want = ns.clone();
            let v = r.below(256) as u8;
            cp.set_piece(info, i as u8, v);
            want[o].0[i] = v;
            eq!(read_p(&p, &cp)?, want, "changed clone");
            eq!(read_p(&p, &rp)?, ns, "original pattern after changing the clone");
            ok!((cp == rp) == (want == ns), "pattern equality is wrong after changing piece {} of orbit {}", i, o);
            ok!((cp != rp) == (want != ns), "`!=` of patterns is wrong after changing piece {} of orbit {}", i, o);
            ok!((pod!(cp) == pod!(rp)) == (want == ns), "packed data equality is wrong after changing piece {} of orbit {}", i, o);
            ok!((pod!(cp) != pod!(rp)) == (want != ns), "`!=` of packed data is wrong after changing piece {} of orbit {}", i, o);
            cp.set_piece(info, i as u8, ns[o].0[i]);
            ok!(cp == rp && h(&cp) == h(&rp), "restored clone is not equal");
            let w = (r.below(p[o].k as u64) as u8, 0);
            cp.set_orientation_with_mod(info, i as u8, &OrientationWithMod { orientation: w.0, orientation_mod: 0 });
            ok!((cp == rp) == (w == ns[o].1[i]), "pattern equality is wrong after changing orientation {} of orbit {}", i, o);
            eq!(read_p(&p, &rp)?, ns, "original pattern after changing the clone");
            let b = ns[o].1[i];
            cp.set_orientation_with_mod(info, i as u8, &OrientationWithMod { orientation: b.0, orientation_mod: b.1 });
            let d = r.below(p[o].k as u64) as u8;
            ct.set_orientation_delta(info, i as u8, d);
            ok!((ct != rt) == (d != t[o].1[i]), "`!=` of transformations is wrong after changing delta {} of orbit {}", i, o);
            ok!((ct == rt) == (d == t[o].1[i]), "transformation equality is wrong after changing delta {} of orbit {}", i, o);
            eq!(read_t(&p, &rt)?, t, "original transformation after changing the clone");
            ct.set_orientation_delta(info, i as u8, t[o].1[i]);
            let e = r.below(p[o].n as u64) as u8;
            ct.set_permutation_idx(info, i as u8, e);
            ok!((ct != rt) == (e != t[o].0[i]), "`!=` of transformations is wrong after changing entry {} of orbit {}", i, o);
            ok!((ct == rt) == (e == t[o].0[i]), "transformation equality is wrong after changing entry {} of orbit {}", i, o);
            ct.set_permutation_idx(info, i as u8, t[o].0[i]);
        }
    }
    // changing the original leaves the clone
    let mut orig = rp.clone();
    let kept = orig.clone();
    for (o, info) in is.iter().enumerate() {
        for i in 0..p[o].n {
            orig.set_piece(info, i as u8, r.below(256) as u8);
        }
    }
    eq!(read_p(&p, &kept)?, ns, "clone after changing the original");
    drop((rp, rt, cp, ct, ip, it, orig, kept));
    alloc::take()
}

/// `Move` values used as keys
pub fn _unused(_: &Move) {}
