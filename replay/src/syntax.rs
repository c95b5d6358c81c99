//! C12, C13, C18, C19: notation. An independent model of the grammar and of printing.
use crate::model::*;
use crate::note;
use crate::rng::Rng;
use crate::tryp;
use cubing_core::alg::*;

type R = Result<(), String>;

// ------------------------------------------------------------------ model of the grammar
struct P<'a> {
    s: &'a [char],
}
type O<T> = Option<(usize, T)>;
impl P<'_> {
    fn at(&self, i: usize, t: &str) -> bool {
        t.chars().enumerate().all(|(k, c)| self.s.get(i + k) == Some(&c))
    }
    fn run(&self, i: usize, f: impl Fn(char) -> bool) -> usize {
        let mut j = i;
        while j < self.s.len() && f(self.s[j]) {
            j += 1;
        }
        j
    }
    /// a number of at most max
    fn uint(&self, i: usize, max: u64) -> O<u64> {
        let j = self.run(i, |c| c.is_ascii_digit());
        if j == i {
            return None;
        }
        let mut v: u64 = 0;
        for c in &self.s[i..j] {
            v = v * 10 + c.to_digit(10).unwrap() as u64;
            if v > max {
                return None;
            }
        }
        Some((j, v))
    }
    fn prefix(&self, i: usize) -> O<Pre> {
        let (j, o) = self.uint(i, u32::MAX as u64)?;
        if self.at(j, "-") {
            let (k, n) = self.uint(j + 1, u32::MAX as u64)?;
            return Some((k, Pre::Range(o as u32, n as u32)));
        }
        Some((j, Pre::Layer(o as u32)))
    }
    fn quantum(&self, i: usize) -> O<(Pre, String)> {
        let (i, p) = self.prefix(i).unwrap_or((i, Pre::None));
        let j = self.run(i, |c| c.is_ascii_alphabetic() || c == '_');
        if j == i {
            return None;
        }
        Some((j, (p, self.s[i..j].iter().collect())))
    }
    fn nat(&self, i: usize) -> (usize, Option<i32>) {
        match self.uint(i, i32::MAX as u64) {
            Some((j, n)) => (j, Some(n as i32)),
            None => (i, None),
        }
    }
    fn suffix(&self, i: usize) -> (usize, i32) {
        let (i, n) = self.nat(i);
        let n = n.unwrap_or(1);
        if self.at(i, "'") {
            (i + 1, -n)
        } else {
            (i, n)
        }
    }
    fn mv(&self, i: usize) -> O<N> {
        if self.at(i, "/") {
            return Some((i + 1, mv("_SLASH_", 1)));
        }
        let (i, (p, f)) = self.quantum(i)?;
        for (t, k) in [("++", 1), ("--", -1)] {
            if self.at(i, t) {
                return Some((i + 2, N::Mv(p, f + "_PLUSPLUS_", k)));
            }
        }
        if let (j, Some(n)) = self.nat(i) {
            for (t, k) in [("+", 1), ("-", -1)] {
                if self.at(j, t) {
                    return Some((j + 1, N::Mv(p, f + "_PLUS_", n * k)));
                }
            }
        }
        let (j, k) = self.suffix(i);
        Some((j, N::Mv(p, f, k)))
    }
    fn int(&self, i: usize) -> O<i32> {
        if self.at(i, "-") {
            let (j, n) = self.uint(i + 1, i32::MAX as u64)?;
            return Some((j, -(n as i32)));
        }
        let (j, n) = self.uint(i, i32::MAX as u64)?;
        Some((j, n as i32))
    }
    fn tuple(&self, i: usize) -> O<N> {
        let (i, a) = self.int(i)?;
        if !self.at(i, ", ") {
            return None;
        }
        let (i, b) = self.int(i + 2)?;
        if !self.at(i, ")") {
            return None;
        }
        Some((i + 1, N::Grp(vec![mv("U_SQ_", a), mv("D_SQ_", b)], 1)))
    }
    fn node(&self, i: usize) -> O<N> {
        if self.at(i, "//") {
            let j = self.run(i + 2, |c| c != '\n');
            return Some((j, N::Com(self.s[i + 2..j].iter().collect())));
        }
        if let Some(x) = self.mv(i) {
            return Some(x);
        }
        match self.s.get(i)? {
            '.' => Some((i + 1, N::Pause)),
            '\n' => Some((i + 1, N::Nl)),
            '(' => {
                if let Some((j, v)) = self.alg(i + 1) {
                    if self.at(j, ")") {
                        let (j, k) = self.suffix(j + 1);
                        return Some((j, N::Grp(v, k)));
                    }
                }
                self.tuple(i + 1)
            }
            '[' => {
                let (j, a) = self.alg(i + 1)?;
                let comma = self.at(j, ",");
                if !comma && !self.at(j, ":") {
                    return None;
                }
                let (j, b) = self.alg(j + 1)?;
                if !self.at(j, "]") {
                    return None;
                }
                let (j, k) = self.suffix(j + 1);
                let n = if comma { N::Comm(a, b) } else { N::Conj(a, b) };
                Some((j, if k == 1 { n } else { N::Grp(vec![n], k) }))
            }
            _ => None,
        }
    }
    fn alg(&self, mut i: usize) -> O<Vec<N>> {
        let mut v: Vec<N> = vec![];
        loop {
            let j = self.run(i, |c| c == ' ');
            match self.node(j) {
                None => return Some((j, v)),
                Some((k, n)) => {
                    let apart = j > i || n == N::Nl || v.last().map_or(true, |p| matches!(p, N::Nl | N::Com(_)));
                    if !apart {
                        return None;
                    }
                    v.push(n);
                    i = k;
                }
            }
        }
    }
}
fn whole<T>(s: &str, f: impl Fn(&P) -> O<T>) -> Option<T> {
    let c: Vec<char> = s.chars().collect();
    let (j, v) = f(&P { s: &c })?;
    (j == c.len()).then_some(v)
}
fn m_alg(s: &str) -> Option<Vec<N>> {
    whole(s, |p| p.alg(0))
}
fn m_move(s: &str) -> Option<N> {
    whole(s, |p| p.mv(0))
}
fn m_quantum(s: &str) -> Option<(Pre, String)> {
    whole(s, |p| p.quantum(0))
}

// ------------------------------------------------------------------ model of printing
fn p_quantum(p: &Pre, f: &str) -> String {
    match p {
        Pre::None => f.to_owned(),
        Pre::Layer(l) => format!("{}{}", l, f),
        Pre::Range(a, b) => format!("{}-{}{}", a, b, f),
    }
}
fn p_amount(a: i32) -> String {
    let n = a.unsigned_abs();
    format!("{}{}", if n == 1 { String::new() } else { n.to_string() }, if a < 0 { "'" } else { "" })
}
fn p_move(p: &Pre, f: &str, a: i32) -> String {
    if *p == Pre::None && f == "_SLASH_" && a == 1 {
        return "/".to_owned();
    }
    match f.strip_suffix("_PLUS_") {
        Some(b) if !b.is_empty() => return format!("{}{}{}", p_quantum(p, b), a.unsigned_abs(), if a < 0 { '-' } else { '+' }),
        _ => {}
    }
    match f.strip_suffix("_PLUSPLUS_") {
        Some(b) if !b.is_empty() && a.unsigned_abs() == 1 => return p_quantum(p, b) + if a < 0 { "--" } else { "++" },
        _ => {}
    }
    p_quantum(p, f) + &p_amount(a)
}
fn p_in(v: &[N]) -> String {
    p_alg(v) + if matches!(v.last(), Some(N::Com(_))) { "\n" } else { "" }
}
fn p_node(n: &N) -> String {
    match n {
        N::Mv(p, f, a) => p_move(p, f, *a),
        N::Pause => ".".into(),
        N::Nl => "\n".into(),
        N::Com(t) => format!("//{}", t),
        N::Grp(v, 1) if is_tuple(v) => {
            let k = |n: &N| if let N::Mv(_, _, a) = n { *a } else { 0 };
            format!("({}, {})", k(&v[0]), k(&v[1]))
        }
        N::Grp(v, k) if *k != 1 && v.len() == 1 && matches!(v[0], N::Comm(..) | N::Conj(..)) => p_in(v) + &p_amount(*k),
        N::Grp(v, k) => format!("({}){}", p_in(v), p_amount(*k)),
        N::Comm(a, b) => format!("[{}, {}]", p_in(a), p_in(b)),
        N::Conj(a, b) => format!("[{}: {}]", p_in(a), p_in(b)),
    }
}
fn p_alg(v: &[N]) -> String {
    let mut s = String::new();
    for (i, n) in v.iter().enumerate() {
        if i > 0 {
            s += match (&v[i - 1], n) {
                (N::Com(_), N::Nl) => "",
                (N::Com(_), _) => "\n",
                (N::Nl, _) | (_, N::Nl) => "",
                _ => " ",
            };
        }
        s += &p_node(n);
    }
    s
}
/// the alg without newlines: what is compared for inverses (a printed comment may need one after it)
fn no_nl(v: &[N]) -> Vec<N> {
    v.iter()
        .filter(|n| **n != N::Nl)
        .map(|n| match n {
            N::Grp(v, k) => N::Grp(no_nl(v), *k),
            N::Comm(a, b) => N::Comm(no_nl(a), no_nl(b)),
            N::Conj(a, b) => N::Conj(no_nl(a), no_nl(b)),
            x => x.clone(),
        })
        .collect()
}

// ------------------------------------------------------------------ texts
const DIRECTED: &[&str] = &[
    "", " ", "R", "R'", "R2", "R2'", "R0", "R0'", "R1", "R1'", "R U", "RU", "R  U ", " R", "R\nU", "R\n U\n", "\n", "\n\n", "R //c\nU", "R//c", "//", "//a\n//b",
    "R //c", "(R)", "(R U)", "(R U)2'", "()", "()3", "( )", "( R )", "(R U", "R)", "[R, U]", "[R,U]", "[R:U]", "[R: U]'", "[R, U]2", "[,]", "[:]", "[ , ]", "[R U]", "[R",
    "[R,", "[R, U", "[[R, U], F]", "[[R: U]: F]3'", "([R, U])", "([R, U])2", "([R, U]2)2", "([R, U]2)", "(([R, U])2)2", "[R, U]1", "[R, U]1'", "[R, U]-1",
    "(1, 2)", "(-1, 2)", "(1, -2)", "(-0, 0)", "(1,2)", "(1, 2) ", "(1, 2)2", "(1, 2)'", "( 1, 2)", "(1 , 2)", "(1, 2) / (3, -4)", "(2147483647, -2147483647)",
    "(2147483648, 1)", "(1, -2147483648)", "(0, 0)", "(U_SQ_ D_SQ_)", "(U_SQ_2 D_SQ_3')", "(U_SQ_ D_SQ_)2", "(U_SQ_)", "(D_SQ_ U_SQ_)", "(2U_SQ_ D_SQ_)", "(U_SQ_ D_SQ_ R)", "(U_SQ_ R)", "(U_SQ_0 D_SQ_0)",
    "(U_SQ_ D_SQ_)'", "/", "//", "/ /", "/'", "/2", "R /", "R/", "_SLASH_", "_SLASH_'", "_SLASH_2", "2_SLASH_", "2-3_SLASH_", "R++", "R--", "2R++", "2-3R--", "R++ D--", "R++'", "R+", "R-", "R1+", "R3+",
    "R3-", "R0+", "R0-", "R2147483647+", "R2147483648+", "R2147483647-", "UR1+", "ALL6+", "2UL3-", "R_PLUS_", "R_PLUS_3", "R_PLUS_3'", "_PLUS_", "_PLUS_3", "_PLUSPLUS_", "_PLUSPLUS_'", "R_PLUSPLUS_",
    "R_PLUSPLUS_'", "R_PLUSPLUS_2", "R_PLUSPLUS_2'", "R_PLUSPLUS_0", "R_PLUS_PLUS_", "R_PLUS_++", "R_PLUS_2+", "R_PLUSPLUS_3-", "R_PLUSPLUS_++", "_PLUS_++", "_++", "_2+", "_", "__", "a_b", "rv", "Rw", "2Rw", "2-3r", "02-003r", "2-r", "-3r",
    "2r2'", "4294967295R", "4294967296R", "1-4294967295R", "1-4294967296R", "4294967295-1R", "0R", "00R2", "R00002", "R00002'", "R2147483647", "R2147483648", "R2147483647'", "R2147483648'",
    "R99999999999999999999", "(R)2147483647'", "(R)2147483648", "(R)-1", "R''", "R'2", "R 2", ".", "..", ". .", ". R", ".R", "R.", "R .", "(.)", "\t", "R\tU", "R\r\nU", "\u{e9}", "R\u{e9}", "R \u{1f600}", "//\u{1f600}\nR", "//\u{e9}\u{301}", "\u{b2}", "R\u{b2}", "\u{ff12}R", "R\u{660}",
    "\u{2019}", "R\u{2019}", "\u{a0}R", "(R //c\n)", "(R //c)", "[R //c\n, U]", "[R //c\n: U //d\n]2", "//c\n[R, U]", "//c\n(R)", "R //c\n//d\n\nU", "(//c\n)", "(\nR\n)", "[\n,\n]", "[R\n, U]", "[R,\nU]", "[R, U\n]",
    "(//(\n)", "(R)(U)", "(R) (U)", "(R)\n(U)", "[R, U][F, D]", "[R, U] [F, D]", "R(U)", "R [U, F]", "R[U, F]", "(R)U", "R U(", "R ,", ",", ":", "]", ")", "((((R))))", "[[[[R, U], U], U], U]",
];
const ATOMS: &[&str] = &[
    "R", "U", "F", "x", "Rw", "r", "_SLASH_", "U_SQ_", "D_SQ_", "R_PLUS_", "R_PLUSPLUS_", "_PLUS_", "_PLUSPLUS_", "UR", "ALL", "_", "a_",
    " ", " ", " ", " ", " ", "  ", "\n", "'", "'", "2", "0", "1", "3", "10", "2147483647", "2147483648", "4294967295", "4294967296", "007", "+", "-", "++", "--", "1+", "3-", "/", "//", "//c\n", "// d", ".", "(", ")", "(", ")", "[", "]", "[", "]", ",", ", ", ": ", ":", "(1, 2)",
    "(-3, 0)", "2-3", "2", "\u{e9}", "\t", "\u{2028}", "\0",
];
/// characters a lenient reader might drop or translate
const STRAYS: &[&str] = &[
    "\u{feff}", "\u{a0}", "\u{200b}", "\u{200c}", "\u{200d}", "\u{2060}", "\u{ad}", "\u{3000}", "\u{2028}", "\u{85}", "\u{2003}", "\u{2019}", "\u{2018}", "\u{2032}", "\u{b4}", "`", "\"", "\u{201c}", "\u{201d}",
    "\0", "\r", "\r\n", "\t", "\u{b}", "\u{c}", "\u{8}", "\u{1b}", "\u{7f}", ";", ",", ":", "?", "!", "#", "%", "&", "*", "=", "<", ">", "@", "\\", "^", "{", "}", "|", "~", "$", "\u{2212}", "\u{2013}", "\u{2014}", "\u{b7}",
    "\u{2026}", "\u{b2}", "\u{b3}", "\u{ff12}", "\u{660}", "\u{ff32}", "\u{df}", "\u{130}", "\u{fb01}", " ", "\n", "  ", ".", "/", "'", "''", "+", "-", "(", ")", "[", "]", "_", "0", "1", "2", "\u{301}", "\u{1f600}", "null", "\\n", "\\u0020", "/* */", "%20", "&#39;", "U+0052",
];
fn gen_text(r: &mut Rng, depth: u32) -> String {
    // mostly well-formed
    let mut s = String::new();
    if r.chance(1, 60) {
        // long: many nodes, a long name, a long comment, deep nesting
        let n = *r.pick(&[15usize, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257]);
        return match r.below(5) {
            0 => vec![*r.pick(&["R", "R2'", "U", ".", "(R U)", "R++"]); n].join(" "),
            1 => "Rw".repeat(n) + *r.pick(&["", "2", "'", "++", "3+", "_PLUS_"]),
            2 => format!("//{}", "note ".repeat(n)),
            3 => "\n".repeat(n),
            _ => {
                let d = n % 24;
                "(".repeat(d) + "R U" + &")'".repeat(d)
            }
        };
    }
    let l = r.below(6);
    for i in 0..l {
        if i > 0 && !s.ends_with('\n') || r.chance(1, 12) {
            s += if r.chance(1, 8) { "\n" } else if r.chance(1, 10) { "  " } else { " " };
        }
        let suffix = |r: &mut Rng| match r.below(12) {
            0..=4 => String::new(),
            5 | 6 => "'".to_owned(),
            7 | 8 => "2".to_owned(),
            9 => "2'".to_owned(),
            10 => format!("{}{}", r.below(13), if r.chance(1, 2) { "'" } else { "" }),
            _ => format!("{}{}", r.pick(&[0i64, 1, 2147483646, 2147483647, 2147483648, 100000]), if r.chance(1, 2) { "'" } else { "" }),
        };
        match if depth == 0 { r.below(9) } else { r.below(14) } {
            0..=5 => {
                match r.below(12) {
                    0 => s += &format!("{}", r.below(5)),
                    1 => s += &format!("{}-{}", r.below(5), r.below(12)),
                    2 => s += &format!("{}", r.pick(&[4294967295u64, 0, 10])),
                    _ => {}
                }
                s += *r.pick(&["R", "U", "F", "x", "Rw", "r", "UR", "ALL", "_SLASH_", "U_SQ_", "D_SQ_", "R_PLUS_", "D_PLUSPLUS_", "_PLUS_", "_PLUSPLUS_", "_", "R_PLUS_PLUS_", "R_PLUSPLUS__PLUS_"]);
                match r.below(8) {
                    0 => s += "++",
                    1 => s += "--",
                    2 => s += &format!("{}{}", r.below(8), if r.chance(1, 2) { "+" } else { "-" }),
                    _ => s += &suffix(r),
                }
            }
            6 => s += ".",
            7 => s += "/",
            8 => {
                s += *r.pick(&["// note", "//", "//)", "// [R,"]);
                if r.chance(9, 10) {
                    s += "\n"
                }
            }
            9 => s += &format!("({}, {})", r.range(-7, 7), r.pick(&[0i64, 1, -1, 3, -6, 2147483647, -2147483647])),
            10 | 11 => s += &format!("({}){}", gen_text(r, depth - 1), suffix(r)),
            k => s += &format!("[{}{}{}]{}", gen_text(r, depth - 1), if k == 12 { ", " } else { ": " }, gen_text(r, depth - 1), suffix(r)),
        }
    }
    s
}
fn text(r: &mut Rng, idx: u64, valid: bool) -> String {
    if let Some(t) = DIRECTED.get(idx as usize) {
        return t.to_string();
    }
    let d = r.below(4) as u32;
    let mut s = gen_text(r, d);
    let k = r.below(4);
    if !valid && r.chance(1, 3) {
        // a text, mostly valid, with a stray character at one end, at both, or inside
        let j = r.below(STRAYS.len() as u64) as usize;
        let x = STRAYS[if idx % 2 == 0 { (idx as usize / 2) % STRAYS.len() } else { j }];
        if r.chance(1, 2) {
            s = (*r.pick(&["R", "R2'", "U_SQ_", "2-3r", "R3+", "(R U)2", "[R, U]", "//c\n", ".", "", "R U'"])).to_owned();
        }
        let at = r.below(s.chars().count() as u64 + 1) as usize;
        return match r.below(4) {
            0 => format!("{}{}", x, s),
            1 => format!("{}{}", s, x),
            2 => format!("{}{}{}", x, s, x),
            _ => s.chars().take(at).chain(x.chars()).chain(s.chars().skip(at)).collect(),
        };
    }
    if valid && k < 3 || k == 0 {
        return s;
    }
    if k == 1 {
        s = (0..r.below(8)).map(|_| *r.pick(ATOMS)).collect();
    }
    for _ in 0..r.range(1, 2) {
        let c: Vec<char> = s.chars().collect();
        let p = r.below(c.len() as u64 + 1) as usize;
        let q = (p + r.below(3) as usize).min(c.len());
        let a: String = c[..p].iter().collect();
        let b: String = c[if r.chance(1, 2) { q } else { p }..].iter().collect();
        s = a + if r.chance(2, 3) { *r.pick(ATOMS) } else { "" } + &b;
    }
    s
}

fn parse_alg(s: &str) -> Result<Option<Alg>, String> {
    tryp(&format!("parsing {:?} as an alg", s), || s.parse::<Alg>().ok())
}
fn parse_move(s: &str) -> Result<Option<Move>, String> {
    tryp(&format!("parsing {:?} as a move", s), || s.parse::<Move>().ok())
}
fn parse_quantum(s: &str) -> Result<Option<QuantumMove>, String> {
    tryp(&format!("parsing {:?} as a quantum move", s), || s.parse::<QuantumMove>().ok())
}
fn print<T: std::fmt::Display>(x: &T) -> Result<String, String> {
    tryp("printing", || x.to_string())
}
fn q_of(q: &QuantumMove) -> (Pre, String) {
    let N::Mv(p, f, _) = n_move(&Move { quantum: std::sync::Arc::new(q.clone()), amount: 1 }) else { unreachable!() };
    (p, f)
}
fn same<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T) -> R {
    if got != want {
        return Err(format!("{}: got {:?}, expected {:?}", what, got, want));
    }
    Ok(())
}

/// a few texts for one case: the text itself as an alg, and pieces of it as moves
fn moves_of(r: &mut Rng, idx: u64, s: &str) -> Vec<String> {
    let mut v = vec![s.to_owned()];
    if DIRECTED.get(idx as usize).is_none() {
        v.extend(s.split([' ', '\n', '(', ')', '[', ']', ',', ':']).filter(|x| !x.is_empty()).map(|x| x.to_owned()));
        v.push((0..r.below(4)).map(|_| *r.pick(ATOMS)).collect());
    }
    v
}

pub fn c18(r: &mut Rng, idx: u64) -> R {
    let s = text(r, idx, false);
    note!("text {:?}", s);
    let a = parse_alg(&s)?;
    same(&format!("{:?} parsed as an alg", s), a.as_ref().map(n_alg), m_alg(&s))?;
    if let Some(a) = a {
        tryp("inverting a parsed alg", || a.invert())?;
    }
    for t in moves_of(r, idx, &s) {
        note!("move text {:?}", t);
        let m = parse_move(&t)?;
        same(&format!("{:?} parsed as a move", t), m.as_ref().map(n_move), m_move(&t))?;
        same(&format!("{:?} parsed as a quantum move", t), parse_quantum(&t)?.as_ref().map(q_of), m_quantum(&t))?;
        if let Some(m) = m {
            tryp("inverting a parsed move", || m.invert())?;
        }
    }
    Ok(())
}

fn round(a: &Alg, exact: bool) -> R {
    let t = print(a)?;
    note!("printed {:?}", t);
    let Some(b) = parse_alg(&t)? else { return Err(format!("the printed text {:?} does not parse", t)) };
    if exact {
        if b != *a || n_alg(&b) != n_alg(a) {
            return Err(format!("the printed text {:?} parses as another alg: got {:?}, expected {:?}", t, n_alg(&b), n_alg(a)));
        }
    } else {
        same(&format!("the printed text {:?}, parsed (newlines aside)", t), no_nl(&n_alg(&b)), no_nl(&n_alg(a)))?;
    }
    same("the reparsed alg, printed", print(&b)?, t)
}
fn has_com(v: &[N]) -> bool {
    v.iter().any(|n| match n {
        N::Com(_) => true,
        N::Grp(a, _) => has_com(a),
        N::Comm(a, b) | N::Conj(a, b) => has_com(a) || has_com(b),
        _ => false,
    })
}

pub fn c12(r: &mut Rng, idx: u64) -> R {
    let s = text(r, idx, true);
    note!("text {:?}", s);
    if let Some(a) = parse_alg(&s)? {
        note!("parsed {:?}", n_alg(&a));
        round(&a, true)?;
        let i = a.invert();
        note!("inverse {:?}", n_alg(&i));
        round(&i, !has_com(&n_alg(&a)))?;
    }
    for t in moves_of(r, idx, &s) {
        if let Some(m) = parse_move(&t)? {
            for m in [m.invert(), m] {
                note!("move {:?}", n_move(&m));
                let u = print(&m)?;
                let Some(b) = parse_move(&u)? else { return Err(format!("the printed move {:?} does not parse", u)) };
                same(&format!("the printed move {:?}, parsed", u), n_move(&b), n_move(&m))?;
                if b != m {
                    return Err(format!("the printed move {:?} parses as a move that compares different", u));
                }
                // a move is also an alg of one node
                let Some(b) = parse_alg(&u)? else { return Err(format!("the printed move {:?} does not parse as an alg", u)) };
                same(&format!("the printed move {:?}, parsed as an alg", u), n_alg(&b), vec![n_move(&m)])?;
            }
        }
        if let Some(q) = parse_quantum(&t)? {
            let u = print(&q)?;
            let Some(b) = parse_quantum(&u)? else { return Err(format!("the printed quantum move {:?} does not parse", u)) };
            same(&format!("the printed quantum move {:?}, parsed", u), q_of(&b), q_of(&q))?;
        }
    }
    Ok(())
}

const FAMS: &[&str] = &["R", "U", "x", "_SLASH_", "U_SQ_", "D_SQ_", "R_PLUS_", "ALL_PLUS_", "R_PLUSPLUS_", "_PLUS_", "_PLUSPLUS_", "SLASH_", "_SLASH", "R_PLUS_PLUS_", "R_PLUSPLUS__PLUS_", "__PLUS_"];
fn print_nodes(v: &[N]) -> R {
    for n in v {
        same(&format!("node {:?} printed", n), print(&r_node(n))?, p_node(n))?;
        match n {
            N::Mv(p, f, a) => {
                let m = r_move(p, f, *a);
                same(&format!("move {:?} printed", n), print(&m)?, p_move(p, f, *a))?;
                same(&format!("quantum move {:?} {:?} printed", p, f), print(&*m.quantum)?, p_quantum(p, f))?;
            }
            N::Grp(w, _) => print_nodes(w)?,
            N::Comm(a, b) | N::Conj(a, b) => {
                print_nodes(a)?;
                print_nodes(b)?;
            }
            _ => {}
        }
    }
    Ok(())
}
pub fn c13(r: &mut Rng, idx: u64) -> R {
    let v = match m_alg(&text(r, idx, true)) {
        Some(v) if idx < DIRECTED.len() as u64 || r.chance(1, 2) => {
            if r.chance(1, 3) {
                inv_alg(&v)
            } else {
                v
            }
        }
        _ => gen_alg(r, FAMS, 3, 5, true),
    };
    note!("alg {:?}", v);
    same("the alg printed", print(&r_alg(&v))?, p_alg(&v))?;
    print_nodes(&v)
}

fn json<T: serde::Serialize>(what: &str, x: &T, text: &str) -> R {
    let v = tryp("serializing", || serde_json::to_value(x))?.map_err(|e| format!("serializing {} {:?} failed: {}", what, text, e))?;
    same(&format!("serialized {}", what), v, serde_json::Value::String(text.to_owned()))?;
    let s = tryp("serializing", || serde_json::to_string(x))?.map_err(|e| e.to_string())?;
    same(&format!("serialized {} as JSON", what), s, serde_json::to_string(text).unwrap())
}
fn read<T: serde::de::DeserializeOwned + PartialEq>(s: &str) -> Result<Option<T>, String> {
    let j = serde_json::to_string(s).unwrap();
    let a = tryp(&format!("deserializing {}", j), || serde_json::from_str::<T>(&j).ok())?;
    let b = tryp(&format!("deserializing the value {}", j), || serde_json::from_value::<T>(serde_json::Value::String(s.to_owned())).ok())?;
    if a.is_some() != b.is_some() {
        return Err(format!("deserializing {} from text and from a value differ", j));
    }
    // a string handed over borrowed, owned, copied (with and without escapes), or character by character
    use serde::de::value::{BorrowedStrDeserializer, Error, StrDeserializer, StringDeserializer};
    use serde::de::IntoDeserializer;
    let esc: String = s.encode_utf16().map(|u| format!("\\u{:04x}", u)).collect();
    let v = serde_json::Value::String(s.to_owned());
    let ways: Vec<(&str, Box<dyn Fn() -> Option<T> + '_>)> = vec![
        ("a reader", Box::new(|| serde_json::from_reader::<_, T>(j.as_bytes()).ok())),
        ("bytes", Box::new(|| serde_json::from_slice::<T>(j.as_bytes()).ok())),
        ("escaped text", Box::new(|| serde_json::from_str::<T>(&format!("\"{}\"", esc)).ok())),
        ("a borrowed value", Box::new(|| T::deserialize(&v).ok())),
        ("a borrowed str", Box::new(|| T::deserialize(BorrowedStrDeserializer::<Error>::new(s)).ok())),
        ("a str", Box::new(|| { let d: StrDeserializer<Error> = s.into_deserializer(); T::deserialize(d).ok() })),
        ("a String", Box::new(|| { let d: StringDeserializer<Error> = s.to_owned().into_deserializer(); T::deserialize(d).ok() })),
        ("an element of an array", Box::new(|| serde_json::from_str::<Vec<T>>(&format!(" [{} ]", j)).ok().and_then(|mut v| v.pop()))),
    ];
    for (how, f) in &ways {
        let c = tryp(&format!("deserializing {} from {}", j, how), || f())?;
        if c != a {
            return Err(format!("deserializing {} from {} differs from deserializing its text", j, how));
        }
    }
    Ok(a)
}
pub fn c19(r: &mut Rng, idx: u64) -> R {
    let s = text(r, idx, false);
    note!("text {:?}", s);
    let a = parse_alg(&s)?;
    same(&format!("{:?} deserialized as an alg", s), read::<Alg>(&s)?.as_ref().map(n_alg), a.as_ref().map(n_alg))?;
    if let Some(a) = &a {
        json("alg", a, &print(a)?)?;
        let i = a.invert();
        json("alg", &i, &print(&i)?)?;
    }
    for t in moves_of(r, idx, &s) {
        note!("move text {:?}", t);
        let m = parse_move(&t)?;
        same(&format!("{:?} deserialized as a move", t), read::<Move>(&t)?.as_ref().map(n_move), m.as_ref().map(n_move))?;
        if let Some(m) = &m {
            json("move", m, &print(m)?)?;
        }
        let q = parse_quantum(&t)?;
        same(&format!("{:?} deserialized as a quantum move", t), read::<QuantumMove>(&t)?.as_ref().map(q_of), q.as_ref().map(q_of))?;
        if let Some(q) = &q {
            json("quantum move", q, &print(q)?)?;
        }
    }
    for j in ["1", "null", "[]", "{}", "true", "[\"R\"]", "{\"R\":1}"] {
        if serde_json::from_str::<Alg>(j).is_ok() || serde_json::from_str::<Move>(j).is_ok() || serde_json::from_str::<QuantumMove>(j).is_ok() {
            return Err(format!("{} was deserialized", j));
        }
    }
    let v = gen_alg(r, FAMS, 2, 4, true);
    note!("alg {:?}", v);
    let a = r_alg(&v);
    json("alg", &a, &print(&a)?)
}

/// texts for the macro check, with what the runtime parsers make of them
pub fn texts(seed: u64, n: u64) -> serde_json::Value {
    let mut seen = std::collections::BTreeSet::new();
    let mut out = vec![];
    for i in 0..n {
        let r = &mut Rng::new(seed, "C17", i);
        // the directed texts with the first seed, other ones besides
        let s = text(r, if seed == 1 { i } else { i + DIRECTED.len() as u64 }, r.0 % 3 != 0);
        let mut l = vec![s.clone()];
        l.extend(s.split([' ', '\n', '(', ')', '[', ']', ',', ':']).filter(|x| !x.is_empty()).take(2).map(|x| x.to_owned()));
        for t in l {
            if seen.insert(t.clone()) {
                out.push(serde_json::json!({"text": t, "alg": t.parse::<Alg>().is_ok(), "move": t.parse::<Move>().is_ok()}));
            }
        }
    }
    serde_json::Value::Array(out)
}
