//! Renamed locals.  Contracts mention locals by the name they had when the contract was written
//! (`contracts/locals.txt`, made by `vx --locals`: per function the locals in source order, each with
//! the shape of what binds it).  A local of that list the function no longer binds is matched with the
//! one bound in its place, and the contract's text follows.
use std::collections::{BTreeMap, BTreeSet};
use syn::spanned::Spanned;
use syn::visit::Visit;

struct B<'a> { text: &'a str, out: Vec<(String, String)> }
impl<'a> B<'a> {
    fn pat(&mut self, p: &syn::Pat, ctx: &str) {
        struct P(Vec<String>);
        impl<'x> Visit<'x> for P {
            fn visit_pat_ident(&mut self, i: &'x syn::PatIdent) {
                let n = i.ident.to_string();
                if n.chars().next().map_or(false, |c| c.is_lowercase() || c == '_') { self.0.push(n); }
                syn::visit::visit_pat_ident(self, i);
            }
        }
        let mut v = P(vec![]);
        v.visit_pat(p);
        let t = &self.text[p.span().byte_range()];
        for n in v.0 { self.out.push((n, format!("{} {}", t, ctx))); }
    }
}
impl<'a, 'x> Visit<'x> for B<'a> {
    fn visit_local(&mut self, l: &'x syn::Local) {
        let p = match &l.pat { syn::Pat::Type(t) => &*t.pat, p => p };
        let init = l.init.as_ref().map(|i| self.text[i.expr.span().byte_range()].to_string()).unwrap_or_default();
        self.pat(p, &format!("= {init}"));
        if let Some(i) = &l.init { self.visit_expr(&i.expr); if let Some((_, d)) = &i.diverge { self.visit_expr(d); } }
    }
    fn visit_arm(&mut self, a: &'x syn::Arm) { self.pat(&a.pat, "=>"); syn::visit::visit_arm(self, a); }
    fn visit_expr_let(&mut self, e: &'x syn::ExprLet) { self.pat(&e.pat, &format!("= {}", &self.text[e.expr.span().byte_range()])); syn::visit::visit_expr_let(self, e); }
    fn visit_expr_for_loop(&mut self, e: &'x syn::ExprForLoop) { self.pat(&e.pat, &format!("in {}", &self.text[e.expr.span().byte_range()])); syn::visit::visit_expr_for_loop(self, e); }
}

fn tokens(t: &str) -> Vec<(String, bool)> {
    let w = |c: char| c.is_alphanumeric() || c == '_';
    let mut o: Vec<(String, bool)> = vec![];
    for c in t.chars() {
        match o.last_mut() { Some((s, x)) if *x == w(c) => s.push(c), _ => o.push((c.to_string(), w(c))) }
    }
    o
}

/// whole words of `t` replaced (not fields and methods)
pub fn rename(t: &str, m: &BTreeMap<String, String>) -> String {
    if m.is_empty() { return t.to_string(); }
    let tk = tokens(t);
    let mut o = String::new();
    for k in 0..tk.len() {
        let field = k > 0 && (tk[k - 1].0.ends_with('.') && !tk[k - 1].0.ends_with("..") || tk[k - 1].0.ends_with("::"));
        let quoted = k > 0 && tk[k - 1].0.ends_with('"');
        match m.get(&tk[k].0) { Some(x) if tk[k].1 && !field && !quoted => o.push_str(x), _ => o.push_str(&tk[k].0) }
    }
    o
}

/// locals in source order, each with the shape of its binding (names of locals and parameters masked)
pub fn of(sig: &syn::Signature, block: &syn::Block, text: &str) -> Vec<(String, String)> {
    let mut b = B { text, out: vec![] };
    for a in &sig.inputs { if let syn::FnArg::Typed(t) = a { b.pat(&t.pat, &format!(": {}", &text[t.ty.span().byte_range()])); } }
    let np = b.out.len();
    b.visit_block(block);
    let mask: BTreeMap<String, String> = b.out.iter().map(|x| (x.0.clone(), "_".to_string())).collect();
    b.out.iter().skip(np).map(|(n, c)| {
        let s: String = rename(c, &mask).split_whitespace().collect::<Vec<_>>().join(" ");
        (n.clone(), s.chars().take(120).collect())
    }).collect()
}

pub fn load(p: &std::path::Path) -> BTreeMap<String, Vec<(String, String)>> {
    let mut o: BTreeMap<String, Vec<(String, String)>> = BTreeMap::new();
    for l in std::fs::read_to_string(p).unwrap_or_default().lines() {
        let w: Vec<&str> = l.splitn(3, '\t').collect();
        if w.len() == 3 { o.entry(w[0].to_string()).or_default().push((w[1].to_string(), w[2].to_string())); }
    }
    o
}

/// names of the contract that the function now spells otherwise
pub fn renamed(base: &[(String, String)], now: &[(String, String)]) -> BTreeMap<String, String> {
    let have: BTreeSet<&str> = now.iter().map(|x| x.0.as_str()).collect();
    let had: BTreeSet<&str> = base.iter().map(|x| x.0.as_str()).collect();
    if base.iter().all(|b| have.contains(b.0.as_str())) { return BTreeMap::new(); }
    // longest common subsequence of shapes
    let (n, m) = (base.len(), now.len());
    let same = |i: usize, j: usize| base[i].1 == now[j].1 || base[i].0 == now[j].0;
    let mut t = vec![vec![0usize; m + 1]; n + 1];
    for i in (0..n).rev() { for j in (0..m).rev() {
        t[i][j] = if same(i, j) { t[i + 1][j + 1] + 1 } else { t[i + 1][j].max(t[i][j + 1]) };
    } }
    let mut pairs = vec![];
    let (mut i, mut j, mut gi, mut gj) = (0, 0, 0, 0);
    loop {
        let end = i >= n || j >= m;
        if end || (same(i, j) && t[i][j] == t[i + 1][j + 1] + 1) {
            let (ei, ej) = if end { (n, m) } else { (i, j) };
            // unmatched ones in between: in order, when there are as many
            let a: Vec<usize> = (gi..ei).filter(|k| !have.contains(base[*k].0.as_str())).collect();
            let b: Vec<usize> = (gj..ej).filter(|k| !had.contains(now[*k].0.as_str())).collect();
            if a.len() == b.len() { for (x, y) in a.into_iter().zip(b) { pairs.push((x, y)); } }
            if end { break; }
            pairs.push((i, j));
            i += 1; j += 1; gi = i; gj = j;
        } else if t[i + 1][j] >= t[i][j + 1] { i += 1 } else { j += 1 }
    }
    let mut o = BTreeMap::new();
    for (x, y) in pairs {
        let (b, c) = (&base[x].0, &now[y].0);
        if !have.contains(b.as_str()) && !had.contains(c.as_str()) { o.entry(b.clone()).or_insert(c.clone()); }
    }
    o
}
