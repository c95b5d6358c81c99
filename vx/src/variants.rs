//! Other spellings of a function, tried when the contract's anchors (loops, closures, locals) are not
//! found in it as written, or the verifier does not accept or does not prove it as written.  Each
//! rewriting keeps what the function computes; the contract attached is the same.
use std::ops::Range;
use syn::spanned::Spanned;
use syn::visit::Visit;

type Edit = Vec<(Range<usize>, String)>;

pub const KINDS: &[(&str, &str)] = &[
    ("eta", "function passed by name -> closure calling it"),
    ("pushloop", "loop pushing one value per step -> map/collect"),
    ("extendloop", "loop appending a list per step -> flat_map/collect"),
    ("flatinto", "closure of flat_map returns an iterator explicitly"),
    ("forpat", "pattern of a for loop -> let in the body"),
    ("option", "Option/Result combinator with a closure -> match"),
    ("optmap", "map/and_then/map_or of an Option with a closure -> match"),
    ("resmap", "map/and_then/map_or of a Result with a closure -> match"),
    ("collectloop", "map/collect -> loop pushing one value per step"),
    ("eqval", "`a == b` -> `a.eq(&b)`"),
    ("refiter", "`for x in &list`, `for k in map.keys()` -> `.iter()`"),
    ("hoist", "first value computed inside a statement -> let before it"),
    ("slicepat", "slice pattern -> length test and element patterns"),
    ("foreach", "for_each/try_for_each -> for loop"),
    ("rangeiter", "loop over the indices of a list -> loop over its elements"),
    ("iterrange", "loop over the elements of a list -> loop over its indices"),
];

pub fn apply(kind: &str, text: &str) -> Option<String> {
    let mut t = text.to_string();
    let mut changed = false;
    for _ in 0..30 {
        let Ok(f) = syn::parse_str::<syn::ImplItemFn>(&t) else { return None };
        let mut v = Vis { text: &t, kind, ed: None, fresh: 0, tail: tail_of(&f.block) };
        while t.contains(&format!("vx_n{}", v.fresh)) { v.fresh += 1; }
        v.visit_block(&f.block);
        let Some(mut ed) = v.ed else { break };
        ed.sort_by_key(|e| e.0.start);
        let mut o = t.clone();
        for (r, s) in ed.into_iter().rev() { o.replace_range(r, &s); }
        t = o;
        changed = true;
    }
    if changed && syn::parse_str::<syn::ImplItemFn>(&t).is_ok() { Some(t) } else { None }
}

fn tail_of(b: &syn::Block) -> Option<Range<usize>> {
    match b.stmts.last() { Some(syn::Stmt::Expr(e, None)) => Some(e.span().byte_range()), _ => None }
}

struct Vis<'a> { text: &'a str, kind: &'a str, ed: Option<Edit>, fresh: usize, tail: Option<Range<usize>> }

struct Leaves { bad: bool, depth: usize }
impl<'x> Visit<'x> for Leaves {
    fn visit_expr_return(&mut self, _: &'x syn::ExprReturn) { self.bad = true; }
    fn visit_expr_try(&mut self, _: &'x syn::ExprTry) { self.bad = true; }
    fn visit_expr_await(&mut self, _: &'x syn::ExprAwait) { self.bad = true; }
    fn visit_expr_break(&mut self, e: &'x syn::ExprBreak) { if self.depth == 0 || e.label.is_some() { self.bad = true; } }
    fn visit_expr_continue(&mut self, e: &'x syn::ExprContinue) { if self.depth == 0 || e.label.is_some() { self.bad = true; } }
    fn visit_expr_for_loop(&mut self, e: &'x syn::ExprForLoop) { self.depth += 1; syn::visit::visit_expr_for_loop(self, e); self.depth -= 1; }
    fn visit_expr_while(&mut self, e: &'x syn::ExprWhile) { self.depth += 1; syn::visit::visit_expr_while(self, e); self.depth -= 1; }
    fn visit_expr_loop(&mut self, e: &'x syn::ExprLoop) { self.depth += 1; syn::visit::visit_expr_loop(self, e); self.depth -= 1; }
    fn visit_expr_closure(&mut self, _: &'x syn::ExprClosure) {}
    fn visit_macro(&mut self, m: &'x syn::Macro) { let t = m.tokens.to_string(); if t.contains('?') || t.contains("return") { self.bad = true; } }
}
fn leaves_e(e: &syn::Expr) -> bool { let mut l = Leaves { bad: false, depth: 0 }; l.visit_expr(e); l.bad }
fn leaves_s(s: &[syn::Stmt]) -> bool { let mut l = Leaves { bad: false, depth: 0 }; for x in s { l.visit_stmt(x); } l.bad }

fn has_word(t: &str, n: &str) -> bool {
    let b = t.as_bytes();
    let w = |c: u8| c.is_ascii_alphanumeric() || c == b'_';
    let mut at = 0;
    while let Some(k) = t[at..].find(n) {
        let s = at + k;
        let e = s + n.len();
        if (s == 0 || !(w(b[s - 1]) || (b[s - 1] == b'.' && (s < 2 || b[s - 2] != b'.')))) && (e >= b.len() || !w(b[e])) { return true; }
        at = e;
    }
    false
}

fn is_place(e: &syn::Expr) -> bool {
    match e {
        syn::Expr::Path(p) => p.path.get_ident().is_some(),
        syn::Expr::Field(f) => is_place(&f.base),
        syn::Expr::Paren(p) => is_place(&p.expr),
        _ => false,
    }
}

fn closure(e: &syn::Expr) -> Option<&syn::ExprClosure> { if let syn::Expr::Closure(c) = e { if c.asyncness.is_none() { return Some(c); } } None }

impl<'a> Vis<'a> {
    fn t<T: Spanned>(&self, x: &T) -> &'a str { &self.text[x.span().byte_range()] }
    fn pat(&self, p: &syn::Pat) -> String { let p = match p { syn::Pat::Type(t) => &*t.pat, p => p }; self.t(p).to_string() }
    fn name(&self) -> String { format!("vx_n{}", self.fresh) }
    /// the iterator a `for` loop runs
    fn iter_of(&self, e: &syn::Expr) -> String {
        match e {
            syn::Expr::Reference(r) if r.mutability.is_none() => format!("{}.iter()", self.t(&*r.expr)),
            syn::Expr::MethodCall(m) if ["iter", "rev", "into_iter", "drain", "chars", "keys", "values", "map", "enumerate", "zip", "skip", "take", "filter", "cloned", "copied"].contains(&m.method.to_string().as_str()) => self.t(e).to_string(),
            _ => format!("({}).into_iter()", self.t(e)),
        }
    }
    fn pushloop(&self, b: &syn::Block) -> Option<Edit> {
        for k in 0..b.stmts.len() {
            let f = match &b.stmts[k] { syn::Stmt::Expr(syn::Expr::ForLoop(f), _) => f, _ => continue };
            if f.label.is_some() || leaves_s(&f.body.stmts) || leaves_e(&f.expr) { continue; }
            let flat = self.kind == "extendloop";
            // the accumulator
            let mut d = k;
            let found = loop {
                if d == 0 { break None; }
                d -= 1;
                let syn::Stmt::Local(l) = &b.stmts[d] else { continue };
                let (p, ty) = match &l.pat { syn::Pat::Type(t) => (&*t.pat, Some(self.t(&*t.ty).to_string())), p => (p, None) };
                let syn::Pat::Ident(i) = p else { continue };
                let Some(init) = &l.init else { continue };
                if i.mutability.is_none() || init.diverge.is_some() { continue; }
                let it: String = self.t(&*init.expr).chars().filter(|c| !c.is_whitespace()).collect();
                if it == "vec![]" || it == "Vec::new()" || it.starts_with("Vec::with_capacity(") || it == "Vec::default()" || (it.starts_with("Vec::<") && (it.ends_with(">::new()") || it.ends_with(">::default()"))) {
                    if has_word(self.t(f), &i.ident.to_string()) { break Some((l, i.ident.to_string(), ty)); }
                }
            };
            let Some((l, v, ty)) = found else { continue };
            if b.stmts[d + 1..k].iter().any(|s| has_word(self.t(s), &v)) { continue; }
            let body = self.t(&f.body);
            let bs = f.body.span().byte_range().start;
            if has_word(self.t(&*f.expr), &v) { continue; }
            let mut used = vec![];
            let new_body: String;
            if flat {
                // every branch of one match/if pushes or extends exactly once
                let mut ed: Edit = vec![];
                if f.body.stmts.len() != 1 || !self.branches_stmt(&f.body.stmts[0], &v, &mut ed) { continue; }
                ed.sort_by_key(|e| e.0.start);
                let mut o = body.to_string();
                for (r, s) in ed.iter().rev() { o.replace_range(r.start - bs..r.end - bs, s); }
                new_body = o;
            } else {
                let Some(syn::Stmt::Expr(syn::Expr::MethodCall(m), _)) = f.body.stmts.last() else { continue };
                if m.method != "push" || m.args.len() != 1 || self.t(&*m.receiver) != v { continue; }
                for s in &f.body.stmts[..f.body.stmts.len() - 1] { used.push(self.t(s)); }
                used.push(self.t(&m.args[0]));
                if used.iter().any(|t| has_word(t, &v)) { continue; }
                let r = f.body.stmts.last().unwrap().span().byte_range();
                new_body = format!("{}{}{}", &body[..r.start - bs], self.t(&m.args[0]), &body[r.end - bs..]);
            }
            // used mutably afterwards: keep `mut`
            let again = b.stmts[k + 1..].iter().any(|s| { let t = self.t(s); t.contains(&format!("{v}.push")) || t.contains(&format!("{v}.extend")) || t.contains(&format!("&mut {v}")) });
            let call = if flat { "flat_map" } else { "map" };
            let fs = b.stmts[k].span().byte_range();
            return Some(vec![
                (l.span().byte_range(), String::new()),
                (fs, format!("let {}{}: {} = {}.{}(|{}| {}).collect();", if again { "mut " } else { "" }, v, ty.unwrap_or("Vec<_>".into()), self.iter_of(&f.expr), call, self.t(&*f.pat), new_body)),
            ]);
        }
        None
    }
    fn branches_stmt(&self, s: &syn::Stmt, v: &str, ed: &mut Edit) -> bool {
        let (e, r) = match s { syn::Stmt::Expr(e, _) => (e, s.span().byte_range()), _ => return false };
        self.branches(e, v, ed, Some(r))
    }
    fn branches_block(&self, b: &syn::Block, v: &str, ed: &mut Edit) -> bool {
        let Some((last, first)) = b.stmts.split_last() else { return false };
        if first.iter().any(|s| has_word(self.t(s), v)) { return false; }
        self.branches_stmt(last, v, ed)
    }
    fn branches(&self, e: &syn::Expr, v: &str, ed: &mut Edit, stmt: Option<Range<usize>>) -> bool {
        match e {
            syn::Expr::MethodCall(m) if self.t(&*m.receiver) == v && m.args.len() == 1 => {
                if has_word(self.t(&m.args[0]), v) { return false; }
                let r = stmt.unwrap_or(e.span().byte_range());
                if m.method == "push" { ed.push((r, format!("vec![{}].into_iter()", self.t(&m.args[0])))); true }
                else if m.method == "extend" { ed.push((r, match &m.args[0] { syn::Expr::MethodCall(c) if c.method == "into_iter" => self.t(&m.args[0]).to_string(), a => format!("{}.into_iter()", self.t(a)) })); true }
                else { false }
            }
            syn::Expr::Match(m) => !has_word(self.t(&*m.expr), v) && m.arms.iter().all(|a| a.guard.is_none() && self.branches(&a.body, v, ed, None)),
            syn::Expr::If(i) => match &i.else_branch { Some((_, x)) => !has_word(self.t(&*i.cond), v) && self.branches_block(&i.then_branch, v, ed) && self.branches(x, v, ed, None), None => false },
            syn::Expr::Block(b) if b.label.is_none() => self.branches_block(&b.block, v, ed),
            _ => false,
        }
    }
    /// `s(.. f(x)? ..)` / `s(.. &f(x) ..)`: what is computed first gets a name of its own
    fn hoist(&self, b: &syn::Block) -> Option<Edit> {
        struct First<'a> { text: &'a str, from: usize, hit: Option<Range<usize>> }
        impl<'a, 'x> Visit<'x> for First<'a> {
            fn visit_expr(&mut self, e: &'x syn::Expr) {
                if self.hit.is_some() { return; }
                match e {
                    syn::Expr::Closure(_) | syn::Expr::Block(_) | syn::Expr::If(_) | syn::Expr::Match(_) | syn::Expr::ForLoop(_) | syn::Expr::While(_) | syn::Expr::Loop(_) | syn::Expr::Unsafe(_) => return,
                    _ => {}
                }
                syn::visit::visit_expr(self, e);
                if self.hit.is_some() { return; }
                let r = match e {
                    syn::Expr::Try(t) => t.span().byte_range(),
                    syn::Expr::Reference(r) if r.mutability.is_none() && matches!(&*r.expr, syn::Expr::Call(_) | syn::Expr::MethodCall(_)) => r.expr.span().byte_range(),
                    _ => return,
                };
                let ahead = &self.text[self.from..r.start];
                if r.start == self.from || ahead.trim().is_empty() || [")", "?", "|", "&&", "{", "}", ";", "!", "return", "if ", "match "].iter().any(|x| ahead.contains(x)) { return; }
                self.hit = Some(r);
            }
            fn visit_macro(&mut self, _: &'x syn::Macro) {}
        }
        for s in &b.stmts {
            if let syn::Stmt::Expr(syn::Expr::ForLoop(f), _) = s {
                if let syn::Expr::Try(t) = &*f.expr {
                    let n = self.name();
                    let at = s.span().byte_range().start;
                    return Some(vec![(at..at, format!("let {n} = {}; ", self.t(t))), (t.span().byte_range(), n)]);
                }
            }
            let (from, e) = match s {
                syn::Stmt::Expr(e, _) => (e.span().byte_range().start, e),
                syn::Stmt::Local(l) => match &l.init { Some(i) if i.diverge.is_none() => (i.expr.span().byte_range().start, &*i.expr), _ => continue },
                _ => continue,
            };
            let mut v = First { text: self.text, from, hit: None };
            v.visit_expr(e);
            if let Some(r) = v.hit {
                let n = self.name();
                let at = s.span().byte_range().start;
                return Some(vec![(at..at, format!("let {n} = {}; ", &self.text[r.clone()])), (r, n)]);
            }
        }
        None
    }
    fn mapped(&self, m: &syn::ExprMethodCall, opt: bool) -> Option<String> {
        let name = m.method.to_string();
        if m.turbofish.is_some() || m.args.is_empty() { return None; }
        // iterators have these methods as well
        let mut r = &*m.receiver;
        loop {
            match r {
                syn::Expr::MethodCall(x) => {
                    if ["iter", "into_iter", "drain", "chars", "bytes", "keys", "values", "zip", "enumerate", "rev", "skip", "iter_mut", "orbit_info_iter"].contains(&x.method.to_string().as_str()) { return None; }
                    if ["collect", "next", "find", "position", "first", "last", "get", "parse", "lookup"].contains(&x.method.to_string().as_str()) { break; }
                    r = &*x.receiver;
                }
                syn::Expr::Paren(p) => r = &*p.expr,
                syn::Expr::Range(_) => return None,
                _ => break,
            }
        }
        let recv = self.t(&*m.receiver);
        let n = self.name();
        let clos = |k: usize| -> Option<(String, String)> {
            let c = closure(&m.args[k])?;
            if leaves_e(&c.body) { return None; }
            let body = match &c.output { syn::ReturnType::Type(..) => self.t(&*c.body), _ => self.t(&*c.body) };
            Some((c.inputs.first().map(|p| self.pat(p)).unwrap_or_default(), body.to_string()))
        };
        let (some, none, pass) = if opt { ("Some", "None".to_string(), "None".to_string()) } else { ("Ok", format!("Err({n})"), format!("Err({n})")) };
        Some(match (name.as_str(), m.args.len()) {
            ("map", 1) => { let (p, b) = clos(0)?; if p.is_empty() { return None; } format!("(match {recv} {{ {some}({p}) => {some}({b}), {none} => {pass} }})") }
            ("and_then", 1) => { let (p, b) = clos(0)?; if p.is_empty() { return None; } format!("(match {recv} {{ {some}({p}) => {b}, {none} => {pass} }})") }
            ("map_or", 2) => { let (p, b) = clos(1)?; format!("(match {recv} {{ {some}({p}) => {b}, {none} => {} }})", self.t(&m.args[0])) }
            ("map_or_else", 2) => { let (p, b) = clos(1)?; let (q, d) = clos(0)?; format!("(match {recv} {{ {some}({p}) => {b}, {} => {d} }})", if opt { "None".to_string() } else { format!("Err({q})") }) }
            ("filter", 1) if opt => { let (p, b) = clos(0)?; format!("(match {recv} {{ Some({n}) => {{ let vx_keep = {{ let {p} = &{n}; {b} }}; if vx_keep {{ Some({n}) }} else {{ None }} }}, None => None }})") }
            ("unwrap_or_else", 1) if !opt => { let (p, b) = clos(0)?; if p.is_empty() { return None; } format!("(match {recv} {{ Ok({n}) => {n}, Err({p}) => {b} }})") }
            ("or_else", 1) if !opt => { let (p, b) = clos(0)?; if p.is_empty() { return None; } format!("(match {recv} {{ Ok({n}) => Ok({n}), Err({p}) => {b} }})") }
            _ => return None,
        })
    }
    fn combinator(&self, m: &syn::ExprMethodCall) -> Option<String> {
        let name = m.method.to_string();
        let recv = self.t(&*m.receiver);
        let arg = m.args.first();
        let c = arg.and_then(closure);
        let n = self.name();
        if m.turbofish.is_some() { return None; }
        if let Some(c) = c { if leaves_e(&c.body) { return None; } }
        let p = c.and_then(|c| c.inputs.first()).map(|p| self.pat(p));
        let body = c.map(|c| self.t(&*c.body));
        Some(match (name.as_str(), m.args.len()) {
            ("map_err", 1) => {
                let (p, body) = (p?, body?);
                // `r.map(f).map_err(g)`: `r` is a `Result` as well
                if let syn::Expr::MethodCall(i) = &*m.receiver {
                    if i.method == "map" && i.args.len() == 1 {
                        if let Some(ci) = closure(&i.args[0]) {
                            if leaves_e(&ci.body) { return None; }
                            return Some(format!("(match {} {{ Ok({}) => Ok({}), Err({}) => Err({}) }})", self.t(&*i.receiver), self.pat(ci.inputs.first()?), self.t(&*ci.body), p, body));
                        }
                    }
                }
                format!("(match {recv} {{ Ok({n}) => Ok({n}), Err({p}) => Err({body}) }})")
            }
            ("ok_or_else", 1) if c.is_some() => format!("(match {recv} {{ Some({n}) => Ok({n}), None => Err({}) }})", body?),
            ("unwrap_or_else", 1) if c.map_or(false, |c| c.inputs.is_empty()) => format!("(match {recv} {{ Some({n}) => {n}, None => {} }})", body?),
            ("or_else", 1) if c.map_or(false, |c| c.inputs.is_empty()) => format!("(match {recv} {{ Some({n}) => Some({n}), None => {} }})", body?),
            ("is_some_and", 1) => format!("(match {recv} {{ Some({}) => {}, None => false }})", p?, body?),
            ("is_ok_and", 1) => format!("(match {recv} {{ Ok({}) => {}, Err(_) => false }})", p?, body?),
            ("is_none_or", 1) => format!("(match {recv} {{ Some({}) => {}, None => true }})", p?, body?),
            ("then", 1) if c.map_or(false, |c| c.inputs.is_empty()) => format!("(if {recv} {{ Some({}) }} else {{ None }})", body?),
            _ => return None,
        })
    }
}

impl<'a, 'x> Visit<'x> for Vis<'a> {
    fn visit_block(&mut self, b: &'x syn::Block) {
        if self.ed.is_some() { return; }
        syn::visit::visit_block(self, b);
        if self.ed.is_some() { return; }
        if self.kind == "hoist" { self.ed = self.hoist(b); }
        if self.kind == "pushloop" || self.kind == "extendloop" { self.ed = self.pushloop(b); }
    }
    fn visit_expr(&mut self, e: &'x syn::Expr) {
        if self.ed.is_some() { return; }
        syn::visit::visit_expr(self, e);
        if self.ed.is_some() { return; }
        let whole = e.span().byte_range();
        match (self.kind, e) {
            ("eta", syn::Expr::MethodCall(m)) if ["map", "flat_map", "filter", "for_each", "try_for_each", "any", "all", "map_err", "and_then", "filter_map"].contains(&m.method.to_string().as_str()) && m.args.len() == 1 => {
                if let syn::Expr::Path(p) = &m.args[0] {
                    let t = self.t(p);
                    if p.path.segments.len() >= 2 || t.chars().next().map_or(false, |c| c.is_uppercase()) {
                        let n = self.name();
                        self.ed = Some(vec![(p.span().byte_range(), format!("|{n}| {t}({n})"))]);
                    }
                }
            }
            ("flatinto", syn::Expr::MethodCall(m)) if m.method == "flat_map" && m.args.len() == 1 => {
                if let Some(c) = closure(&m.args[0]) {
                    let t = self.t(&*c.body);
                    if !t.ends_with("/**/.into_iter()") { self.ed = Some(vec![(c.body.span().byte_range(), format!("({t})/**/.into_iter()"))]); }
                }
            }
            ("refiter", syn::Expr::ForLoop(f)) => {
                match &*f.expr {
                    syn::Expr::Reference(r) if r.mutability.is_none() && !matches!(&*r.expr, syn::Expr::Array(_) | syn::Expr::Index(_)) => self.ed = Some(vec![(f.expr.span().byte_range(), format!("{}.iter()", self.t(&*r.expr)))]),
                    syn::Expr::MethodCall(m) if (m.method == "keys" || m.method == "values") && m.args.is_empty() && matches!(&*f.pat, syn::Pat::Ident(_)) => {
                        let p = self.t(&*f.pat);
                        let p = if m.method == "keys" { format!("({p}, _)") } else { format!("(_, {p})") };
                        self.ed = Some(vec![(f.pat.span().byte_range(), p), (f.expr.span().byte_range(), format!("{}.iter()", self.t(&*m.receiver)))]);
                    }
                    _ => {}
                }
            }
            ("eqval", syn::Expr::Binary(x)) if matches!(x.op, syn::BinOp::Eq(_) | syn::BinOp::Ne(_)) && is_place(&x.left) && is_place(&x.right) => {
                self.ed = Some(vec![(whole, format!("{}{}.eq(&{})", if matches!(x.op, syn::BinOp::Ne(_)) { "!" } else { "" }, self.t(&*x.left), self.t(&*x.right)))]);
            }
            ("eta", syn::Expr::Call(c)) if matches!(&*c.func, syn::Expr::Path(p) if ["take_till", "take_while", "take_while1", "take_till1"].iter().any(|n| p.path.is_ident(n))) && c.args.len() == 1 => {
                if let syn::Expr::Path(p) = &c.args[0] {
                    let n = self.name();
                    self.ed = Some(vec![(p.span().byte_range(), format!("|{n}| {}({n})", self.t(p)))]);
                }
            }
            ("forpat", syn::Expr::ForLoop(f)) if !matches!(&*f.pat, syn::Pat::Ident(_) | syn::Pat::Wild(_)) => {
                let n = self.name();
                let at = f.body.brace_token.span.open().byte_range().end;
                self.ed = Some(vec![(f.pat.span().byte_range(), n.clone()), (at..at, format!(" let {} = {};", self.t(&*f.pat), n))]);
            }
            ("option", syn::Expr::MethodCall(m)) => { if let Some(t) = self.combinator(m) { self.ed = Some(vec![(whole, t)]); } }
            ("optmap" | "resmap", syn::Expr::MethodCall(m)) => { if let Some(t) = self.mapped(m, self.kind == "optmap") { self.ed = Some(vec![(whole, t)]); } }
            ("collectloop", syn::Expr::MethodCall(m)) if m.method == "collect" && m.args.is_empty() => {
                let syn::Expr::MethodCall(i) = &*m.receiver else { return };
                if i.method != "map" || i.args.len() != 1 { return; }
                let Some(c) = closure(&i.args[0]) else { return };
                if leaves_e(&c.body) || c.inputs.len() != 1 { return; }
                if let Some(t) = &m.turbofish { if !self.t(t).contains("Vec") { return; } }
                let n = self.name();
                let src = match &*i.receiver { syn::Expr::Paren(p) => self.t(&*p.expr), x => self.t(x) };
                self.ed = Some(vec![(whole, format!("{{ let mut {n} = Vec::with_capacity(0); for {} in {} {{ {n}.push({}); }} {n} }}", self.pat(&c.inputs[0]), src, self.t(&*c.body)))]);
            }
            ("slicepat", syn::Expr::If(i)) => {
                let syn::Expr::Let(l) = &*i.cond else { return };
                let syn::Pat::Slice(s) = &*l.pat else { return };
                if s.elems.iter().any(|p| matches!(p, syn::Pat::Rest(_)) || self.t(p).contains("..")) { return; }
                let e = match &*l.expr {
                    syn::Expr::MethodCall(m) if m.method == "as_slice" && is_place(&m.receiver) => self.t(&*m.receiver),
                    syn::Expr::Reference(r) if is_place(&r.expr) => self.t(&*r.expr),
                    syn::Expr::Index(x) if is_place(&x.expr) && self.t(&*x.index) == ".." => self.t(&*x.expr),
                    syn::Expr::Reference(r) => match &*r.expr { syn::Expr::Index(x) if is_place(&x.expr) && self.t(&*x.index) == ".." => self.t(&*x.expr), _ => return },
                    x if is_place(x) => self.t(x),
                    _ => return,
                };
                let n = s.elems.len();
                let els = i.else_branch.as_ref().map(|(_, x)| format!(" else {}", self.t(&**x))).unwrap_or_default();
                let mut inner = format!("{}", self.t(&i.then_branch));
                for (k, p) in s.elems.iter().enumerate().rev() {
                    inner = format!("{{ if let {} = &{}[{}] {}{} }}", self.t(p), e, k, inner, els);
                }
                self.ed = Some(vec![(whole, format!("if {}.len() == {} {}{}", e, n, inner, els))]);
            }
            ("foreach", syn::Expr::MethodCall(m)) if m.args.len() == 1 && (m.method == "for_each" || m.method == "try_for_each") => {
                let Some(c) = closure(&m.args[0]) else { return };
                if leaves_e(&c.body) || c.inputs.len() != 1 { return; }
                let p = self.pat(&c.inputs[0]);
                if m.method == "for_each" { self.ed = Some(vec![(whole, format!("for {} in {} {{ {}; }}", p, self.t(&*m.receiver), self.t(&*c.body)))]); }
                else if Some(&whole) == self.tail.as_ref() { self.ed = Some(vec![(whole, format!("for {} in {} {{ ({})?; }} Ok(())", p, self.t(&*m.receiver), self.t(&*c.body)))]); }
            }
            ("rangeiter", syn::Expr::ForLoop(f)) => {
                let (syn::Pat::Ident(i), syn::Expr::Range(r)) = (&*f.pat, &*f.expr) else { return };
                let (Some(a), Some(b)) = (&r.start, &r.end) else { return };
                if self.t(&**a) != "0" || !matches!(r.limits, syn::RangeLimits::HalfOpen(_)) { return; }
                let syn::Expr::MethodCall(m) = &**b else { return };
                if m.method != "len" || !is_place(&m.receiver) { return; }
                let v = self.t(&*m.receiver);
                // every use of the counter is `&v[i]` or `v[i].`
                let n = self.name();
                let body = self.t(&f.body);
                let ix = format!("{}[{}]", v, i.ident);
                let new = body.replace(&format!("&{ix}"), &n).replace(&format!("{ix}."), &format!("{n}."));
                if new == body || has_word(&new, &i.ident.to_string()) { return; }
                self.ed = Some(vec![(whole, format!("for {} in {}.iter() {}", n, v, new))]);
            }
            ("iterrange", syn::Expr::ForLoop(f)) => {
                let (v, enumerated) = match &*f.expr {
                    syn::Expr::Reference(r) if r.mutability.is_none() && is_place(&r.expr) => (self.t(&*r.expr), false),
                    syn::Expr::MethodCall(m) if m.method == "iter" && is_place(&m.receiver) => (self.t(&*m.receiver), false),
                    syn::Expr::MethodCall(m) if m.method == "enumerate" => match &*m.receiver {
                        syn::Expr::MethodCall(m) if m.method == "iter" && is_place(&m.receiver) => (self.t(&*m.receiver), true),
                        _ => return,
                    },
                    _ => return,
                };
                let at = f.body.brace_token.span.open().byte_range().end;
                if enumerated {
                    let syn::Pat::Tuple(p) = &*f.pat else { return };
                    if p.elems.len() != 2 || !matches!(p.elems[0], syn::Pat::Ident(_)) { return; }
                    let i = self.t(&p.elems[0]);
                    self.ed = Some(vec![(f.pat.span().byte_range(), i.to_string()), (f.expr.span().byte_range(), format!("0..{}.len()", v)), (at..at, format!(" let {} = &{}[{}];", self.t(&p.elems[1]), v, i))]);
                } else {
                    let n = self.name();
                    self.ed = Some(vec![(f.pat.span().byte_range(), n.clone()), (f.expr.span().byte_range(), format!("0..{}.len()", v)), (at..at, format!(" let {} = &{}[{}];", self.t(&*f.pat), v, n))]);
                }
            }
            _ => {}
        }
    }
}
