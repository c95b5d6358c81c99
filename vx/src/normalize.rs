//! Two rewritings that do not change what code does:
//! * a counting loop `let mut i = A; while i < B { ..; i += 1; }` is read as `for i in A..B { .. }`
//!   (`i` is changed nowhere else and not used afterwards, `B` cannot change, no `continue`);
//! * a body with early returns is read as one expression (`if c { return X; } rest` as `if c { X } else { rest }`).
use proc_macro2::{TokenStream, TokenTree};
use std::collections::HashSet;
use syn::spanned::Spanned;
use syn::visit::Visit;

fn has_ident(ts: TokenStream, n: &str) -> bool {
    ts.into_iter().any(|t| match t { TokenTree::Ident(i) => i == n, TokenTree::Group(g) => has_ident(g.stream(), n), _ => false })
}
fn mentions(text: &str, n: &str) -> bool { text.parse::<TokenStream>().map(|t| has_ident(t, n)).unwrap_or(true) }

struct Whiles<'a> { text: &'a str, muts: HashSet<String>, ed: Option<Vec<(std::ops::Range<usize>, String)>> }

fn root(e: &syn::Expr) -> Option<String> {
    match e {
        syn::Expr::Path(p) => p.path.get_ident().map(|i| i.to_string()),
        syn::Expr::Field(f) => root(&f.base),
        syn::Expr::Paren(p) => root(&p.expr),
        syn::Expr::Cast(c) => root(&c.expr),
        syn::Expr::MethodCall(m) if m.method == "len" && m.args.is_empty() => root(&m.receiver),
        syn::Expr::Lit(_) => Some(String::new()),
        _ => None,
    }
}

struct Use<'a> { var: &'a str, bad: bool, incs: usize, depth: usize }
impl<'a, 'x> Visit<'x> for Use<'a> {
    fn visit_expr_binary(&mut self, e: &'x syn::ExprBinary) {
        use syn::BinOp::*;
        if matches!(e.op, AddAssign(_) | SubAssign(_) | MulAssign(_) | DivAssign(_) | RemAssign(_) | BitXorAssign(_) | BitAndAssign(_) | BitOrAssign(_) | ShlAssign(_) | ShrAssign(_))
            && root(&e.left).as_deref() == Some(self.var) { self.incs += 1; }
        syn::visit::visit_expr_binary(self, e);
    }
    fn visit_expr_assign(&mut self, e: &'x syn::ExprAssign) { if root(&e.left).as_deref() == Some(self.var) { self.incs += 1; } syn::visit::visit_expr_assign(self, e); }
    fn visit_expr_reference(&mut self, e: &'x syn::ExprReference) { if e.mutability.is_some() && root(&e.expr).as_deref() == Some(self.var) { self.bad = true; } syn::visit::visit_expr_reference(self, e); }
    fn visit_pat_ident(&mut self, p: &'x syn::PatIdent) { if p.ident == self.var { self.bad = true; } }
    fn visit_expr_continue(&mut self, e: &'x syn::ExprContinue) { if self.depth == 0 || e.label.is_some() { self.bad = true; } }
    fn visit_expr_while(&mut self, e: &'x syn::ExprWhile) { self.depth += 1; syn::visit::visit_expr_while(self, e); self.depth -= 1; }
    fn visit_expr_for_loop(&mut self, e: &'x syn::ExprForLoop) { self.depth += 1; syn::visit::visit_expr_for_loop(self, e); self.depth -= 1; }
    fn visit_expr_loop(&mut self, e: &'x syn::ExprLoop) { self.depth += 1; syn::visit::visit_expr_loop(self, e); self.depth -= 1; }
    fn visit_expr_closure(&mut self, e: &'x syn::ExprClosure) { self.depth += 100; syn::visit::visit_expr_closure(self, e); self.depth -= 100; }
}

impl<'a, 'x> Visit<'x> for Whiles<'a> {
    fn visit_item_fn(&mut self, f: &'x syn::ItemFn) { self.func(&f.sig, &f.block); }
    fn visit_impl_item_fn(&mut self, f: &'x syn::ImplItemFn) { self.func(&f.sig, &f.block); }
    fn visit_block(&mut self, b: &'x syn::Block) {
        syn::visit::visit_block(self, b);
        if self.ed.is_some() { return; }
        for k in 0..b.stmts.len() {
            let syn::Stmt::Expr(syn::Expr::While(w), _) = &b.stmts[k] else { continue };
            if w.label.is_some() { continue; }
            if let Some(e) = self.one(b, k, w) { self.ed = Some(e); return; }
        }
    }
}

impl<'a> Whiles<'a> {
    fn t(&self, s: proc_macro2::Span) -> &'a str { &self.text[s.byte_range()] }
    fn func(&mut self, sig: &syn::Signature, b: &syn::Block) {
        if self.ed.is_some() { return; }
        struct M<'b>(&'b mut HashSet<String>);
        impl<'b, 'x> Visit<'x> for M<'b> { fn visit_pat_ident(&mut self, p: &'x syn::PatIdent) { if p.mutability.is_some() { self.0.insert(p.ident.to_string()); } } }
        self.muts.clear();
        for i in &sig.inputs {
            match i {
                syn::FnArg::Receiver(r) => if r.mutability.is_some() { self.muts.insert("self".into()); },
                syn::FnArg::Typed(t) => {
                    if let (syn::Pat::Ident(p), syn::Type::Reference(r)) = (&*t.pat, &*t.ty) { if r.mutability.is_some() { self.muts.insert(p.ident.to_string()); } }
                }
            }
        }
        let mut m = M(&mut self.muts);
        for i in &sig.inputs { m.visit_fn_arg(i); }
        m.visit_block(b);
        self.visit_block(b);
    }
    fn one(&self, b: &syn::Block, k: usize, w: &syn::ExprWhile) -> Option<Vec<(std::ops::Range<usize>, String)>> {
        let syn::Expr::Binary(c) = &*w.cond else { return None };
        if !matches!(c.op, syn::BinOp::Lt(_)) { return None; }
        let syn::Expr::Path(v) = &*c.left else { return None };
        let var = v.path.get_ident()?.to_string();
        let r = root(&c.right)?;
        if r == var || self.muts.contains(&r) { return None; }
        // the declaration, with nothing about the variable in between
        let mut d = k;
        let local = loop {
            d = d.checked_sub(1)?;
            if let syn::Stmt::Local(l) = &b.stmts[d] {
                let p = match &l.pat { syn::Pat::Type(t) => &*t.pat, p => p };
                if matches!(p, syn::Pat::Ident(i) if i.ident == var.as_str() && i.mutability.is_some()) { break l; }
            }
            if mentions(self.t(b.stmts[d].span()), &var) { return None; }
        };
        let init = local.init.as_ref()?;
        if init.diverge.is_some() || root(&init.expr).is_none() { return None; }
        let ir = root(&init.expr)?;
        if d + 1 < k && self.muts.contains(&ir) { return None; }
        // the last statement counts
        let last = w.body.stmts.last()?;
        let syn::Stmt::Expr(e, Some(_)) = last else { return None };
        let lt: String = self.t(e.span()).chars().filter(|c| !c.is_whitespace()).collect();
        if lt != format!("{var}+=1") && lt != format!("{var}={var}+1") { return None; }
        let mut u = Use { var: &var, bad: false, incs: 0, depth: 0 };
        u.visit_block(&w.body);
        if u.bad || u.incs != 1 { return None; }
        for s in &b.stmts[k + 1..] { if mentions(self.t(s.span()), &var) { return None; } }
        let start = self.t(init.expr.span());
        let ty = match &local.pat { syn::Pat::Type(t) => Some(self.t(t.ty.span()).to_string()), _ => None };
        let start = match (ty, start.chars().all(|c| c.is_ascii_digit())) { (Some(t), true) => format!("{start}{t}"), (None, true) => start.to_string(), _ => format!("({start})") };
        let cond = w.cond.span().byte_range();
        let head = w.while_token.span.byte_range().start..cond.end;
        // the counter of a loop inside an outer loop stays in scope only inside the body: nothing after it used it
        Some(vec![
            (local.span().byte_range(), String::new()),
            (head, format!("for {} in {}..{}", var, start, self.t(c.right.span()))),
            (last.span().byte_range(), String::new()),
        ])
    }
}

pub fn whiles(text: &str) -> (String, usize) {
    let mut t = text.to_string();
    let mut n = 0;
    for _ in 0..40 {
        let Ok(ast) = syn::parse_file(&t) else { return (text.to_string(), 0) };
        let mut w = Whiles { text: &t, muts: HashSet::new(), ed: None };
        w.visit_file(&ast);
        let Some(mut ed) = w.ed else { break };
        ed.sort_by_key(|e| e.0.start);
        let mut o = t.clone();
        for (r, s) in ed.into_iter().rev() { o.replace_range(r, &s); }
        t = o;
        n += 1;
    }
    (t, n)
}

// ---------------------------------------------------------------------------
// early returns
// ---------------------------------------------------------------------------

fn exits(e: &dyn Fn(&mut Exit)) -> bool { let mut x = Exit(false); e(&mut x); x.0 }
struct Exit(bool);
impl<'x> Visit<'x> for Exit {
    fn visit_expr_return(&mut self, _: &'x syn::ExprReturn) { self.0 = true; }
    fn visit_expr_try(&mut self, _: &'x syn::ExprTry) { self.0 = true; }
    fn visit_expr_closure(&mut self, _: &'x syn::ExprClosure) {}
    fn visit_item(&mut self, _: &'x syn::Item) {}
    fn visit_macro(&mut self, m: &'x syn::Macro) { if m.tokens.to_string().contains('?') || has_ident(m.tokens.clone(), "return") { self.0 = true; } }
}
fn ex_e(e: &syn::Expr) -> bool { exits(&|x| x.visit_expr(e)) }
fn ex_s(s: &syn::Stmt) -> bool { exits(&|x| x.visit_stmt(s)) }

/// the block's content as an expression without early exits (`None`: not in reach)
pub fn as_expression(body: &str, result_is_option: bool) -> Option<String> {
    let src = format!("{{{}}}", body);
    let b: syn::Block = syn::parse_str(&src).ok()?;
    let c = Conv { text: &src, opt: result_is_option };
    let t = c.stmts(&b.stmts, &[])?;
    if t.len() > 20_000 { return None; }
    Some(t)
}

struct Conv<'a> { text: &'a str, opt: bool }

impl<'a> Conv<'a> {
    fn t(&self, s: proc_macro2::Span) -> &'a str { &self.text[s.byte_range()] }
    fn all(&self, v: &[syn::Stmt]) -> String { v.iter().map(|s| self.t(s.span()).to_string() + "\n").collect() }
    /// statements followed by the remaining statements of the enclosing blocks
    fn stmts(&self, v: &[syn::Stmt], rest: &[&[syn::Stmt]]) -> Option<String> {
        let Some(k) = v.iter().position(ex_s) else {
            let mut o = self.all(v);
            if rest.is_empty() { return Some(o); }
            // a value in front of more statements: only unit
            if let Some(syn::Stmt::Expr(e, None)) = v.last() {
                if !matches!(e, syn::Expr::If(_) | syn::Expr::Match(_) | syn::Expr::Block(_) | syn::Expr::ForLoop(_) | syn::Expr::While(_) | syn::Expr::Loop(_)) { o.push(';'); }
            }
            o.push_str(&self.stmts(rest[0], &rest[1..])?);
            return Some(o);
        };
        let mut o = self.all(&v[..k]);
        let after = &v[k + 1..];
        let mut more: Vec<&[syn::Stmt]> = vec![];
        if !after.is_empty() { more.push(after); }
        more.extend(rest);
        match &v[k] {
            syn::Stmt::Expr(e, _) => o.push_str(&self.expr(e, &more)?),
            syn::Stmt::Local(l) => {
                let i = l.init.as_ref()?;
                let pat = self.t(l.pat.span());
                let bare = match &l.pat { syn::Pat::Type(t) => self.t(t.pat.span()), p => self.t(p.span()) };
                if let Some((_, d)) = &i.diverge {
                    if ex_e(&i.expr) { return None; }
                    let d = self.expr(d, &[])?;
                    o.push_str(&format!("if let {} = {} {{ {} }} else {{ {} }}", pat, self.t(i.expr.span()), self.stmts(&[], &more)?, d));
                    return Some(o);
                }
                match &*i.expr {
                    syn::Expr::Try(t) if !ex_e(&t.expr) => {
                        let e = self.t(t.expr.span());
                        let r = self.stmts(&[], &more)?;
                        if self.opt { o.push_str(&format!("match {} {{ Some({}) => {{ {} }} None => None }}", e, bare, r)); }
                        else { o.push_str(&format!("match {} {{ Ok({}) => {{ {} }} Err(vx_e) => Err(vx_e.into()) }}", e, bare, r)); }
                    }
                    syn::Expr::Match(m) if !ex_e(&m.expr) => {
                        o.push_str(&format!("match {} {{ ", self.t(m.expr.span())));
                        for a in &m.arms {
                            let g = match &a.guard { Some((_, g)) => { if ex_e(g) { return None; } format!(" if {}", self.t(g.span())) } None => String::new() };
                            let body = match &*a.body {
                                syn::Expr::Return(r) => self.t(r.expr.as_ref()?.span()).to_string(),
                                syn::Expr::Block(b) if b.block.stmts.len() == 1 && matches!(&b.block.stmts[0], syn::Stmt::Expr(syn::Expr::Return(_), _)) => {
                                    let syn::Stmt::Expr(syn::Expr::Return(r), _) = &b.block.stmts[0] else { return None };
                                    self.t(r.expr.as_ref()?.span()).to_string()
                                }
                                e if !ex_e(e) => format!("let {} = {}; {}", pat, self.t(e.span()), self.stmts(&[], &more)?),
                                _ => return None,
                            };
                            o.push_str(&format!("{}{} => {{ {} }} ", self.t(a.pat.span()), g, body));
                        }
                        o.push('}');
                    }
                    _ => return None,
                }
            }
            _ => return None,
        }
        Some(o)
    }
    fn block(&self, b: &syn::Block, rest: &[&[syn::Stmt]]) -> Option<String> { Some(format!("{{ {} }}", self.stmts(&b.stmts, rest)?)) }
    fn expr(&self, e: &syn::Expr, rest: &[&[syn::Stmt]]) -> Option<String> {
        match e {
            syn::Expr::Return(r) => {
                let x = r.expr.as_ref()?;
                if ex_e(x) { return self.expr(x, &[]); }
                Some(self.t(x.span()).to_string())
            }
            syn::Expr::If(i) => {
                if ex_e(&i.cond) { return None; }
                let els = match &i.else_branch { Some((_, x)) => match &**x { syn::Expr::Block(b) => self.block(&b.block, rest)?, x => format!("{{ {} }}", self.expr(x, rest)?) }, None => format!("{{ {} }}", self.stmts(&[], rest)?) };
                Some(format!("if {} {} else {}", self.t(i.cond.span()), self.block(&i.then_branch, rest)?, els))
            }
            syn::Expr::Match(m) => {
                if ex_e(&m.expr) { return None; }
                let mut o = format!("match {} {{ ", self.t(m.expr.span()));
                for a in &m.arms {
                    let g = match &a.guard { Some((_, g)) => { if ex_e(g) { return None; } format!(" if {}", self.t(g.span())) } None => String::new() };
                    let body = match &*a.body { syn::Expr::Block(b) => self.block(&b.block, rest)?, x => format!("{{ {} }}", self.expr(x, rest)?) };
                    o.push_str(&format!("{}{} => {} ", self.t(a.pat.span()), g, body));
                }
                Some(o + "}")
            }
            syn::Expr::Block(b) if b.label.is_none() => self.block(&b.block, rest),
            syn::Expr::Try(t) if !ex_e(&t.expr) => {
                let r = self.stmts(&[], rest)?;
                if rest.is_empty() { return None; }
                if self.opt { Some(format!("match {} {{ Some(_) => {{ {} }} None => None }}", self.t(t.expr.span()), r)) }
                else { Some(format!("match {} {{ Ok(_) => {{ {} }} Err(vx_e) => Err(vx_e.into()) }}", self.t(t.expr.span()), r)) }
            }
            e if !ex_e(e) => {
                let t = self.t(e.span()).to_string();
                if rest.is_empty() { return Some(t); }
                Some(format!("{}; {}", t, self.stmts(&[], rest)?))
            }
            _ => None,
        }
    }
}


// ---------------------------------------------------------------------------
// other ways to write the raw accesses
// ---------------------------------------------------------------------------

struct Raws<'a> { text: &'a str, ed: Option<(std::ops::Range<usize>, String)> }

fn raw_place(e: &syn::Expr) -> bool {
    match e {
        syn::Expr::Paren(p) => raw_place(&p.expr),
        syn::Expr::MethodCall(m) if m.method == "bytes_offset" => true,
        syn::Expr::MethodCall(m) if (m.method == "add" || m.method == "offset") && m.args.len() == 1 => raw_field(&m.receiver) || raw_place(&m.receiver),
        _ => false,
    }
}
fn raw_field(e: &syn::Expr) -> bool { matches!(e, syn::Expr::Field(f) if matches!(&f.member, syn::Member::Named(n) if n == "bytes")) }
fn raw_any(e: &syn::Expr) -> bool { raw_place(e) || raw_field(e) }
fn raw_deref(e: &syn::Expr) -> Option<&syn::Expr> {
    match e {
        syn::Expr::Unary(u) if matches!(u.op, syn::UnOp::Deref(_)) && raw_place(&u.expr) => Some(&u.expr),
        _ => None,
    }
}

impl<'a> Raws<'a> { fn t<T: Spanned>(&self, e: &T) -> &'a str { &self.text[e.span().byte_range()] } }
impl<'a, 'x> Visit<'x> for Raws<'a> {
    fn visit_expr(&mut self, e: &'x syn::Expr) {
        if self.ed.is_some() { return; }
        let r = e.span().byte_range();
        match e {
            syn::Expr::Assign(a) => if let Some(p) = raw_deref(&a.left) {
                self.ed = Some((r, format!("{}.write({})", self.t(p), self.t(&*a.right))));
                return;
            },
            syn::Expr::Unary(_) => if let Some(p) = raw_deref(e) {
                self.ed = Some((r, format!("{}.read()", self.t(p))));
                return;
            },
            // the address, not the value
            syn::Expr::Reference(x) if raw_deref(&x.expr).is_some() => return,
            syn::Expr::MethodCall(m) if m.args.len() == 2 && raw_any(&m.receiver) => {
                let (p, q, n) = (self.t(&*m.receiver), self.t(&m.args[0]), self.t(&m.args[1]));
                match m.method.to_string().as_str() {
                    "copy_from" | "copy_from_nonoverlapping" => { self.ed = Some((r, format!("std::ptr::copy({q}, {p}, {n})"))); return; }
                    "copy_to" | "copy_to_nonoverlapping" => { self.ed = Some((r, format!("std::ptr::copy({p}, {q}, {n})"))); return; }
                    _ => {}
                }
            }
            syn::Expr::MethodCall(m) if m.method == "drain" && m.args.len() == 1 => if let syn::Expr::Range(g) = &m.args[0] {
                if g.start.is_none() && g.end.is_none() { self.ed = Some((g.span().byte_range(), "0..".into())); return; }
            },
            syn::Expr::Call(c) => if let syn::Expr::Path(f) = &*c.func {
                let s: Vec<String> = f.path.segments.iter().map(|s| s.ident.to_string()).collect();
                let ptr = s.len() >= 2 && s[s.len() - 2] == "ptr";
                match s.last().unwrap().as_str() {
                    "read" if ptr && c.args.len() == 1 && raw_place(&c.args[0]) => { self.ed = Some((r, format!("{}.read()", self.t(&c.args[0])))); return; }
                    "write" if ptr && c.args.len() == 2 && raw_place(&c.args[0]) => { self.ed = Some((r, format!("{}.write({})", self.t(&c.args[0]), self.t(&c.args[1])))); return; }
                    _ => {}
                }
            },
            _ => {}
        }
        syn::visit::visit_expr(self, e);
    }
}

pub fn raws(text: &str) -> (String, usize) {
    let mut t = text.to_string();
    let mut n = 0;
    for _ in 0..80 {
        let Ok(ast) = syn::parse_file(&t) else { return (text.to_string(), 0) };
        let mut w = Raws { text: &t, ed: None };
        w.visit_file(&ast);
        let Some((r, s)) = w.ed else { break };
        let mut o = t.clone();
        o.replace_range(r, &s);
        t = o;
        n += 1;
    }
    (t, n)
}
