//! Helper functions and constants that have no contract in the unit are unfolded where the functions under
//! contract use them (a call becomes the block `{ let p = arg; .. body }`), so that code moved into a helper is
//! still verified as part of its caller.  A helper is unfolded only where that cannot change what the code does:
//! no recursion, no generics that its types need, and early exits only where they leave the caller the same way.
use crate::{norm, FnPath, SrcFile};
use proc_macro2::{TokenStream, TokenTree};
use std::collections::{BTreeMap, HashMap, HashSet};
use syn::spanned::Spanned;
use syn::visit::Visit;

#[derive(Clone, Debug)]
pub struct Helper {
    ty: Option<String>,
    name: String,
    generics: bool,
    receiver: bool,
    /// (pattern text, plain name if any, `mut`, type text)
    params: Vec<(String, Option<String>, bool, String)>,
    ret: String,
    body: String,
    exits: Exits,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Exits { None, ErrOnly, Any }

#[derive(Default)]
pub struct Known {
    pub fns: HashSet<(Option<String>, String)>,
    pub names: HashSet<String>,
    pub consts: HashSet<String>,
}

impl Known {
    pub fn add(&mut self, p: &FnPath) {
        let ty = p.ty.as_ref().map(|t| last(t));
        self.fns.insert((ty, p.name.clone()));
    }
    pub fn add_raw(&mut self, text: &str) {
        let w: Vec<&str> = text.split(|c: char| !(c.is_alphanumeric() || c == '_')).filter(|s| !s.is_empty()).collect();
        for k in 0..w.len().saturating_sub(1) {
            if w[k] == "fn" { self.names.insert(w[k + 1].to_string()); }
            if w[k] == "const" || w[k] == "static" { self.consts.insert(w[k + 1].to_string()); }
        }
    }
}

fn last(t: &str) -> String {
    let t = norm(t);
    let t = t.split('<').next().unwrap().to_string();
    t.rsplit("::").next().unwrap().to_string()
}

fn is_test(attrs: &[syn::Attribute]) -> bool { attrs.iter().any(|a| a.path().is_ident("cfg") || a.path().is_ident("test")) }

#[derive(Default)]
pub struct Helpers {
    fns: Vec<Helper>,
    consts: HashMap<(Option<String>, String), Option<(String, String)>>,
}

fn exits_of(b: &syn::Block, text: &str) -> Exits {
    struct X<'a> { text: &'a str, any: bool, err: bool }
    impl<'a, 'x> Visit<'x> for X<'a> {
        fn visit_expr_closure(&mut self, _: &'x syn::ExprClosure) {}
        fn visit_item(&mut self, _: &'x syn::Item) {}
        fn visit_expr_try(&mut self, e: &'x syn::ExprTry) { self.err = true; syn::visit::visit_expr_try(self, e); }
        fn visit_expr_return(&mut self, e: &'x syn::ExprReturn) {
            let t = e.expr.as_ref().map(|x| norm(&self.text[x.span().byte_range()])).unwrap_or_default();
            if t.starts_with("Err(") || t == "None" { self.err = true; } else { self.any = true; }
            syn::visit::visit_expr_return(self, e);
        }
        fn visit_macro(&mut self, m: &'x syn::Macro) {
            for t in m.tokens.clone() {
                fn f(t: &TokenTree) -> bool {
                    match t { TokenTree::Ident(i) => i == "return", TokenTree::Punct(p) => p.as_char() == '?', TokenTree::Group(g) => g.stream().into_iter().any(|t| f(&t)), _ => false }
                }
                if f(&t) { self.any = true; }
            }
        }
    }
    let mut x = X { text, any: false, err: false };
    x.visit_block(b);
    if x.any { Exits::Any } else if x.err { Exits::ErrOnly } else { Exits::None }
}

impl Helpers {
    pub fn collect(&mut self, f: &SrcFile) { self.items(&f.ast.items, &f.text); }
    fn items(&mut self, items: &[syn::Item], text: &str) {
        for it in items {
            match it {
                syn::Item::Mod(m) if !is_test(&m.attrs) => if let Some((_, i)) = &m.content { self.items(i, text) },
                syn::Item::Fn(f) if !is_test(&f.attrs) => self.add(None, &f.sig, &f.block, text),
                syn::Item::Const(c) => self.konst(None, c.ident.to_string(), &c.ty, &c.expr, text),
                syn::Item::Impl(im) if im.trait_.is_none() => {
                    let ty = last(&text[im.self_ty.span().byte_range()]);
                    for ii in &im.items {
                        match ii {
                            syn::ImplItem::Fn(m) => self.add(Some(ty.clone()), &m.sig, &m.block, text),
                            syn::ImplItem::Const(c) => self.konst(Some(ty.clone()), c.ident.to_string(), &c.ty, &c.expr, text),
                            _ => {}
                        }
                    }
                }
                _ => {}
            }
        }
    }
    fn konst(&mut self, ty: Option<String>, name: String, t: &syn::Type, e: &syn::Expr, text: &str) {
        let v = (norm(&text[t.span().byte_range()]), text[e.span().byte_range()].to_string());
        // a name with two meanings is left alone
        self.consts.entry((ty, name)).and_modify(|x| *x = None).or_insert(Some(v));
    }
    fn add(&mut self, ty: Option<String>, sig: &syn::Signature, b: &syn::Block, text: &str) {
        if sig.asyncness.is_some() || sig.variadic.is_some() { return; }
        let tx = |r: std::ops::Range<usize>| text[r].to_string();
        let mut params = vec![];
        let mut receiver = false;
        for i in &sig.inputs {
            match i {
                syn::FnArg::Receiver(_) => receiver = true,
                syn::FnArg::Typed(t) => {
                    let (n, m) = match &*t.pat { syn::Pat::Ident(i) if i.by_ref.is_none() && i.subpat.is_none() => (Some(i.ident.to_string()), i.mutability.is_some()), _ => (None, true) };
                    params.push((tx(t.pat.span().byte_range()), n, m, tx(t.ty.span().byte_range())));
                }
            }
        }
        let ret = match &sig.output { syn::ReturnType::Default => String::new(), syn::ReturnType::Type(_, t) => tx(t.span().byte_range()) };
        let generics = sig.generics.params.iter().any(|p| !matches!(p, syn::GenericParam::Lifetime(_)));
        let o = b.brace_token.span.open().byte_range().end;
        let c = b.brace_token.span.close().byte_range().start;
        self.fns.push(Helper { ty, name: sig.ident.to_string(), generics, receiver, params, ret, body: tx(o..c), exits: exits_of(b, text) });
    }
}

/// identifiers of a token stream, in order
fn idents(s: &str) -> Vec<String> {
    fn go(ts: TokenStream, v: &mut Vec<String>) {
        for t in ts { match t { TokenTree::Ident(i) => v.push(i.to_string()), TokenTree::Group(g) => go(g.stream(), v), _ => {} } }
    }
    let mut v = vec![];
    if let Ok(ts) = s.parse::<TokenStream>() { go(ts, &mut v); }
    v
}

/// renames variables (identifiers that are not fields, methods, or path segments after `::`)
fn rename(body: &str, map: &HashMap<String, String>) -> Option<String> {
    let ts: TokenStream = body.parse().ok()?;
    if map.keys().any(|k| body.contains(&format!("{{{}}}", k)) || body.contains(&format!("{{{}:", k))) { return None; }
    let mut ed = vec![];
    fn go(ts: TokenStream, map: &HashMap<String, String>, ed: &mut Vec<(std::ops::Range<usize>, String)>) -> bool {
        let v: Vec<TokenTree> = ts.into_iter().collect();
        for (k, t) in v.iter().enumerate() {
            match t {
                TokenTree::Group(g) => if !go(g.stream(), map, ed) { return false; },
                TokenTree::Ident(i) => {
                    let Some(n) = map.get(&i.to_string()) else { continue };
                    let p1 = k.checked_sub(1).map(|j| &v[j]);
                    let p2 = k.checked_sub(2).map(|j| &v[j]);
                    let dot = matches!(p1, Some(TokenTree::Punct(p)) if p.as_char() == '.') && !matches!(p2, Some(TokenTree::Punct(p)) if p.as_char() == '.');
                    let colons = matches!((p1, p2), (Some(TokenTree::Punct(a)), Some(TokenTree::Punct(b))) if a.as_char() == ':' && b.as_char() == ':');
                    if dot || colons { continue; }
                    let field = matches!(v.get(k + 1), Some(TokenTree::Punct(p)) if p.as_char() == ':' && p.spacing() == proc_macro2::Spacing::Alone)
                        && !matches!(p1, Some(TokenTree::Ident(l)) if l == "let" || l == "mut");
                    if field {
                        // a field of a struct expression, or the parameter of a closure: only the first is harmless
                        if v.iter().any(|t| matches!(t, TokenTree::Punct(p) if p.as_char() == '|')) { return false; }
                        continue;
                    }
                    // `S { x }` shorthand: not told apart from a block, so give up
                    if v.len() == 1 || matches!(v.get(k + 1), Some(TokenTree::Punct(p)) if p.as_char() == ',') || matches!(p1, Some(TokenTree::Punct(p)) if p.as_char() == ',') {
                        // arguments and tuples are in parentheses, which is fine; braces are not
                        ed.push((i.span().byte_range(), format!("\u{1}{}", n)));
                    } else { ed.push((i.span().byte_range(), n.clone())); }
                }
                _ => {}
            }
        }
        true
    }
    if !go(ts, map, &mut ed) { return None; }
    // shorthand check: a marked identifier directly inside braces
    let mut out = body.to_string();
    ed.sort_by_key(|e| e.0.start);
    for (r, t) in ed.into_iter().rev() {
        let t = if let Some(x) = t.strip_prefix('\u{1}') {
            if directly_in_braces(body, r.start) { return None; }
            x.to_string()
        } else { t };
        out.replace_range(r, &t);
    }
    Some(out)
}

fn directly_in_braces(body: &str, at: usize) -> bool {
    fn go(ts: TokenStream, at: usize) -> Option<bool> {
        for t in ts {
            if let TokenTree::Group(g) = t {
                let r = g.span().byte_range();
                if r.start < at && at < r.end {
                    return go(g.stream(), at).or(Some(g.delimiter() == proc_macro2::Delimiter::Brace));
                }
            }
        }
        None
    }
    body.parse::<TokenStream>().ok().and_then(|ts| go(ts, at)).unwrap_or(false)
}

fn strip_lifetimes(t: &str) -> String {
    let mut o = String::new();
    let c: Vec<char> = t.chars().collect();
    let mut k = 0;
    while k < c.len() {
        if c[k] == '\'' {
            k += 1;
            let s = k;
            while k < c.len() && (c[k].is_alphanumeric() || c[k] == '_') { k += 1; }
            let n: String = c[s..k].iter().collect();
            o.push_str(if n == "static" { "'static" } else { "'_" });
        } else { o.push(c[k]); k += 1; }
    }
    o.replace("&'_ ", "&")
}

struct Site { range: std::ops::Range<usize>, text: String, what: String }

struct Finder<'a> {
    text: &'a str,
    hs: &'a Helpers,
    known: &'a Known,
    /// type of the impl we are in, return type of the function we are in
    ty: Option<String>,
    ret: String,
    name: String,
    closures: usize,
    tails: HashSet<(usize, usize)>,
    tries: HashSet<usize>,
    locals: HashSet<String>,
    site: Option<Site>,
}

fn err_type(t: &str) -> Option<String> {
    let t = norm(t);
    if t.starts_with("Option<") { return Some("Option".into()); }
    let k = t.find("Result<")?;
    if t[..k].contains('<') || t[..k].contains('(') { return None; }
    let inner = &t[k + 7..t.len() - 1];
    let mut d = 0;
    let mut at = None;
    for (i, c) in inner.char_indices() {
        match c { '<' | '(' => d += 1, '>' | ')' => d -= 1, ',' if d == 0 => at = Some(i), _ => {} }
    }
    // an alias with one parameter: the same alias means the same error
    Some(match at { Some(i) => inner[i + 1..].to_string(), None => format!("alias {}", &t[..k]) })
}

impl<'a> Finder<'a> {
    fn src(&self, s: proc_macro2::Span) -> String { self.text[s.byte_range()].to_string() }
    fn mark_tail(&mut self, e: &syn::Expr) {
        let r = e.span().byte_range();
        self.tails.insert((r.start, r.end));
        match e {
            syn::Expr::If(i) => {
                self.mark_block(&i.then_branch);
                if let Some((_, x)) = &i.else_branch { self.mark_tail(x); }
            }
            syn::Expr::Match(m) => for a in &m.arms { self.mark_tail(&a.body); },
            syn::Expr::Block(b) => self.mark_block(&b.block),
            _ => {}
        }
    }
    fn mark_block(&mut self, b: &syn::Block) {
        if let Some(syn::Stmt::Expr(e, None)) = b.stmts.last() { self.mark_tail(e); }
    }
    fn find(&self, ty: Option<&str>, name: &str, receiver: bool) -> Option<&Helper> {
        if self.known.names.contains(name) { return None; }
        let c: Vec<&Helper> = self.hs.fns.iter().filter(|h| h.name == name && h.ty.as_deref() == ty && h.receiver == receiver).collect();
        if c.len() != 1 { return None; }
        if self.known.fns.contains(&(ty.map(|s| s.to_string()), name.to_string())) { return None; }
        Some(c[0])
    }
    fn allowed(&self, h: &Helper, start: usize, end: usize) -> bool {
        if h.generics && h.params.iter().any(|p| norm(&p.3).starts_with("impl")) { return false; }
        if idents(&h.body).iter().any(|i| *i == h.name) { return false; }
        if h.exits == Exits::None { return true; }
        if self.same_exit(h, start, end) { return true; }
        crate::normalize::as_expression(&h.body, norm(&h.ret).starts_with("Option<")).is_some()
    }
    /// leaving the helper early leaves the caller the same way
    fn same_exit(&self, h: &Helper, start: usize, end: usize) -> bool {
        if self.closures > 0 { return false; }
        let tail = self.tails.contains(&(start, end)) && norm(&h.ret) == norm(&self.ret);
        match h.exits {
            Exits::None => true,
            Exits::Any => tail,
            Exits::ErrOnly => tail || (self.tries.contains(&end) && err_type(&h.ret).is_some() && err_type(&h.ret) == err_type(&self.ret)),
        }
    }
    fn unfold(&mut self, h: &Helper, recv: Option<String>, args: Vec<String>, range: std::ops::Range<usize>) {
        if args.len() != h.params.len() { return; }
        let tried = self.tries.contains(&range.end);
        let mut body = if self.same_exit(h, range.start, range.end) { h.body.clone() }
            else { match crate::normalize::as_expression(&h.body, norm(&h.ret).starts_with("Option<")) { Some(b) => b, None => return } };
        let exits = if self.same_exit(h, range.start, range.end) { h.exits } else { Exits::None };
        let mut lets = String::new();
        if let Some(r) = recv {
            if r != "self" {
                if !r.chars().all(|c| c.is_alphanumeric() || c == '_' || c == '.') { return; }
                let mut m = HashMap::new();
                m.insert("self".to_string(), r.clone());
                let Some(b) = rename(&body, &m) else { return };
                body = b;
            }
        }
        let bodyids = idents(&body);
        let mut map = HashMap::new();
        let mut pending: Vec<(String, String)> = vec![];
        for (k, (pat, name, mutable, ty)) in h.params.iter().enumerate() {
            let a = &args[k];
            let plain = !a.is_empty() && a.chars().all(|c| c.is_alphanumeric() || c == '_') && !a.chars().next().unwrap().is_ascii_digit() && a != "self";
            let alone = plain && args.iter().enumerate().all(|(j, x)| j == k || !idents(x).contains(a));
            if let (Some(n), true, false) = (name, alone, *mutable) {
                if n == a { continue; }
                if !bodyids.contains(a) && !h.params.iter().any(|p| p.1.as_ref() == Some(a)) { map.insert(n.clone(), a.clone()); continue; }
            }
            let t = if h.generics || norm(ty).contains("impl") { String::new() } else { format!(": {}", strip_lifetimes(ty)) };
            pending.push((format!("{}{}", pat, t), a.clone()));
        }
        if !map.is_empty() {
            match rename(&body, &map) {
                Some(b) => body = b,
                None => { for (n, a) in &map { pending.push((n.clone(), a.clone())); } }
            }
        }
        // all arguments are evaluated before any parameter is bound
        if pending.len() == 1 { lets = format!("let {} = {}; ", pending[0].0, pending[0].1); }
        else if pending.len() > 1 {
            for (j, (_, a)) in pending.iter().enumerate() { lets.push_str(&format!("let vx_arg{} = {}; ", j, a)); }
            let clash = pending.iter().any(|(p, _)| { let n = idents(p); pending.iter().any(|(_, a)| idents(a).iter().any(|i| n.contains(i))) });
            if clash { for (j, (p, _)) in pending.iter().enumerate() { lets.push_str(&format!("let {} = vx_arg{}; ", p, j)); } }
            else { lets = pending.iter().map(|(p, a)| format!("let {} = {}; ", p, a)).collect(); }
        }
        let tail_needs = ["into", "collect", "try_into", "parse", "default", "new"];
        let annotate = !h.ret.is_empty() && !h.generics && !norm(&h.ret).contains("impl") 
            && (tried || exits == Exits::None && bodyids.iter().any(|i| tail_needs.contains(&i.as_str())));
        let text = if annotate { format!("({{ {}let vx_ret: {} = {{ {} }}; vx_ret }})", lets, strip_lifetimes(&h.ret), body) } else { format!("({{ {}{} }})", lets, body) };
        self.site = Some(Site { range, text, what: h.name.clone() });
    }
}

impl<'a> Finder<'a> {
    /// a parser given by name, `fn p(i) { Q(i) }`: `Q`
    fn eta(&self, segs: &[String]) -> Option<String> {
        let name = segs.last().unwrap();
        let h = match segs.len().checked_sub(2).map(|k| segs[k].as_str()) {
            None | Some("self") | Some("super") | Some("crate") => self.find(None, name, false)?,
            Some("Self") => self.find(self.ty.as_deref(), name, false)?,
            Some(_) => return None,
        };
        if h.params.len() != 1 || h.generics { return None; }
        let p = h.params[0].1.clone()?;
        let syn::Expr::Call(c) = syn::parse_str::<syn::Expr>(&h.body).ok()? else { return None };
        if c.args.len() != 1 { return None; }
        let syn::Expr::Path(a) = &c.args[0] else { return None };
        if a.path.get_ident()? != p.as_str() || matches!(&*c.func, syn::Expr::Path(_)) { return None; }
        // (spans of a parsed string are those of the string)
        let f = h.body[c.func.span().byte_range()].to_string();
        if idents(&f).contains(&p) || idents(&f).contains(name) { return None; }
        Some(f)
    }
}

const STD: &[&str] = &["len", "get", "iter", "push", "pop", "insert", "remove", "contains", "clone", "into", "from", "eq", "ne", "cmp", "next", "map", "unwrap", "is_empty", "as_ref", "as_mut", "as_str", "to_string", "fmt", "hash", "default", "extend", "find", "position", "min", "max", "first", "last", "split", "trim", "parse", "abs", "pow", "rem_euclid"];

impl<'a, 'x> Visit<'x> for Finder<'a> {
    fn visit_item_mod(&mut self, m: &'x syn::ItemMod) { if !is_test(&m.attrs) { syn::visit::visit_item_mod(self, m); } }
    fn visit_item_impl(&mut self, im: &'x syn::ItemImpl) {
        self.ty = Some(last(&self.src(im.self_ty.span())));
        syn::visit::visit_item_impl(self, im);
        self.ty = None;
    }
    fn visit_item_fn(&mut self, f: &'x syn::ItemFn) {
        if is_test(&f.attrs) || !self.known.fns.contains(&(None, f.sig.ident.to_string())) || self.name != "" { return; }
        self.enter(&f.sig, &f.block);
    }
    fn visit_impl_item_fn(&mut self, f: &'x syn::ImplItemFn) {
        if !self.known.fns.contains(&(self.ty.clone(), f.sig.ident.to_string())) { return; }
        self.enter(&f.sig, &f.block);
    }
    fn visit_expr_closure(&mut self, e: &'x syn::ExprClosure) { self.closures += 1; syn::visit::visit_expr_closure(self, e); self.closures -= 1; }
    fn visit_expr_return(&mut self, e: &'x syn::ExprReturn) {
        if let Some(x) = &e.expr { if self.closures == 0 { let y = (**x).clone(); self.mark_tail(&y); } }
        syn::visit::visit_expr_return(self, e);
    }
    fn visit_expr_try(&mut self, e: &'x syn::ExprTry) { self.tries.insert(e.expr.span().byte_range().end); syn::visit::visit_expr_try(self, e); }
    fn visit_expr_call(&mut self, e: &'x syn::ExprCall) {
        syn::visit::visit_expr_call(self, e);
        if self.site.is_some() { return; }
        let syn::Expr::Path(p) = &*e.func else { return };
        let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
        let name = segs.last().unwrap().clone();
        let r = e.span().byte_range();
        let mut args: Vec<String> = e.args.iter().map(|a| self.src(a.span())).collect();
        let q = segs.len().checked_sub(2).map(|k| segs[k].clone());
        let (ty, h) = match q.as_deref() {
            None | Some("self") | Some("super") | Some("crate") => { if self.locals.contains(&name) { return; } (None, self.find(None, &name, false)) }
            Some("Self") => { let t = self.ty.clone(); let h = self.find(t.as_deref(), &name, false).or_else(|| self.find(t.as_deref(), &name, true)); (t, h) }
            Some(t) => {
                let h = self.find(Some(t), &name, false).or_else(|| self.find(Some(t), &name, true));
                match h { Some(h) => (Some(t.to_string()), Some(h)), None if t.chars().next().unwrap().is_lowercase() => (None, self.find(None, &name, false)), None => (None, None) }
            }
        };
        let Some(h) = h.cloned() else { return };
        if ty.is_some() && ty != self.ty && idents(&h.body).iter().any(|i| i == "Self") { return; }
        if !self.allowed(&h, r.start, r.end) { return; }
        let recv = if h.receiver {
            if args.is_empty() { return; }
            let a = args.remove(0);
            Some(a.trim_start_matches('&').trim_start_matches("mut ").trim().to_string())
        } else { None };
        self.unfold(&h, recv, args, r);
    }
    fn visit_expr_method_call(&mut self, e: &'x syn::ExprMethodCall) {
        syn::visit::visit_expr_method_call(self, e);
        if self.site.is_some() { return; }
        let name = e.method.to_string();
        let recv = self.src(e.receiver.span());
        let h = if recv == "self" { let t = self.ty.clone(); match t { Some(t) => self.find(Some(&t), &name, true).cloned(), None => None } }
        else if STD.contains(&name.as_str()) { None }
        else {
            let c: Vec<&Helper> = self.hs.fns.iter().filter(|h| h.name == name && h.receiver).collect();
            if c.len() == 1 && !self.known.fns.iter().any(|k| k.1 == name) { let t = c[0].ty.clone(); self.find(t.as_deref(), &name, true).cloned() } else { None }
        };
        let Some(h) = h else { return };
        if h.ty != self.ty && idents(&h.body).iter().any(|i| i == "Self") { return; }
        let r = e.span().byte_range();
        if !self.allowed(&h, r.start, r.end) { return; }
        let args: Vec<String> = e.args.iter().map(|a| self.src(a.span())).collect();
        self.unfold(&h, Some(recv), args, r);
    }
    fn visit_macro(&mut self, m: &'x syn::Macro) {
        let name = m.path.segments.last().unwrap().ident.to_string();
        if !["write", "writeln", "format", "vec", "assert", "assert_eq", "assert_ne", "assert_lt", "assert_le", "debug_assert"].contains(&name.as_str()) { return; }
        let Ok(a) = m.parse_body_with(syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated) else { return };
        for x in &a { self.visit_expr(x); }
    }
    fn visit_expr_path(&mut self, e: &'x syn::ExprPath) {
        if self.site.is_some() || e.qself.is_some() { return; }
        let segs: Vec<String> = e.path.segments.iter().map(|s| s.ident.to_string()).collect();
        let name = segs.last().unwrap().clone();
        if self.locals.contains(&name) { return; }
        if let Some(t) = self.eta(&segs) { self.site = Some(Site { range: e.span().byte_range(), text: t, what: name }); return; }
        if self.known.consts.contains(&name) { return; }
        let key = match segs.len().checked_sub(2).map(|k| segs[k].as_str()) {
            None | Some("self") | Some("super") | Some("crate") => (None, name.clone()),
            Some("Self") => (self.ty.clone(), name.clone()),
            Some(t) => (Some(t.to_string()), name.clone()),
        };
        let Some(Some((ty, ex))) = self.hs.consts.get(&key) else { return };
        const INTS: &[&str] = &["u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize"];
        let digits = ex.chars().all(|c| c.is_ascii_digit() || c == '_');
        let text = if digits && INTS.contains(&ty.as_str()) { format!("{}{}", ex, ty) }
            else if INTS.contains(&ty.as_str()) || ty == "bool" || ty == "char" { format!("({{ let vx_const: {} = {}; vx_const }})", ty, ex) }
            else if ty == "&str" || ty == "&'staticstr" { ex.clone() }
            else { return };
        self.site = Some(Site { range: e.span().byte_range(), text, what: name });
    }
}

impl<'a> Finder<'a> {
    fn enter(&mut self, sig: &syn::Signature, b: &syn::Block) {
        self.name = sig.ident.to_string();
        self.ret = match &sig.output { syn::ReturnType::Default => String::new(), syn::ReturnType::Type(_, t) => self.src(t.span()) };
        self.tails.clear();
        self.tries.clear();
        self.locals.clear();
        struct L<'b>(&'b mut HashSet<String>);
        impl<'b, 'x> Visit<'x> for L<'b> { fn visit_pat_ident(&mut self, p: &'x syn::PatIdent) { self.0.insert(p.ident.to_string()); } fn visit_item_fn(&mut self, f: &'x syn::ItemFn) { self.0.insert(f.sig.ident.to_string()); } }
        let mut l = L(&mut self.locals);
        for i in &sig.inputs { l.visit_fn_arg(i); }
        l.visit_block(b);
        self.mark_block(b);
        self.visit_block(b);
        self.name.clear();
    }
}

/// the text with helpers unfolded, and how often
pub fn unfold(text: &str, hs: &Helpers, known: &Known, counts: &mut BTreeMap<String, usize>) -> String {
    let mut t = text.to_string();
    for _ in 0..60 {
        let Ok(ast) = syn::parse_file(&t) else { return text.to_string() };
        let mut f = Finder { text: &t, hs, known, ty: None, ret: String::new(), name: String::new(), closures: 0, tails: HashSet::new(), tries: HashSet::new(), locals: HashSet::new(), site: None };
        f.visit_file(&ast);
        let Some(s) = f.site else { return t };
        *counts.entry(format!("helper or constant without a contract unfolded: {}", s.what)).or_insert(0) += 1;
        t.replace_range(s.range, &s.text);
    }
    t
}
