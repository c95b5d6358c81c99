//! Text edits applied to extracted items.
use crate::dsl::*;
use crate::{Found, SrcFile};
use proc_macro2::{TokenStream, TokenTree};
use std::collections::{BTreeMap, BTreeSet};
use syn::spanned::Spanned;
use syn::visit::Visit;

#[derive(Debug, Clone)]
struct Edit { start: usize, end: usize, text: String, prio: i32, seq: usize }

struct Edits<'a> {
    v: Vec<Edit>,
    counts: &'a mut BTreeMap<String, usize>,
}
impl<'a> Edits<'a> {
    fn rep(&mut self, start: usize, end: usize, text: &str, kind: &str) {
        let seq = self.v.len();
        self.v.push(Edit { start, end, text: text.to_string(), prio: 0, seq });
        *self.counts.entry(kind.to_string()).or_insert(0) += 1;
    }
    /// prio: among insertions at one position, lower first.
    fn ins(&mut self, pos: usize, text: &str, prio: i32, kind: &str) {
        let seq = self.v.len();
        self.v.push(Edit { start: pos, end: pos, text: text.to_string(), prio, seq });
        if !kind.is_empty() { *self.counts.entry(kind.to_string()).or_insert(0) += 1; }
    }
    fn apply(mut self, text: &str, from: usize, to: usize) -> Result<String, String> {
        self.v.retain(|e| e.start >= from && e.end <= to);
        // insertions at a position come before a replacement starting there
        self.v.sort_by_key(|e| (e.start, if e.start == e.end { 0 } else { 1 }, e.prio, e.seq));
        let mut out = String::new();
        let mut pos = from;
        for e in &self.v {
            if e.start < pos {
                if e.end <= pos && e.text.is_empty() { continue; } // deletion inside a deletion
                if e.end <= pos { continue; } // edit inside a replaced region
                return Err(format!("overlapping edits at byte {}: {:?}", e.start, e.text));
            }
            out.push_str(&text[pos..e.start]);
            out.push_str(&e.text);
            pos = e.end;
        }
        out.push_str(&text[pos..to]);
        Ok(out)
    }
}

/// Strip `super::`, `crate::mod::` prefixes, at token level (also inside macros).
fn strip_paths(ts: TokenStream, ed: &mut Edits) {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut i = 0;
    while i < v.len() {
        if let TokenTree::Group(g) = &v[i] { strip_paths(g.stream(), ed); i += 1; continue; }
        let is_root = matches!(&v[i], TokenTree::Ident(id) if id == "super" || id == "crate");
        if !is_root { i += 1; continue; }
        let is_sep = |k: usize| matches!((v.get(k), v.get(k + 1)), (Some(TokenTree::Punct(a)), Some(TokenTree::Punct(b))) if a.as_char() == ':' && b.as_char() == ':');
        // collect segments
        let mut segs = vec![i];
        let mut k = i + 1;
        while is_sep(k) && matches!(v.get(k + 2), Some(TokenTree::Ident(_))) { segs.push(k + 2); k += 3; }
        if segs.len() == 1 { i += 1; continue; }
        let mut keep = segs.len() - 1;
        for (n, &s) in segs.iter().enumerate() {
            if let TokenTree::Ident(id) = &v[s] {
                if id.to_string().trim_start_matches("r#").starts_with(|c: char| c.is_uppercase()) { keep = n; break; }
            }
        }
        let a = v[segs[0]].span().byte_range().start;
        let b = v[segs[keep]].span().byte_range().start;
        ed.rep(a, b, "", "module path prefix removed");
        i = k;
    }
}

pub fn emit_item(f: &SrcFile, it: &syn::Item, sections: &[Section], counts: &mut BTreeMap<String, usize>) -> Result<String, String> {
    let mut ed = Edits { v: vec![], counts };
    let r = it.span().byte_range();
    let mut attrs: Vec<&syn::Attribute> = vec![];
    let mut pre = String::new();
    for s in sections {
        if s.head == "attr" { pre.push_str(&s.text); }
        if let Some(d) = s.head.strip_prefix("keepderive ") {
            pre.push_str(&format!("#[derive({})]\n", d.split_whitespace().collect::<Vec<_>>().join(", ")));
        }
    }
    let mut vis = |v: &syn::Visibility, at: usize, ed: &mut Edits| match v {
        syn::Visibility::Inherited => ed.ins(at, "pub ", 0, "visibility widened"),
        syn::Visibility::Restricted(x) => { let r = x.span().byte_range(); ed.rep(r.start, r.end, "pub", "visibility widened") }
        _ => {}
    };
    let mut do_fields = |fields: &syn::Fields, is_enum: bool, ed: &mut Edits, attrs: &mut Vec<syn::Attribute>| {
        for fl in fields.iter() {
            attrs.extend(fl.attrs.iter().cloned());
            if is_enum { continue; }
            let at = match &fl.ident { Some(i) => i.span().byte_range().start, None => fl.ty.span().byte_range().start };
            vis(&fl.vis, at, ed);
        }
    };
    let mut inner_attrs: Vec<syn::Attribute> = vec![];
    match it {
        syn::Item::Struct(s) => {
            attrs.extend(s.attrs.iter());
            match &s.vis {
                syn::Visibility::Inherited => ed.ins(s.struct_token.span.byte_range().start, "pub ", 0, "visibility widened"),
                syn::Visibility::Restricted(x) => { let r = x.span().byte_range(); ed.rep(r.start, r.end, "pub", "visibility widened") }
                _ => {}
            }
            do_fields(&s.fields, false, &mut ed, &mut inner_attrs);
            for sec in sections {
                if sec.head == "fields" {
                    if let syn::Fields::Named(n) = &s.fields {
                        let e = n.brace_token.span.close().byte_range().start;
                        let has_comma = n.named.trailing_punct() || n.named.is_empty();
                        ed.ins(e, &format!("{}\n{}", if has_comma { "" } else { "," }, sec.text), 5, "ghost field added");
                    }
                }
            }
        }
        syn::Item::Enum(s) => {
            attrs.extend(s.attrs.iter());
            match &s.vis {
                syn::Visibility::Inherited => ed.ins(s.enum_token.span.byte_range().start, "pub ", 0, "visibility widened"),
                syn::Visibility::Restricted(x) => { let r = x.span().byte_range(); ed.rep(r.start, r.end, "pub", "visibility widened") }
                _ => {}
            }
            for v in &s.variants { inner_attrs.extend(v.attrs.iter().cloned()); do_fields(&v.fields, true, &mut ed, &mut inner_attrs); }
        }
        syn::Item::Const(s) => {
            attrs.extend(s.attrs.iter());
            match &s.vis {
                syn::Visibility::Inherited => ed.ins(s.const_token.span.byte_range().start, "pub ", 0, "visibility widened"),
                syn::Visibility::Restricted(x) => { let r = x.span().byte_range(); ed.rep(r.start, r.end, "pub", "visibility widened") }
                _ => {}
            }
            if let syn::Type::Reference(t) = &*s.ty {
                if t.lifetime.is_none() { ed.ins(t.and_token.span.byte_range().end, "'static ", 0, "'static written out in a const's type"); }
            }
        }
        syn::Item::Type(s) => {
            attrs.extend(s.attrs.iter());
            match &s.vis {
                syn::Visibility::Inherited => ed.ins(s.type_token.span.byte_range().start, "pub ", 0, "visibility widened"),
                syn::Visibility::Restricted(x) => { let r = x.span().byte_range(); ed.rep(r.start, r.end, "pub", "visibility widened") }
                _ => {}
            }
        }
        _ => return Err("unsupported item".into()),
    }
    for a in attrs.into_iter().chain(inner_attrs.iter()) {
        let r = a.span().byte_range();
        ed.rep(r.start, r.end, "", "attribute dropped");
    }
    let ts: TokenStream = quote::ToTokens::to_token_stream(it);
    strip_paths(ts, &mut ed);
    let t = ed.apply(&f.text, r.start, r.end)?;
    Ok(format!("{}{}\n", pre, t))
}

/// Does the item carry `#[derive(which)]`?
/// `t` with the identifier `w` replaced by `by`.
pub fn replace_word(t: &str, w: &str, by: &str) -> String {
    let id = |c: char| c.is_alphanumeric() || c == '_';
    let mut out = String::new();
    let mut rest = t;
    while let Some(k) = rest.find(w) {
        let end = k + w.len();
        let free = !rest[..k].chars().last().is_some_and(id) && !rest[end..].chars().next().is_some_and(id) && !(k == 0 && out.chars().last().is_some_and(id));
        out.push_str(&rest[..k]);
        out.push_str(if free { by } else { w });
        rest = &rest[end..];
    }
    out + rest
}

pub fn derives(it: &syn::Item, which: &str) -> bool {
    let attrs = match it { syn::Item::Struct(s) => &s.attrs, syn::Item::Enum(s) => &s.attrs, _ => return false };
    let mut has = false;
    for a in attrs {
        if !a.path().is_ident("derive") { continue; }
        let _ = a.parse_nested_meta(|m| { if m.path.segments.last().map(|s| s.ident == which).unwrap_or(false) { has = true; } Ok(()) });
    }
    has
}

/// Expands `derive(Clone)` / `derive(PartialEq)` of the source item exactly as rustc does (field by field),
/// with the given contract.  Returns (function id, text).
pub fn emit_derive(it: &syn::Item, which: &str, inherent: bool, spec: &str) -> Result<(String, String), String> {
    let (attrs, name, generics) = match it {
        syn::Item::Struct(s) => (&s.attrs, s.ident.to_string(), &s.generics),
        syn::Item::Enum(s) => (&s.attrs, s.ident.to_string(), &s.generics),
        _ => return Err("derive of an unsupported item".into()),
    };
    if !generics.params.is_empty() { return Err("derive of a generic item".into()); }
    let mut has = false;
    for a in attrs {
        if !a.path().is_ident("derive") { continue; }
        let _ = a.parse_nested_meta(|m| { if m.path.segments.last().map(|s| s.ident == which).unwrap_or(false) { has = true; } Ok(()) });
    }
    if !has { return Err(format!("{} does not derive {}", name, which)); }
    let (spec, hint) = match spec.split_once("---\n") { Some((a, b)) => (a, b), None => (spec, "") };
    let wrap = |b: String| if hint.is_empty() { b } else { format!("let vx_r = {};\n{}vx_r", b, hint) };
    let members = |fs: &syn::Fields| -> Vec<String> { fs.members().map(|m| match m { syn::Member::Named(i) => i.to_string(), syn::Member::Unnamed(i) => i.index.to_string() }).collect() };
    match which {
        "Clone" => {
            let body = match it {
                syn::Item::Struct(s) => {
                    let m = members(&s.fields);
                    let fs: Vec<String> = m.iter().map(|n| format!("{}: self.{}.clone()", n, n)).collect();
                    format!("{} {{ {} }}", name, fs.join(", "))
                }
                syn::Item::Enum(e) => {
                    let mut arms = vec![];
                    for v in &e.variants {
                        let n = v.fields.len();
                        let m = members(&v.fields);
                        let pats: Vec<String> = (0..n).map(|k| format!("{}: vx_{}", m[k], k)).collect();
                        let cons: Vec<String> = (0..n).map(|k| format!("{}: vx_{}.clone()", m[k], k)).collect();
                        arms.push(format!("{}::{} {{ {} }} => {}::{} {{ {} }}", name, v.ident, pats.join(", "), name, v.ident, cons.join(", ")));
                    }
                    format!("match self {{ {} }}", arms.join(", "))
                }
                _ => unreachable!(),
            };
            let id = format!("<{} as Clone>::clone", name);
            Ok((id, format!("{} {} {{\n{}fn clone(&self) -> (r: Self)\n{}{{\n{}\n}}\n}}\n", if inherent { "impl" } else { "impl Clone for" }, name, if inherent { "pub " } else { "" }, spec, wrap(body))))
        }
        "PartialEq" => {
            let body = match it {
                syn::Item::Struct(s) => {
                    let m = members(&s.fields);
                    let fs: Vec<String> = m.iter().map(|n| if inherent { format!("self.{}.eq(&other.{})", n, n) } else { format!("self.{} == other.{}", n, n) }).collect();
                    if fs.is_empty() { "true".to_string() } else { fs.join(" && ") }
                }
                syn::Item::Enum(e) => {
                    let mut arms = vec![];
                    for v in &e.variants {
                        let n = v.fields.len();
                        let m = members(&v.fields);
                        let pa: Vec<String> = (0..n).map(|k| format!("{}: vx_a{}", m[k], k)).collect();
                        let pb: Vec<String> = (0..n).map(|k| format!("{}: vx_b{}", m[k], k)).collect();
                        let mut c: Vec<String> = (0..n).map(|k| format!("*vx_a{} == *vx_b{}", k, k)).collect();
                        if c.is_empty() { c.push("true".into()); }
                        arms.push(format!("({}::{} {{ {} }}, {}::{} {{ {} }}) => {}", name, v.ident, pa.join(", "), name, v.ident, pb.join(", "), c.join(" && ")));
                    }
                    if e.variants.len() > 1 { arms.push("_ => false".into()); }
                    format!("match (self, other) {{ {} }}", arms.join(", "))
                }
                _ => unreachable!(),
            };
            let id = format!("<{} as PartialEq>::eq", name);
            Ok((id, format!("{} {} {{\n{}fn eq(&self, other: &Self) -> (r: bool)\n{}{{\n{}\n}}\n}}\n", if inherent { "impl" } else { "impl PartialEq for" }, name, if inherent { "pub " } else { "" }, spec, wrap(body))))
        }
        "Hash" => {
            let body = match it {
                syn::Item::Struct(s) => members(&s.fields).iter().map(|n| format!("self.{}.hash(state);\n", n)).collect::<String>(),
                _ => return Err("Hash derive of an enum".into()),
            };
            let id = format!("<{} as Hash>::hash", name);
            Ok((id, format!("impl {} {{\npub fn hash<H: std::hash::Hasher>(&self, state: &mut H)\n{}{{\n{}{}\n}}\n}}\n", name, spec, body, hint)))
        }
        _ => Err(format!("unsupported derive {}", which)),
    }
}

pub struct FnRes { pub text: String, pub lost: Vec<String>, pub loops: usize, pub calls: Vec<String>, pub stubbed: bool }

struct V<'a, 'b> {
    text: &'a str,
    ed: &'b mut Edits<'a>,
    loops: Vec<LoopInfo>,
    closures: Vec<(usize, usize, Vec<String>, usize, usize, bool, String)>,
    lets: Vec<(String, String, usize, bool)>, // name, init text, ident start, is mut
    calls: BTreeSet<String>,
    lost: Vec<String>,
    alloc_lets: Vec<(usize, usize, String)>,
    ghost_lit: Option<(String, String)>, // (struct name, field text)
    self_ty: String,
    display: bool,
    maps: Vec<(usize, usize)>,
    call_as: Vec<(String, String)>, // method name -> function name
    eqcall: bool,
    textparse: bool,
    mut_self: bool,
    for_wrap: Option<String>,
    manys: usize,
    many_text: BTreeMap<usize, String>,
}
#[derive(Clone)]
struct LoopInfo { is_for: bool, var: String, in_end: usize, body_open: usize, body_close: usize, start: usize, end: usize, needs_semi_at: Option<usize> }

fn needs_semi(b: &syn::Block) -> Option<usize> {
    if let Some(syn::Stmt::Expr(e, None)) = b.stmts.last() {
        match e {
            syn::Expr::ForLoop(_) | syn::Expr::While(_) | syn::Expr::Loop(_) => None,
            _ => Some(e.span().byte_range().end),
        }
    } else { None }
}

impl<'a, 'b> V<'a, 'b> {
    fn src<T: Spanned>(&self, t: &T) -> &'a str { let r = t.span().byte_range(); &self.text[r] }
    fn owner_of_bytes(&self, e: &syn::Expr) -> Option<String> {
        // finds R in R.bytes or R.bytes_offset(..) inside e
        struct F { r: Option<proc_macro2::Span> }
        impl<'x> Visit<'x> for F {
            fn visit_expr_field(&mut self, e: &'x syn::ExprField) {
                if let syn::Member::Named(n) = &e.member { if crate::fields::raw_pointer().map_or(n == "bytes", |p| n == p) { self.r = Some(e.base.span()); return; } }
                syn::visit::visit_expr_field(self, e);
            }
            fn visit_expr_method_call(&mut self, e: &'x syn::ExprMethodCall) {
                if e.method == "bytes_offset" { self.r = Some(e.receiver.span()); return; }
                syn::visit::visit_expr_method_call(self, e);
            }
        }
        let mut f = F { r: None };
        f.visit_expr(e);
        f.r.map(|s| self.text[s.byte_range()].to_string())
    }
    fn mac(&mut self, m: &syn::Macro, stmt_semi: bool) {
        let name = m.path.segments.last().unwrap().ident.to_string();
        let full = m.span().byte_range();
        let open = m.delimiter.span().open().byte_range();
        let close = m.delimiter.span().close().byte_range();
        let parser = syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated;
        let base = name.trim_start_matches("debug_");
        let op = match base { "assert_lt" => "<", "assert_le" => "<=", "assert_gt" => ">", "assert_ge" => ">=", "assert_eq" => "==", "assert_ne" => "!=", _ => "" };
        let _ = stmt_semi;
        if !op.is_empty() {
            let Ok(args) = m.parse_body_with(parser) else { self.lost.push(format!("macro {name}")); return };
            let a: Vec<&syn::Expr> = args.iter().collect();
            if a.len() < 2 { self.lost.push(format!("macro {name}")); return }
            let r0 = a[0].span().byte_range();
            let r1 = a[1].span().byte_range();
            self.ed.rep(full.start, r0.start, "vx_assert((", "assertion macro -> vx_assert precondition");
            self.ed.rep(r0.end, r1.start, &format!(") {} (", op), "");
            self.ed.rep(r1.end, close.end, "))", "");
            let (x, y) = (a[0].clone(), a[1].clone());
            self.visit_expr(&x);
            self.visit_expr(&y);
            return;
        }
        match base {
            "assert" => {
                let Ok(args) = m.parse_body_with(parser) else { self.lost.push(format!("macro {name}")); return };
                let a: Vec<&syn::Expr> = args.iter().collect();
                let r0 = a[0].span().byte_range();
                self.ed.rep(full.start, open.end, "vx_assert(", "assertion macro -> vx_assert precondition");
                self.ed.rep(r0.end, close.end, ")", "");
                let x = a[0].clone();
                self.visit_expr(&x);
            }
            "panic" | "unreachable" | "todo" | "unimplemented" => {
                self.ed.rep(full.start, close.end, "vx_panic()", "panic! -> unreachable obligation");
            }
            "format" => {
                if self.display { self.format_macro(m, full.start, close.end, false); }
                else { self.ed.rep(full.start, close.end, "vx_format()", "format! -> arbitrary String"); }
            }
            "eprintln" | "println" | "eprint" => {
                self.ed.rep(full.start, close.end, "()", "console output dropped");
            }
            "write" | "writeln" => {
                self.format_macro(m, full.start, close.end, true);
            }
            "include_bytes" => {
                self.ed.rep(full.start, open.end, "vx_file(", "include_bytes! -> the file's bytes");
                self.ed.rep(close.start, close.end, ")", "");
            }
            "vec" | "matches" => {
                if let Ok(args) = m.parse_body_with(parser) {
                    for a in args.iter() { let x = a.clone(); self.visit_expr(&x); }
                }
            }
            _ => self.lost.push(format!("unsupported macro {name}!")),
        }
    }
    fn format_macro(&mut self, m: &syn::Macro, start: usize, end: usize, is_write: bool) {
        let parser = syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated;
        let Ok(args) = m.parse_body_with(parser) else { self.lost.push("write! arguments".into()); return };
        let mut a: Vec<syn::Expr> = args.iter().cloned().collect();
        let name = m.path.segments.last().unwrap().ident.to_string();
        let sink = if is_write { let e = a.remove(0); self.src(&e).to_string() } else { String::new() };
        let mut lit = if a.is_empty() { String::new() } else {
            match &a.remove(0) {
                syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(s), .. }) => s.value(),
                _ => { self.lost.push("write! format string".into()); return }
            }
        };
        if name == "writeln" { lit.push('\n'); }
        // split
        let mut parts: Vec<Result<String, String>> = vec![];
        let mut cur = String::new();
        let mut cs = lit.chars().peekable();
        let mut pos = 0;
        while let Some(c) = cs.next() {
            match c {
                '{' if cs.peek() == Some(&'{') => { cs.next(); cur.push('{'); }
                '}' if cs.peek() == Some(&'}') => { cs.next(); cur.push('}'); }
                '{' => {
                    let mut spec = String::new();
                    for d in cs.by_ref() { if d == '}' { break; } spec.push(d); }
                    if !cur.is_empty() { parts.push(Ok(std::mem::take(&mut cur))); }
                    if spec.is_empty() {
                        if pos >= a.len() { self.lost.push("write! argument count".into()); return }
                        let t = self.src(&a[pos]).to_string();
                        pos += 1;
                        parts.push(Err(t));
                    } else if spec.chars().all(|c| c.is_alphanumeric() || c == '_') && !spec.chars().next().unwrap().is_ascii_digit() {
                        parts.push(Err(spec));
                    } else { self.lost.push("write! format spec".into()); return }
                }
                c => cur.push(c),
            }
        }
        if !cur.is_empty() { parts.push(Ok(cur)); }
        for p in parts.iter_mut() {
            // arguments are copied as text: strip module paths
            if let Err(t) = p {
                if let Ok(ts) = t.parse::<TokenStream>() {
                    let _ = ts;
                    for pre in ["super::", "crate::alg::", "crate::kpuzzle::"] { *t = t.replace(pre, ""); }
                }
            }
        }
        // arguments are evaluated first, in order, then written one after the other
        let mut s = String::from("{ ");
        let mut n = 0;
        let mut ops: Vec<String> = vec![];
        let sink_e = if is_write { sink.clone() } else { "&mut vx_f".to_string() };
        for p in &parts {
            match p {
                Ok(l) => ops.push(format!("vx_write_str({}, {:?})", sink_e, l)),
                Err(t) => {
                    s.push_str(&format!("let vx_a{} = &({}); ", n, t));
                    ops.push(format!("vx_a{}.fmt({})", n, sink_e));
                    n += 1;
                }
            }
        }
        if is_write {
            if ops.is_empty() { ops.push(format!("vx_write_str({}, \"\")", sink_e)); }
            let n = ops.len();
            for (k, e) in ops.iter().enumerate() {
                if k + 1 < n { s.push_str(&format!("match {} {{ Err(vx_e) => Err(vx_e), Ok(_) => ", e)); } else { s.push_str(e); }
            }
            for _ in 1..n { s.push_str(" }"); }
            s.push_str(" }");
            self.ed.rep(start, end, &s, "write! expanded to a sequence of writes");
        } else {
            s.push_str("let mut vx_f = vx_formatter(); ");
            for e in &ops { s.push_str(&format!("match {} {{ Ok(_) => {{}} Err(_) => vx_panic() }}; ", e)); }
            s.push_str("vx_formatted(vx_f) }");
            self.ed.rep(start, end, &s, "format! expanded to a sequence of writes to a string");
        }
    }
    /// `P` applied to `inp`, for a nom 7 parser `P`: the combinator's definition, unfolded.
    fn nom(&mut self, e: &syn::Expr, inp: &str, d: usize) -> Result<String, String> {
        let err = "Err(vx_nom_error())";
        match e {
            syn::Expr::Paren(p) => self.nom(&p.expr, inp, d),
            syn::Expr::Path(p) if p.path.get_ident().is_some() => {
                let n = p.path.get_ident().unwrap().to_string();
                self.calls.insert(n.clone());
                Ok(format!("{}({})", n, inp))
            }
            syn::Expr::Call(c) => {
                let syn::Expr::Path(p) = &*c.func else { return Err("parser expression".into()) };
                let name = p.path.segments.last().unwrap().ident.to_string();
                let a: Vec<&syn::Expr> = c.args.iter().collect();
                let (i, o) = (format!("vx_i{}", d), format!("vx_o{}", d));
                let arity = |n: usize| if a.len() == n { Ok(()) } else { Err(format!("arguments of {}", name)) };
                match name.as_str() {
                    "tag" | "one_of" | "take_while1" | "take_while" | "take_till" => {
                        arity(1)?;
                        if matches!(a[0], syn::Expr::Closure(_)) { return Err("closure inside a nested parser".into()); }
                        Ok(format!("vx_{}({}, {})", name, self.src(a[0]), inp))
                    }
                    "opt" => { arity(1)?; let x = self.nom(a[0], inp, d + 1)?;
                        Ok(format!("match {x} {{ Ok(({i}, {o})) => Ok(({i}, Some({o}))), Err(nom::Err::Error(_)) => Ok(({inp}, None)), Err(vx_e) => Err(vx_e) }}")) }
                    "into" => { arity(1)?; let x = self.nom(a[0], inp, d + 1)?;
                        Ok(format!("match {x} {{ Ok(({i}, {o})) => Ok(({i}, {o}.into())), Err(vx_e) => Err(vx_e) }}")) }
                    "map_res" => { arity(2)?; let x = self.nom(a[0], inp, d + 1)?; let f = self.src(a[1]);
                        if !matches!(a[1], syn::Expr::Path(_)) { return Err("map_res with a closure".into()); }
                        Ok(format!("match {x} {{ Ok(({i}, {o})) => match {f}({o}) {{ Ok({o}) => Ok(({i}, {o})), Err(_) => {err} }}, Err(vx_e) => Err(vx_e) }}")) }
                    "map" => { arity(2)?; let x = self.nom(a[0], inp, d + 1)?; let f = self.src(a[1]);
                        if let syn::Expr::Closure(c) = a[1] {
                            // applied on the spot: the parameter is bound and the body evaluated
                            if c.inputs.len() != 1 || c.capture.is_some() { return Err("map with a closure".into()); }
                            struct P(bool);
                            impl<'y> Visit<'y> for P {
                                fn visit_expr_return(&mut self, _: &'y syn::ExprReturn) { self.0 = true; }
                                fn visit_expr_try(&mut self, _: &'y syn::ExprTry) { self.0 = true; }
                                fn visit_macro(&mut self, _: &'y syn::Macro) { self.0 = true; }
                                fn visit_expr_closure(&mut self, _: &'y syn::ExprClosure) { self.0 = true; }
                            }
                            let mut p = P(false);
                            p.visit_expr(&c.body);
                            if p.0 { return Err("map with a closure".into()); }
                            let pat = match &c.inputs[0] { syn::Pat::Type(t) => self.src(&*t.pat), q => self.src(q) };
                            let body = self.src(&*c.body);
                            return Ok(format!("match {x} {{ Ok(({i}, {o})) => Ok(({i}, {{ let {pat} = {o}; {body} }})), Err(vx_e) => Err(vx_e) }}"));
                        }
                        if !matches!(a[1], syn::Expr::Path(_)) { return Err("map with a closure".into()); }
                        Ok(format!("match {x} {{ Ok(({i}, {o})) => Ok(({i}, {f}({o}))), Err(vx_e) => Err(vx_e) }}")) }
                    "value" => { arity(2)?; let x = self.nom(a[1], inp, d + 1)?; let v = self.src(a[0]);
                        Ok(format!("match {x} {{ Ok(({i}, {o})) => Ok(({i}, {v})), Err(vx_e) => Err(vx_e) }}")) }
                    "char" => { arity(1)?;
                        let syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Char(c), .. }) = a[0] else { return Err("char without a literal".into()) };
                        Ok(format!("vx_one_of({:?}, {})", c.value().to_string(), inp)) }
                    "separated_pair" | "delimited" => { arity(3)?;
                        let x = self.nom(a[0], inp, d + 1)?; let y = self.nom(a[1], &i, d + 2)?; let z = self.nom(a[2], &format!("vx_j{d}"), d + 3)?;
                        let res = if name == "delimited" { format!("vx_p{d}") } else { format!("({o}, vx_q{d})") };
                        Ok(format!("match {x} {{ Ok(({i}, {o})) => match {y} {{ Ok((vx_j{d}, vx_p{d})) => match {z} {{ Ok((vx_k{d}, vx_q{d})) => Ok((vx_k{d}, {res})), Err(vx_e) => Err(vx_e) }}, Err(vx_e) => Err(vx_e) }}, Err(vx_e) => Err(vx_e) }}")) }
                    "pair" | "preceded" | "terminated" => { arity(2)?;
                        let x = self.nom(a[0], inp, d + 1)?; let y = self.nom(a[1], &i, d + 2)?;
                        let res = match name.as_str() { "pair" => format!("({o}, vx_p{d})"), "preceded" => format!("vx_p{d}"), _ => o.clone() };
                        Ok(format!("match {x} {{ Ok(({i}, {o})) => match {y} {{ Ok((vx_j{d}, vx_p{d})) => Ok((vx_j{d}, {res})), Err(vx_e) => Err(vx_e) }}, Err(vx_e) => Err(vx_e) }}")) }
                    "alt" => { arity(1)?;
                        let syn::Expr::Tuple(t) = a[0] else { return Err("alt without a tuple".into()) };
                        let v: Vec<String> = t.elems.iter().map(|p| self.nom(p, inp, d + 1)).collect::<Result<_, _>>()?;
                        let mut s = v.last().ok_or("empty alt")?.clone();
                        for x in v[..v.len() - 1].iter().rev() { s = format!("match {x} {{ Err(nom::Err::Error(_)) => {s}, vx_r => vx_r }}"); }
                        Ok(s) }
                    "all_consuming" => { arity(1)?; let x = self.nom(a[0], inp, d + 1)?;
                        Ok(format!("match {x} {{ Ok(({i}, {o})) => if vx_str_empty({i}) {{ Ok(({i}, {o})) }} else {{ {err} }}, Err(vx_e) => Err(vx_e) }}")) }
                    "many0" | "many1" => { arity(1)?;
                        let k = self.manys; self.manys += 1;
                        let Some(t) = self.many_text.get(&k).cloned() else { return Err(format!("repetition {} has no invariant", k)) };
                        let (inv, hs) = t.split_once("---\n").unwrap_or((&t, ""));
                        let (h1, h2) = hs.split_once("---\n").unwrap_or((hs, ""));
                        let v = format!("vx_in{k}");
                        let x = self.nom(a[0], &v, d + 1)?;
                        let first = if name == "many1" {
                            format!("match {x} {{ Ok(({i}, {o})) => {{ vx_acc{k}.push({o}); {v} = {i}; }} Err(vx_e) => {{ vx_more{k} = false; vx_fail{k} = Some(vx_e); }} }}; ") } else { String::new() };
                        Ok(format!("{{ let mut vx_acc{k} = Vec::new(); let mut {v} = {inp}; let mut vx_more{k} = true; let mut vx_fail{k} = None; {first}\n\
                            while vx_more{k}\n{inv}{{\nlet ghost vx_c{k} = {v}@; let ghost vx_b{k} = vx_acc{k}@;\n{h1}\n\
                            match {x} {{ Err(nom::Err::Error(_)) => {{ vx_more{k} = false; }} Err(vx_e) => {{ vx_more{k} = false; vx_fail{k} = Some(vx_e); }}\n\
                            Ok(({i}, {o})) => {{ if vx_str_len({i}) == vx_str_len({v}) {{ vx_more{k} = false; vx_fail{k} = Some(vx_nom_err()); }} else {{ {v} = {i}; vx_acc{k}.push({o}); }} }} }}\n{h2} }}\n\
                            match vx_fail{k} {{ Some(vx_e) => Err(vx_e), None => Ok(({v}, vx_acc{k})) }} }}"))
                    }
                    _ => Err(format!("parser combinator {}", name)),
                }
            }
            _ => Err("parser expression".into()),
        }
    }
}

impl<'a, 'b, 'x> Visit<'x> for V<'a, 'b> {
    fn visit_attribute(&mut self, a: &'x syn::Attribute) {
        let r = a.span().byte_range();
        self.ed.rep(r.start, r.end, "", "attribute dropped");
    }
    fn visit_expr_macro(&mut self, m: &'x syn::ExprMacro) {
        for a in &m.attrs { self.visit_attribute(a); }
        self.mac(&m.mac, false);
    }
    fn visit_stmt_macro(&mut self, m: &'x syn::StmtMacro) {
        for a in &m.attrs { self.visit_attribute(a); }
        self.mac(&m.mac, m.semi_token.is_some());
    }
    fn visit_expr_for_loop(&mut self, e: &'x syn::ExprForLoop) {
        let var = match &*e.pat { syn::Pat::Ident(i) => i.ident.to_string(), _ => self.src(&*e.pat).to_string() };
        self.loops.push(LoopInfo { is_for: true, var, in_end: e.in_token.span.byte_range().end,
            body_open: e.body.brace_token.span.open().byte_range().start, body_close: e.body.brace_token.span.close().byte_range().start,
            start: e.span().byte_range().start, end: e.span().byte_range().end, needs_semi_at: needs_semi(&e.body) });
        // `if c { ..; continue; } rest` -> `if c { .. } else { rest }` (Verus for-loops have no `continue`)
        let close = e.body.brace_token.span.close().byte_range().start;
        if let (Some(w), syn::Expr::Path(p)) = (self.for_wrap.clone(), &*e.expr) {
            let r = p.span().byte_range();
            self.ed.ins(r.start, &format!("{}(", w), 0, "by-value iteration over a set -> over the vector of its elements");
            self.ed.ins(r.end, ")", 0, "");
        }
        for st in &e.body.stmts {
            let syn::Stmt::Expr(syn::Expr::If(i), _) = st else { continue };
            if i.else_branch.is_some() { continue; }
            let Some(syn::Stmt::Expr(syn::Expr::Continue(c), semi)) = i.then_branch.stmts.last() else { continue };
            if c.label.is_some() { continue; }
            let cr = c.span().byte_range();
            self.ed.rep(cr.start, semi.as_ref().map(|s| s.span.byte_range().end).unwrap_or(cr.end), "", "`continue` in a for loop -> else branch");
            self.ed.ins(i.span().byte_range().end, " else {", -9, "");
            self.ed.ins(close, "}", 5, "");
        }
        syn::visit::visit_expr_for_loop(self, e);
    }
    fn visit_expr_while(&mut self, e: &'x syn::ExprWhile) {
        self.loops.push(LoopInfo { is_for: false, var: String::new(), in_end: 0,
            body_open: e.body.brace_token.span.open().byte_range().start, body_close: e.body.brace_token.span.close().byte_range().start,
            start: e.span().byte_range().start, end: e.span().byte_range().end, needs_semi_at: needs_semi(&e.body) });
        syn::visit::visit_expr_while(self, e);
    }
    fn visit_expr_loop(&mut self, e: &'x syn::ExprLoop) {
        self.loops.push(LoopInfo { is_for: false, var: String::new(), in_end: 0,
            body_open: e.body.brace_token.span.open().byte_range().start, body_close: e.body.brace_token.span.close().byte_range().start,
            start: e.span().byte_range().start, end: e.span().byte_range().end, needs_semi_at: needs_semi(&e.body) });
        syn::visit::visit_expr_loop(self, e);
    }
    fn visit_expr_closure(&mut self, e: &'x syn::ExprClosure) {
        let mut pre = String::new();
        let names = e.inputs.iter().enumerate().map(|(k, p)| {
            let q = match p { syn::Pat::Type(t) => &*t.pat, q => q };
            match q {
                syn::Pat::Ident(i) => i.ident.to_string(),
                syn::Pat::Wild(_) => format!("vx_c{}", k),
                syn::Pat::Reference(r) if matches!(&*r.pat, syn::Pat::Ident(_)) => { pre.push_str(&format!("let {} = *vx_c{}; ", self.src(&*r.pat), k)); format!("vx_c{}", k) }
                q => { pre.push_str(&format!("let {} = vx_c{}; ", self.src(q), k)); format!("vx_c{}", k) }
            }
        }).collect();
        let b = e.body.span().byte_range();
        let h0 = e.or1_token.span.byte_range().start;
        self.closures.push((h0, b.start, names, b.start, b.end, matches!(&*e.body, syn::Expr::Block(_)), pre));
        syn::visit::visit_expr_closure(self, e);
    }
    fn visit_local(&mut self, l: &'x syn::Local) {
        let pat = match &l.pat { syn::Pat::Type(t) => &*t.pat, p => p };
        let mut id: Option<(String, usize, bool)> = None;
        if let syn::Pat::Ident(i) = pat {
            id = Some((i.ident.to_string(), i.ident.span().byte_range().start, i.mutability.is_some()));
        }
        if let (Some((n, at, m)), Some(init)) = (&id, &l.init) {
            let t = self.src(&*init.expr).to_string();
            self.lets.push((n.clone(), t.clone(), *at, *m));
            // let X = unsafe { alloc(E) }
            struct A(bool);
            impl<'y> Visit<'y> for A {
                fn visit_expr_call(&mut self, c: &'y syn::ExprCall) {
                    if let syn::Expr::Path(p) = &*c.func { if p.path.segments.last().unwrap().ident == "alloc" { self.0 = true; } }
                    syn::visit::visit_expr_call(self, c);
                }
            }
            let mut a = A(false);
            a.visit_expr(&init.expr);
            if a.0 {
                self.alloc_lets.push((*at, *at + n.len(), n.clone()));
                self.ed.rep(*at, *at + n.len(), &format!("({}, vx_perm)", n), "allocation also returns its ghost permission");
            }
        } else if let Some(init) = &l.init {
            let p = self.src(&l.pat).to_string();
            let t = self.src(&*init.expr).to_string();
            self.lets.push((p, t, l.pat.span().byte_range().start, false));
        }
        syn::visit::visit_local(self, l);
    }
    fn visit_expr_struct(&mut self, e: &'x syn::ExprStruct) {
        if let Some((name, field)) = self.ghost_lit.clone() {
            let last = e.path.segments.last().unwrap().ident.to_string();
            if last == name || (last == "Self" && self.self_ty == name) {
                let close = e.brace_token.span.close().byte_range().start;
                let comma = if e.fields.trailing_punct() || e.fields.is_empty() { "" } else { ", " };
                self.ed.ins(close, &format!("{}{} ", comma, field), 3, "ghost field initialised");
            }
        }
        syn::visit::visit_expr_struct(self, e);
    }
    fn visit_expr_method_call(&mut self, e: &'x syn::ExprMethodCall) {
        let m = e.method.to_string();
        self.calls.insert(m.clone());
        let full = e.span().byte_range();
        let rend = e.receiver.span().byte_range().end;
        if m == "read" && e.args.is_empty() {
            match self.owner_of_bytes(&e.receiver) {
                Some(o) => {
                    self.ed.ins(full.start, "vx_read(", 0, "raw read -> vx_read with ghost permission");
                    self.ed.rep(rend, full.end, &format!(", Tracked({}.perm.borrow()))", o), "");
                }
                None => self.lost.push("raw read through an unknown pointer".into()),
            }
        } else if m == "write" && e.args.len() == 1 {
            match self.owner_of_bytes(&e.receiver) {
                Some(o) => {
                    let a = e.args[0].span().byte_range();
                    self.ed.ins(full.start, "vx_write(", 0, "raw write -> vx_write with ghost permission");
                    self.ed.rep(rend, a.start, ", ", "");
                    self.ed.rep(a.end, full.end, &format!(", Tracked({}.perm.borrow_mut()))", o), "");
                }
                None => self.lost.push("raw write through an unknown pointer".into()),
            }
        }
        if m == "to_string" && e.args.is_empty() && self.display {
            self.ed.ins(full.start, "{ let mut vx_f = vx_formatter(); match (", 0, "to_string() expanded to a write to a string");
            self.ed.rep(rend, full.end, ").fmt(&mut vx_f) { Ok(_) => {} Err(_) => vx_panic() }; vx_formatted(vx_f) }", "");
            self.visit_expr(&e.receiver);
            return;
        }
        if m == "parse" && e.args.is_empty() {
            let f = match &e.turbofish {
                Some(t) => {
                    let t = self.src(&t.args).to_string();
                    if !t.contains("::") && t.chars().next().is_some_and(|c| c.is_lowercase()) { format!("vx_parse_{}", t) } else { self.calls.insert("from_str".into()); format!("{}::from_str", t) }
                }
                None => { self.calls.insert("from_str".into()); "Self::from_str".to_string() }
            };
            self.ed.ins(full.start, &format!("{}(", f), 0, "str::parse -> from_str");
            self.ed.rep(rend, full.end, if self.textparse { ".vx_str())" } else { ")" }, "");
            self.visit_expr(&e.receiver);
            return;
        }
        if let Some((_, t)) = self.call_as.iter().find(|c| c.0 == m).cloned() {
            let close = e.paren_token.span.close().byte_range().start;
            let open = e.paren_token.span.open().byte_range().end;
            let _ = close;
            let (t, pre) = match t.rsplit_once(":&") { Some((a, b)) => (a.to_string(), format!("&{} ", b)), None => (t.clone(), String::new()) };
            self.ed.ins(full.start, &format!("{}({}", t, pre), 0, &format!("method call .{}() -> {}()", m, t));
            self.ed.rep(rend, open, if e.args.is_empty() { "" } else { ", " }, "");
        }
        syn::visit::visit_expr_method_call(self, e);
    }
    fn visit_expr_path(&mut self, e: &'x syn::ExprPath) {
        if self.mut_self && e.path.is_ident("self") {
            let r = e.span().byte_range();
            self.ed.rep(r.start, r.end, "vx_self", "");
        }
        syn::visit::visit_expr_path(self, e);
    }
    fn visit_expr_binary(&mut self, e: &'x syn::ExprBinary) {
        if self.eqcall {
            if let syn::BinOp::Eq(_) = e.op {
                let (l, r) = (e.left.span().byte_range(), e.right.span().byte_range());
                self.ed.rep(l.end, r.start, ".eq(", "`==` on references -> eq()");
                self.ed.ins(r.end, ")", 9, "");
            }
            if let syn::BinOp::Ne(_) = e.op {
                let (l, r) = (e.left.span().byte_range(), e.right.span().byte_range());
                self.ed.ins(l.start, "!", 9, "");
                self.ed.rep(l.end, r.start, ".eq(", "`!=` on references -> !eq()");
                self.ed.ins(r.end, ")", 9, "");
            }
        }
        syn::visit::visit_expr_binary(self, e);
    }
    fn visit_expr_call(&mut self, e: &'x syn::ExprCall) {
        // a nom parser applied to its input
        if let (syn::Expr::Call(c), 1) = (&*e.func, e.args.len()) {
            if let syn::Expr::Path(p) = &*c.func {
                let name = p.path.segments.last().unwrap().ident.to_string();
                let leaf = matches!(name.as_str(), "tag" | "one_of" | "take_while1" | "take_while" | "take_till") && c.args.len() == 1;
                if leaf {
                    let fr = p.span().byte_range();
                    self.ed.rep(fr.start, fr.end, &format!("vx_{}", name), "nom parser -> its contract");
                    self.ed.rep(c.args[0].span().byte_range().end, e.args[0].span().byte_range().start, ", ", "");
                    for a in c.args.iter().chain(e.args.iter()) { self.visit_expr(a); }
                } else {
                    let inp = self.src(&e.args[0]).to_string();
                    let f = (*e.func).clone();
                    let r = e.span().byte_range();
                    match self.nom(&f, &inp, 0) {
                        Ok(t) => self.ed.rep(r.start, r.end, &format!("({})", t), "nom combinator unfolded to its definition"),
                        Err(t) => self.lost.push(format!("unsupported {}", t)),
                    }
                }
                return;
            }
        }
        if let (syn::Expr::Path(p), 2) = (&*e.func, e.args.len()) {
            let t: String = self.src(&p.path).chars().filter(|c| !c.is_whitespace()).collect();
            if t == "Display::fmt" || t.ends_with("::Display::fmt") {
                let full = e.span().byte_range();
                self.ed.rep(full.start, e.args[0].span().byte_range().start, "(", "Display::fmt(x, f) -> x.fmt(f)");
                self.ed.rep(e.args[0].span().byte_range().end, e.args[1].span().byte_range().start, ").fmt(", "");
                self.calls.insert("fmt".into());
                self.visit_expr(&e.args[0]);
                self.visit_expr(&e.args[1]);
                return;
            }
        }
        if let syn::Expr::Path(p) = &*e.func {
            let last = p.path.segments.last().unwrap().ident.to_string();
            self.calls.insert(last.clone());
            let fr = p.span().byte_range();
            let close = e.paren_token.span.close().byte_range().start;
            let first = p.path.segments.first().unwrap().ident.to_string();
            let sep = if e.args.trailing_punct() { "" } else { ", " };
            let raw = first == "std" || first == "core" || first == "ptr" || p.path.segments.len() == 1;
            match last.as_str() {
                "copy" | "copy_nonoverlapping" if raw && e.args.len() == 3 => {
                    let (o1, o2) = (self.owner_of_bytes(&e.args[0]), self.owner_of_bytes(&e.args[1]));
                    if let (Some(o1), Some(o2)) = (o1, o2) {
                        self.ed.rep(fr.start, fr.end, "vx_copy", "ptr::copy -> vx_copy with ghost permissions");
                        self.ed.ins(close, &format!("{}Tracked({}.perm.borrow()), Tracked({}.perm.borrow_mut())", sep, o1, o2), 3, "");
                        self.maps.push((0, 0));
                        let hit = self.lets.iter().find(|l| l.0 == o2 && !l.3).map(|l| l.2);
                        if let Some(at) = hit { self.ed.ins(at, "mut ", 0, "binding made mutable for its ghost permission"); }
                    } else { self.lost.push("raw copy through an unknown pointer".into()); }
                }
                "alloc" if raw => {
                    self.ed.rep(fr.start, fr.end, "vx_alloc", "alloc -> vx_alloc");
                }
                "dealloc" if raw && e.args.len() == 2 => {
                    match self.owner_of_bytes(&e.args[0]) {
                        Some(o) => {
                            self.ed.rep(fr.start, fr.end, "vx_dealloc", "dealloc -> vx_dealloc with ghost permission");
                            self.ed.ins(close, &format!("{}Tracked({}.perm.borrow_mut())", sep, o), 3, "");
                        }
                        None => self.lost.push("dealloc of an unknown pointer".into()),
                    }
                }
                "from_raw_parts" if e.args.len() == 2 => {
                    match self.owner_of_bytes(&e.args[0]) {
                        Some(o) => {
                            self.ed.rep(fr.start, fr.end, "vx_slice", "slice::from_raw_parts -> vx_slice with ghost permission");
                            self.ed.ins(close, &format!("{}Tracked({}.perm.borrow())", sep, o), 3, "");
                        }
                        None => self.lost.push("slice of an unknown pointer".into()),
                    }
                }
                _ => {}
            }
        }
        syn::visit::visit_expr_call(self, e);
    }
}

/// the local variable a struct value takes its field `name` from
fn field_local(block: &syn::Block, name: &str, lets: &[(String, String, usize, bool)]) -> Option<String> {
    struct F<'a> { name: &'a str, out: Vec<String> }
    impl<'a, 'x> Visit<'x> for F<'a> {
        fn visit_expr_struct(&mut self, e: &'x syn::ExprStruct) {
            for f in &e.fields {
                if matches!(&f.member, syn::Member::Named(i) if i == self.name) { if let Some(n) = ident_of(&f.expr) { self.out.push(n); } }
            }
            syn::visit::visit_expr_struct(self, e);
        }
    }
    fn ident_of(e: &syn::Expr) -> Option<String> {
        match e {
            syn::Expr::Path(p) => p.path.get_ident().map(|i| i.to_string()),
            syn::Expr::Call(c) if c.args.len() == 1 => ident_of(&c.args[0]),
            syn::Expr::Paren(p) => ident_of(&p.expr),
            _ => None,
        }
    }
    let mut v = F { name, out: vec![] };
    v.visit_block(block);
    let mut n = match v.out.as_slice() { [n] => n.clone(), _ => return None };
    // `let x = Some(y)`
    for _ in 0..4 {
        let inits: Vec<&(String, String, usize, bool)> = lets.iter().filter(|l| l.0 == n).collect();
        let step = inits.iter().find_map(|l| syn::parse_str::<syn::Expr>(&l.1).ok().and_then(|e| match &e { syn::Expr::Call(_) => ident_of(&e), _ => None }));
        match step { Some(x) if x != n => n = x, _ => break }
    }
    if lets.iter().any(|l| l.0 == n) { Some(n) } else { None }
}

pub fn emit_fn(f: &SrcFile, found: &Found, fd: &FnDir, stub: bool, probe: bool, counts: &mut BTreeMap<String, usize>, base: Option<&Vec<(String, String)>>) -> FnRes {
    let (sig, block, vis, attrs, whole) = match found {
        Found::Free(x) => (&x.sig, &*x.block, &x.vis, &x.attrs, x.span().byte_range()),
        Found::Method(_, m) => (&m.sig, &m.block, &m.vis, &m.attrs, m.span().byte_range()),
    };
    // locals the contract knows by another name
    let moved = match base { Some(b) if !stub => crate::locals::renamed(b, &crate::locals::of(sig, block, &f.text)), _ => BTreeMap::new() };
    if !moved.is_empty() { *counts.entry("renamed local followed in the contract".into()).or_insert(0) += moved.len(); }
    let fd_moved;
    let fd = if moved.is_empty() { fd } else {
        let mut x = fd.clone();
        for s in &mut x.sections { if ["loop", "hint", "closure", "many"].iter().any(|k| s.head.starts_with(&format!("{} ", k))) { s.text = crate::locals::rename(&s.text, &moved); } }
        fd_moved = x;
        &fd_moved
    };
    // locals the contract knows that are gone: invariants about them go as well (less to prove with, not less to prove)
    let gone: Vec<String> = match base {
        Some(b) if !stub => {
            let now = crate::locals::of(sig, block, &f.text);
            b.iter().map(|x| x.0.clone()).filter(|n| !moved.contains_key(n) && !now.iter().any(|y| y.0 == *n) && !sig.inputs.iter().any(|a| matches!(a, syn::FnArg::Typed(t) if f.text[t.pat.span().byte_range()].trim_start_matches("mut ") == *n))).collect()
        }
        _ => vec![],
    };
    let fd_gone;
    let fd = if gone.is_empty() { fd } else {
        let mut x = fd.clone();
        let m: BTreeMap<String, String> = gone.iter().map(|n| (n.clone(), "vx_gone".to_string())).collect();
        let mut n = 0;
        for s in &mut x.sections {
            if !s.head.starts_with("loop ") { continue; }
            let balanced = |l: &str| l.trim_end().ends_with(',') && ["()", "[]", "{}"].iter().all(|b| l.matches(&b[..1]).count() == l.matches(&b[1..]).count());
            let t: String = s.text.lines().filter(|l| { let hit = balanced(l) && crate::locals::rename(l, &m) != *l; if hit { n += 1; } !hit }).map(|l| format!("{}\n", l)).collect();
            s.text = t;
        }
        if n > 0 { *counts.entry("invariant about a local that is gone dropped".into()).or_insert(0) += n; }
        fd_gone = x;
        &fd_gone
    };
    let mut lost: Vec<String> = vec![];
    let body_open = block.brace_token.span.open().byte_range();
    let body_close = block.brace_token.span.close().byte_range();
    let mut ed = Edits { v: vec![], counts };
    for a in attrs { let r = a.span().byte_range(); ed.rep(r.start, r.end, "", "attribute dropped"); }
    let in_trait = matches!(found, Found::Method(im, _) if im.trait_.is_some()) && fd.opt("inherent").is_none();
    let sig_start = sig.span().byte_range().start;
    match vis {
        syn::Visibility::Inherited => { if !in_trait { ed.ins(sig_start, "pub ", 0, "visibility widened"); } }
        syn::Visibility::Restricted(x) => { let r = x.span().byte_range(); ed.rep(r.start, r.end, "pub", "visibility widened"); }
        _ => {}
    }
    if let Some(n) = fd.opt("rename") { let r = sig.ident.span().byte_range(); ed.rep(r.start, r.end, &n, "function renamed"); }
    // parameters
    let params: Vec<String> = sig.inputs.iter().filter_map(|a| match a {
        syn::FnArg::Typed(t) => Some(match &*t.pat { syn::Pat::Ident(i) => i.ident.to_string(), p => f.text[p.span().byte_range()].to_string() }),
        _ => None,
    }).collect();
    if let Some(n) = fd.opt("params") {
        let want: usize = n.parse().unwrap();
        if want != params.len() { lost.push(format!("parameter count changed ({} -> {})", want, params.len())); }
    }
    let retname = fd.sections.iter().find_map(|s| s.head.strip_prefix("ret ").map(|x| x.trim().to_string())).unwrap_or("r".into());
    if let syn::ReturnType::Type(_, t) = &sig.output {
        let r = t.span().byte_range();
        ed.ins(r.start, &format!("({}: ", retname), 0, "");
        ed.ins(r.end, ")", 0, "");
    }
    let self_ty = match found { Found::Method(im, _) => { if let syn::Type::Path(p) = &*im.self_ty { p.path.segments.last().unwrap().ident.to_string() } else { String::new() } } _ => String::new() };
    let ghost_lit = fd.opt("ghostlit").map(|t| { let (a, b) = t.split_once(' ').unwrap(); (a.to_string(), b.to_string()) });
    let mut loops = vec![];
    let mut closures = vec![];
    let mut lets = vec![];
    let mut calls = BTreeSet::new();
    let mut counts2: BTreeMap<String, usize> = BTreeMap::new();
    let mut bed = Edits { v: vec![], counts: &mut counts2 };
    let mut_self = sig.inputs.iter().find_map(|a| match a {
        syn::FnArg::Receiver(r) if r.reference.is_none() && r.mutability.is_some() => Some(r),
        _ => None,
    });
    if let Some(r) = mut_self {
        let m = r.mutability.as_ref().unwrap().span().byte_range();
        let e = r.self_token.span.byte_range();
        ed.rep(m.start, e.start, "", "`mut self` -> `self` with a local");
        if !stub { bed.ins(body_open.end, " let mut vx_self = self; ", -9, ""); }
    }
    if !stub {
        let mut v = V { text: &f.text, ed: &mut bed, loops: vec![], closures: vec![], lets: vec![], calls: BTreeSet::new(), lost: vec![],
            alloc_lets: vec![], ghost_lit, self_ty, display: fd.opt("display").is_some(), maps: vec![],
            call_as: fd.sections.iter().filter_map(|s| s.head.strip_prefix("opt call ")).filter_map(|t| t.trim().split_once(' ')).map(|(a, b)| (a.to_string(), b.trim().to_string())).collect(),
            eqcall: fd.opt("eqcall").is_some(), textparse: fd.opt("textparse").is_some(), mut_self: mut_self.is_some(), for_wrap: fd.opt("forwrap"), manys: 0,
            many_text: fd.sections.iter().filter_map(|s| s.head.strip_prefix("many ").map(|k| (k.trim().parse().unwrap(), s.text.clone()))).collect() };
        v.visit_block(block);
        lost.append(&mut v.lost);
        loops = v.loops; closures = v.closures; lets = v.lets; calls = v.calls;
    }
    for e in bed.v { let seq = ed.v.len(); ed.v.push(Edit { seq, ..e }); }
    for (k, n) in counts2 { if !k.is_empty() { *ed.counts.entry(k).or_insert(0) += n; } }
    // $-substitution
    let mut sub_lost: Vec<String> = vec![];
    let subst = |t: &str, sub_lost: &mut Vec<String>| -> String {
        let mut s = t.to_string();
        for (k, p) in params.iter().enumerate().rev() { s = s.replace(&format!("$p{}", k), p); }
        for (k, l) in loops.iter().enumerate().rev() { s = s.replace(&format!("$for{}", k), &l.var); }
        for (k, c) in closures.iter().enumerate() { for (j, n) in c.2.iter().enumerate() { s = s.replace(&format!("$c{}_{}", k, j), n); } }
        while let Some(a) = s.find("$let{") {
            let b = match s[a..].find('}') { Some(b) => a + b, None => break };
            let key = s[a + 5..b].to_string();
            let (key, nth) = match key.rsplit_once('#') { Some((k, n)) if n.parse::<usize>().is_ok() => (k.to_string(), n.parse::<usize>().unwrap()), _ => (key, 0) };
            let (key, elem) = match key.rsplit_once('@') { Some((k, n)) if n.parse::<usize>().is_ok() => (k.to_string(), n.parse::<usize>().ok()), _ => (key, None) };
            // `field:NAME`: the local that becomes the field NAME of a struct value
            let by_field = key.split(" or ").find_map(|k| k.strip_prefix("field:")).and_then(|k| field_local(block, k, &lets));
            let hits: Vec<&String> = if let Some(x) = &by_field { vec![x; nth + 1] } else { lets.iter().filter(|l| key.split(" or ").any(|key| match key.strip_prefix('=') { Some(k) => crate::norm(&l.1) == crate::norm(k), None => crate::norm(&l.1).contains(&crate::norm(key)) })).map(|l| &l.0).collect() };
            let rep = match hits.get(nth) {
                Some(n) => match elem {
                    None => n.to_string(),
                    // element of a tuple pattern
                    Some(k) => match n.trim_start_matches('(').trim_end_matches(')').split(',').nth(k) {
                        Some(x) => x.trim().trim_start_matches("mut ").to_string(),
                        None => { sub_lost.push(format!("no element {} in `{}`", k, n)); "vx_lost".to_string() }
                    },
                },
                None => { sub_lost.push(format!("no local variable bound to an expression with `{}`", key)); "vx_lost".to_string() }
            };
            s.replace_range(a..=b, &rep);
        }
        s
    };
    let mut text;
    let mut attr_text = String::new();
    for s in &fd.sections { if s.head == "attr" { attr_text.push_str(&s.text); } }
    let spec_text = fd.sect("spec").map(|s| if stub {
        let mut t = s.text.clone();
        // locals are not available in a stub
        t = subst(&t, &mut sub_lost);
        t
    } else { subst(&s.text, &mut sub_lost) }).unwrap_or_default();
    let from;
    if stub {
        // keep the signature only
        let ts: TokenStream = quote::ToTokens::to_token_stream(sig);
        strip_paths(ts, &mut ed);
        from = whole.start;
        // signature edits only: cut at body
        let head = match ed.apply(&f.text, from, body_open.start) { Ok(t) => t, Err(e) => { lost.push(e); String::new() } };
        let spec2: String = spec_text.lines().take_while(|l| !l.trim_start().starts_with("decreases")).map(|l| format!("{}\n", l)).collect();
        text = format!("{}#[verifier::external_body]\n{}\n{}{{ unimplemented!() }}\n", attr_text_stub(&attr_text), head, spec2);
    } else {
        let ts: TokenStream = match found { Found::Free(x) => quote::ToTokens::to_token_stream(x), Found::Method(_, m) => quote::ToTokens::to_token_stream(m) };
        strip_paths(ts, &mut ed);
        ed.ins(body_open.start, &format!("\n{}", spec_text), 0, "contract attached");
        if probe { ed.ins(body_open.end, " proof { assert(false); } ", -5, "vacuity probe"); }
        // loops
        let nsec = fd.sections.iter().filter(|s| s.head.starts_with("loop ")).count();
        if nsec != loops.len() { lost.push(format!("contract has {} loop invariants, function has {} loops", nsec, loops.len())); }
        for s in &fd.sections {
            let mut w = s.head.split_whitespace();
            match w.next().unwrap_or("") {
                "loop" => {
                    let n: usize = w.next().unwrap().parse().unwrap();
                    let it = w.next();
                    let Some(l) = loops.get(n) else { continue };
                    if l.is_for != it.is_some() { lost.push(format!("loop {} changed kind", n)); continue; }
                    if let Some(it) = it { ed.ins(l.in_end, &format!(" {}:", it), 0, ""); }
                    ed.ins(l.body_open, &format!("\n{}", subst(&s.text, &mut sub_lost)), 0, "loop invariant attached");
                }
                "closure" => {
                    let n: usize = w.next().unwrap().parse().unwrap();
                    let Some(c) = closures.get(n) else { lost.push(format!("closure {} not found", n)); continue };
                    ed.rep(c.0, c.1, &format!("{} ", subst(s.text.trim(), &mut sub_lost)), "closure annotated with its contract");
                    if !c.5 || !c.6.is_empty() { ed.ins(c.3, &format!("{{ {}", c.6), 0, ""); ed.ins(c.4, " }", 9, ""); }
                }
                "hint" => {
                    let wh = w.next().unwrap();
                    let t = subst(&s.text, &mut sub_lost);
                    match wh {
                        "start" => ed.ins(body_open.end, &format!("\n{}", t), 0, "proof hint"),
                        "end" => {
                            if let Some(syn::Stmt::Expr(e, None)) = block.stmts.last() {
                                let unit = matches!(sig.output, syn::ReturnType::Default);
                                let r = e.span().byte_range();
                                if unit { 
                                    let lp = matches!(e, syn::Expr::ForLoop(_) | syn::Expr::While(_) | syn::Expr::Loop(_));
                                    ed.ins(body_close.start, &format!("{}\n{}", if lp { "" } else { ";" }, t), 7, "proof hint") }
                                else { ed.ins(r.start, &t, -3, "proof hint") }
                            } else { ed.ins(body_close.start, &t, 7, "proof hint") }
                        }
                        "tail" => {
                            if let Some(syn::Stmt::Expr(e, None)) = block.stmts.last() {
                                let r = e.span().byte_range();
                                let attr_start = r.start;
                                ed.ins(attr_start, "let vx_r = ", -2, "tail expression bound for a proof hint");
                                ed.ins(r.end, &format!(";\n{}vx_r", t), 8, "");
                            } else { lost.push("no tail expression".into()) }
                        }
                        "loopstart" | "loopend" | "before" | "after" => {
                            let n: usize = w.next().unwrap().parse().unwrap();
                            let Some(l) = loops.get(n).cloned() else { continue };
                            match wh {
                                "loopstart" => ed.ins(l.body_open + 1, &format!("\n{}", t), 0, "proof hint"),
                                "loopend" => {
                                    if let Some(p) = l.needs_semi_at { ed.ins(p, ";", 9, ""); }
                                    ed.ins(l.body_close, &t, 7, "proof hint")
                                }
                                "before" => ed.ins(l.start, &t, -3, "proof hint"),
                                _ => ed.ins(l.end, &format!("\n{}", t), 9, "proof hint"),
                            }
                        }
                        x => panic!("unknown hint {x}"),
                    }
                }
                _ => {}
            }
        }
        from = whole.start;
        text = match ed.apply(&f.text, from, whole.end) { Ok(t) => t, Err(e) => { lost.push(e); String::new() } };
        text = format!("{}{}", attr_text, text);
    }
    lost.append(&mut sub_lost);
    for s in &fd.sections {
        if let Some(r) = s.head.strip_prefix("opt sub ") {
            let (a, b) = r.split_once(" => ").unwrap_or_else(|| panic!("bad sub {r}"));
            if text.contains(a) { text = text.replace(a, b); }
        }
    }
    // wrap in impl
    if let Found::Method(im, _) = found {
        let header = if let Some(h) = fd.opt("header") { h } else {
            let a = im.impl_token.span.byte_range().start;
            let b = im.brace_token.span.open().byte_range().start;
            let mut c = BTreeMap::new();
            let mut hed = Edits { v: vec![], counts: &mut c };
            if fd.opt("inherent").is_some() {
                if let Some((bang, p, fr)) = &im.trait_ {
                    let _ = bang;
                    let s = p.span().byte_range().start;
                    hed.rep(s, fr.span.byte_range().end, "", "");
                }
            } else {
                strip_paths(f.text[a..b].parse().unwrap_or_default(), &mut Edits { v: vec![], counts: &mut BTreeMap::new() });
            }
            let h = hed.apply(&f.text, a, b).unwrap();
            let mut h = h;
            for pre in ["super::", "crate::alg::", "crate::kpuzzle::"] { h = h.replace(pre, ""); }
            h
        };
        text = format!("{} {{\n{}\n}}\n", header.trim(), text);
    }
    FnRes { text, lost, loops: loops.len(), calls: calls.into_iter().collect(), stubbed: false }
}

fn attr_text_stub(a: &str) -> String {
    a.lines().filter(|l| !l.contains("rlimit") && !l.contains("exec_allows_no_decreases") && !l.contains("spinoff") && !l.contains("loop_isolation")).map(|l| format!("{}\n", l)).collect()
}
