//! Item macros of the crate with one arm (`macro_rules! m { ($a:vis, $b:ident, ...) => { items } }`) are
//! expanded where they are used at file level: arguments replace `$a`, `$crate` becomes `crate`,
//! `paste! { .. }` its content with `[<a b>]` joined to one identifier.
use proc_macro2::{Delimiter, Group, Ident, Span, TokenStream, TokenTree};
use std::collections::HashMap;

pub struct Rule { params: Vec<String>, body: TokenStream }

fn punct(t: Option<&TokenTree>, c: char) -> bool { matches!(t, Some(TokenTree::Punct(p)) if p.as_char() == c) }

pub fn rules(text: &str, out: &mut HashMap<String, Rule>) {
    let Ok(f) = syn::parse_file(text) else { return };
    for it in &f.items {
        let syn::Item::Macro(m) = it else { continue };
        let (Some(name), true) = (&m.ident, m.mac.path.is_ident("macro_rules")) else { continue };
        let v: Vec<TokenTree> = m.mac.tokens.clone().into_iter().collect();
        // one arm: (pattern) => { body } [;]
        let (Some(TokenTree::Group(pat)), true, true, Some(TokenTree::Group(body))) = (v.first(), punct(v.get(1), '='), punct(v.get(2), '>'), v.get(3)) else { continue };
        if v.len() > 5 || (v.len() == 5 && !punct(v.get(4), ';')) { continue; }
        let p: Vec<TokenTree> = pat.stream().into_iter().collect();
        let mut params = vec![];
        let mut i = 0;
        let mut ok = true;
        while i < p.len() {
            match (&p[i], p.get(i + 1), punct(p.get(i + 2), ':'), p.get(i + 3)) {
                (TokenTree::Punct(d), Some(TokenTree::Ident(n)), true, Some(TokenTree::Ident(_))) if d.as_char() == '$' => params.push(n.to_string()),
                _ => { ok = false; break; }
            }
            i += 4;
            if i < p.len() {
                if !punct(p.get(i), ',') { ok = false; break; }
                i += 1;
            }
        }
        if ok { out.insert(name.to_string(), Rule { params, body: body.stream() }); }
    }
}

fn subst(ts: TokenStream, args: &HashMap<String, TokenStream>) -> TokenStream {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut out: Vec<TokenTree> = vec![];
    let mut i = 0;
    while i < v.len() {
        if let (TokenTree::Punct(p), Some(TokenTree::Ident(n))) = (&v[i], v.get(i + 1)) {
            if p.as_char() == '$' {
                if n == "crate" { out.push(TokenTree::Ident(Ident::new("crate", Span::call_site()))); i += 2; continue; }
                if let Some(a) = args.get(&n.to_string()) { out.extend(a.clone()); i += 2; continue; }
            }
        }
        match &v[i] {
            TokenTree::Group(g) => out.push(TokenTree::Group(Group::new(g.delimiter(), subst(g.stream(), args)))),
            t => out.push(t.clone()),
        }
        i += 1;
    }
    out.into_iter().collect()
}

/// `a::b::paste! { X }` -> X with `[< .. >]` joined
fn paste(ts: TokenStream, inside: bool) -> TokenStream {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut out: Vec<TokenTree> = vec![];
    let mut i = 0;
    while i < v.len() {
        if let (TokenTree::Ident(n), true, Some(TokenTree::Group(g))) = (&v[i], punct(v.get(i + 1), '!'), v.get(i + 2)) {
            if n == "paste" {
                // drop the path before it
                while out.len() >= 3 && punct(out.last(), ':') && punct(out.get(out.len() - 2), ':') && matches!(out[out.len() - 3], TokenTree::Ident(_)) {
                    out.truncate(out.len() - 3);
                }
                out.extend(paste(g.stream(), true));
                i += 3;
                if punct(v.get(i), ';') { i += 1; }
                continue;
            }
        }
        match &v[i] {
            TokenTree::Group(g) => {
                let w: Vec<TokenTree> = g.stream().into_iter().collect();
                let joined = inside && g.delimiter() == Delimiter::Bracket && w.len() >= 3 && punct(w.first(), '<') && punct(w.last(), '>')
                    && w[1..w.len() - 1].iter().all(|t| matches!(t, TokenTree::Ident(_)));
                if joined {
                    let s: String = w[1..w.len() - 1].iter().map(|t| t.to_string()).collect();
                    out.push(TokenTree::Ident(Ident::new(&s, Span::call_site())));
                } else {
                    out.push(TokenTree::Group(Group::new(g.delimiter(), paste(g.stream(), inside))));
                }
            }
            t => out.push(t.clone()),
        }
        i += 1;
    }
    out.into_iter().collect()
}

pub fn expand(text: &str, rs: &HashMap<String, Rule>) -> String {
    let Ok(f) = syn::parse_file(text) else { return text.to_string() };
    let mut ed: Vec<(std::ops::Range<usize>, String)> = vec![];
    for it in &f.items {
        let syn::Item::Macro(m) = it else { continue };
        if m.ident.is_some() { continue; }
        let Some(r) = m.mac.path.segments.last().and_then(|s| rs.get(&s.ident.to_string())) else { continue };
        let mut args: Vec<Vec<TokenTree>> = vec![vec![]];
        for t in m.mac.tokens.clone() {
            if matches!(&t, TokenTree::Punct(p) if p.as_char() == ',') { args.push(vec![]); } else { args.last_mut().unwrap().push(t); }
        }
        if args.last().map(|a| a.is_empty()).unwrap_or(false) && args.len() == r.params.len() + 1 { args.pop(); }
        if args.len() != r.params.len() { continue; }
        let map: HashMap<String, TokenStream> = r.params.iter().cloned().zip(args.into_iter().map(|a| a.into_iter().collect())).collect();
        let t = paste(subst(r.body.clone(), &map), false);
        ed.push((syn::spanned::Spanned::span(it).byte_range(), t.to_string()));
    }
    let mut out = text.to_string();
    for (r, t) in ed.into_iter().rev() { out.replace_range(r, &t); }
    out
}
