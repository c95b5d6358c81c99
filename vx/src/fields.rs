//! Renamed private fields and functions.  Contracts mention fields by the name they had when the contract was written
//! (`contracts/fields.txt`, made by `vx --fields`).  A field of that list its struct no longer has is
//! matched with the new field of the same type in its place, and the contracts' text follows.
use crate::dsl::{Directive, Section};
use std::collections::{BTreeMap, BTreeSet};
use syn::spanned::Spanned;

static RAW: std::sync::OnceLock<String> = std::sync::OnceLock::new();
/// the field of the packed data that holds the allocation
pub fn raw_pointer() -> Option<&'static str> { RAW.get().map(|x| x.as_str()) }
pub fn note_raw(now: &Table) {
    if let Some(x) = now.get("PackedOrbitData").and_then(|v| v.iter().find(|x| x.1 == "*mutu8")) { let _ = RAW.set(x.0.clone()); }
}

pub type Table = BTreeMap<String, Vec<(String, String)>>;

pub fn of(f: &crate::SrcFile, name: &str) -> Option<Vec<(String, String)>> {
    for it in crate::items_of(f) {
        let syn::Item::Struct(s) = it else { continue };
        if s.ident != name { continue; }
        return Some(s.fields.iter().filter_map(|x| Some((x.ident.as_ref()?.to_string(), f.text[x.ty.span().byte_range()].split_whitespace().collect::<String>()))).collect());
    }
    None
}

pub fn load(p: &std::path::Path) -> Table {
    let mut o = Table::new();
    for l in std::fs::read_to_string(p).unwrap_or_default().lines() {
        let w: Vec<&str> = l.splitn(3, '\t').collect();
        if w.len() == 3 { o.entry(w[0].to_string()).or_default().push((w[1].to_string(), w[2].to_string())); }
    }
    o
}

type Map = BTreeMap<String, String>;

/// per struct: old field name -> new field name; and the ones that mean the same in all structs
pub fn renamed(base: &Table, now: &Table) -> (BTreeMap<String, Map>, Map) {
    let mut per: BTreeMap<String, Map> = BTreeMap::new();
    let mut all = Map::new();
    let mut bad: BTreeSet<String> = BTreeSet::new();
    for (s, b) in base {
        let Some(n) = now.get(s) else { continue };
        let gone: Vec<_> = b.iter().filter(|x| !n.iter().any(|y| y.0 == x.0)).collect();
        let new: Vec<_> = n.iter().filter(|x| !b.iter().any(|y| y.0 == x.0)).collect();
        for t in gone.iter().map(|x| &x.1).collect::<BTreeSet<_>>() {
            let g: Vec<_> = gone.iter().filter(|x| &x.1 == t).collect();
            let w: Vec<_> = new.iter().filter(|x| &x.1 == t).collect();
            if g.len() != w.len() { continue; }
            for (x, y) in g.iter().zip(w) {
                per.entry(s.clone()).or_default().insert(x.0.clone(), y.0.clone());
                if all.insert(x.0.clone(), y.0.clone()).map_or(false, |p| p != y.0) { bad.insert(x.0.clone()); }
            }
        }
    }
    // a name other structs keep: only where it is said of `self`
    all.retain(|k, _| !bad.contains(k) && !now.values().any(|n| n.iter().any(|x| &x.0 == k)));
    for m in per.values_mut() { m.retain(|k, _| !all.contains_key(k)); }
    per.retain(|_, m| !m.is_empty());
    (per, all)
}

fn fix(t: &str, m: &Map, own: bool) -> String {
    let w = |c: char| c.is_alphanumeric() || c == '_';
    let mut o = String::new();
    let mut it = t.char_indices().peekable();
    while let Some((i, c)) = it.next() {
        if !w(c) { o.push(c); continue; }
        let mut e = i + c.len_utf8();
        while let Some((k, d)) = it.peek() { if w(*d) { e = k + d.len_utf8(); it.next(); } else { break } }
        let word = &t[i..e];
        let pre = &t[..i];
        let of_self = ["self.", "old(self).", "final(self).", "vx_r."].iter().any(|p| pre.ends_with(p));
        let field = (pre.ends_with('.') && !pre.ends_with("..") && !t[e..].starts_with('(') && (!own || of_self)) || pre.ends_with("{field:");
        match m.get(word) { Some(x) if field => o.push_str(x), _ => o.push_str(word) }
    }
    o
}

/// `f` on the parts of a raw text that are `impl NAME { … }`
fn in_impls(t: &str, name: &str, f: &dyn Fn(&str) -> String) -> String {
    let head = format!("\nimpl {name} {{\n");
    let (mut o, mut r) = (String::new(), t);
    while let Some(a) = r.find(&head) {
        let e = r[a + 1..].find("\n}").map_or(r.len(), |k| a + 1 + k);
        o.push_str(&r[..a]);
        o.push_str(&f(&r[a..e]));
        r = &r[e..];
    }
    o + r
}

pub fn apply(unit: &mut [Directive], per: &BTreeMap<String, Map>, all: &Map) {
    let sec = |v: &mut Vec<Section>, m: &Map, own: bool| for s in v { s.text = fix(&s.text, m, own); s.head = fix(&s.head, m, own); };
    for d in unit {
        match d {
            Directive::Raw { text, .. } | Directive::Std { text, .. } => {
                *text = fix(text, all, false);
                for (n, m) in per { *text = in_impls(&format!("\n{text}"), n, &|t| fix(t, m, true))[1..].to_string(); }
            }
            Directive::When { name, fields } => for x in fields {
                if let Some(y) = all.get(x).or_else(|| per.get(name)?.get(x)) { *x = y.clone(); }
            },
            Directive::EndWhen => {}
            Directive::Item { sections, name, .. } => {
                sec(sections, all, false);
                if let Some(m) = per.get(name) { sec(sections, m, true); }
            }
            Directive::Fn(f) => {
                let p = crate::parse_fnpath(&f.path);
                let of = p.ty.clone().unwrap_or_default();
                for v in std::iter::once(&mut f.sections).chain(f.alts.iter_mut()) {
                    sec(v, all, false);
                    if let Some(m) = per.get(&of) { sec(v, m, true); }
                }
            }
        }
    }
}

/// functions outside trait impls: file, path, parameter and result types
pub fn functions(root: &str, files: &[String]) -> Vec<(String, String, String)> {
    fn sig(s: &syn::Signature, t: &str) -> String {
        let mut o = String::new();
        for a in &s.inputs {
            o += &match a { syn::FnArg::Receiver(r) => t[r.span().byte_range()].to_string(), syn::FnArg::Typed(x) => t[x.ty.span().byte_range()].to_string() };
            o.push(',');
        }
        if let syn::ReturnType::Type(_, x) = &s.output { o += &t[x.span().byte_range()]; }
        o.split_whitespace().collect()
    }
    let mut o = vec![];
    for f in files {
        if f.contains("/tests/") || f.contains("/examples/") { continue; }
        let Ok(text) = std::fs::read_to_string(format!("{root}/{f}")) else { continue };
        let Ok(ast) = syn::parse_file(&text) else { continue };
        let g = crate::SrcFile { path: f.clone(), text, ast };
        for it in crate::items_of(&g) {
            match it {
                syn::Item::Fn(x) => o.push((f.clone(), x.sig.ident.to_string(), sig(&x.sig, &g.text))),
                syn::Item::Impl(im) if im.trait_.is_none() => {
                    let ty = crate::type_last_ident(&im.self_ty);
                    for i in &im.items { if let syn::ImplItem::Fn(m) = i { o.push((f.clone(), format!("{ty}::{}", m.sig.ident), sig(&m.sig, &g.text))); } }
                }
                _ => {}
            }
        }
    }
    o
}

/// A function under contract that is gone, when exactly one new function has its type: that one has its contract.
pub fn moved_functions(unit: &mut [Directive], base: &[(String, String, String)], now: &[(String, String, String)]) -> usize {
    let new: Vec<_> = now.iter().filter(|x| !base.iter().any(|y| y.1 == x.1)).collect();
    let gone: Vec<_> = base.iter().filter(|x| !now.iter().any(|y| y.1 == x.1)).collect();
    let scope = |p: &str| p.rsplit_once("::").map_or(String::new(), |x| x.0.to_string());
    let mut n = 0;
    for d in unit {
        let Directive::Fn(fd) = d else { continue };
        let p = crate::parse_fnpath(&fd.path);
        if p.tr.is_some() { continue; }
        let full = match &p.ty { Some(t) => format!("{}::{}", t.split('<').next().unwrap(), p.name), None => p.name.clone() };
        let Some(b) = gone.iter().find(|x| x.1 == full) else { continue };
        let same = |x: &&&(String, String, String)| x.2 == b.2 && scope(&x.1) == scope(&b.1);
        // several of the same type: told apart by their order, when as many came as went
        let g: Vec<_> = gone.iter().filter(same).collect();
        let w: Vec<_> = new.iter().filter(same).collect();
        if g.len() != w.len() { continue; }
        let k = g.iter().position(|x| x.1 == full).unwrap();
        let name = w[k].1.rsplit("::").next().unwrap();
        let cut = fd.path.len() - p.name.len();
        fd.path = format!("{}{}", &fd.path[..cut], name);
        fd.file = w[k].0.clone();
        n += 1;
    }
    n
}
pub fn load_functions(p: &std::path::Path) -> Vec<(String, String, String)> {
    std::fs::read_to_string(p).unwrap_or_default().lines().filter_map(|l| {
        let w: Vec<&str> = l.splitn(3, '\t').collect();
        if w.len() == 3 { Some((w[0].to_string(), w[1].to_string(), w[2].to_string())) } else { None }
    }).collect()
}
