//! vx: extracts real functions from a Rust source tree, attaches contracts, and
//! writes one Verus file plus a JSON map.  It copies source *text* and applies
//! byte-range edits only; every edit class is counted in the map.
//!
//! usage: vx REPO UNIT.vx OUT.rs OUT.json [--stub ID]... [--assume ID]... [--probe]
mod dsl;
mod expand;
mod fields;
mod inline;
mod locals;
mod normalize;
mod rewrite;
mod unquote;
mod variants;

use dsl::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::fs;
use std::path::Path;
use syn::spanned::Spanned;

pub struct SrcFile {
    pub path: String,
    pub text: String,
    pub ast: syn::File,
}

pub struct Sources {
    root: String,
    pub files: HashMap<String, Option<SrcFile>>,
    rules: Option<HashMap<String, expand::Rule>>,
    known: inline::Known,
    helpers: HashMap<String, inline::Helpers>,
    unfolded: BTreeMap<String, usize>,
}

impl Sources {
    fn load(&mut self, rel: &str) -> Option<&SrcFile> {
        if !self.files.contains_key(rel) {
            let full = format!("{}/{}", self.root, rel);
            if self.rules.is_none() {
                let mut m = HashMap::new();
                for f in self.all_rs("cubing_core/src") {
                    if let Ok(t) = fs::read_to_string(format!("{}/{}", self.root, f)) {
                        if t.contains("macro_rules!") { expand::rules(&t, &mut m); }
                    }
                }
                self.rules = Some(m);
            }
            let rules = self.rules.as_ref().unwrap();
            let prep = |text: String| {
                let text = if text.contains("quote!") { unquote::unquote(&text) } else { text };
                if rules.keys().any(|k| text.contains(&format!("{}!", k))) { expand::expand(&text, rules) } else { text }
            };
            let krate = rel.split('/').next().unwrap().to_string();
            if !self.helpers.contains_key(&krate) {
                let mut h = inline::Helpers::default();
                for f in self.all_rs(&krate) {
                    if f.contains("/tests/") || f.contains("/examples/") { continue; }
                    let Ok(t) = fs::read_to_string(format!("{}/{}", self.root, f)) else { continue };
                    let text = prep(t);
                    if let Ok(ast) = syn::parse_file(&text) { h.collect(&SrcFile { path: f, text, ast }); }
                }
                self.helpers.insert(krate.clone(), h);
            }
            let (hs, known, unfolded) = (&self.helpers[&krate], &self.known, &mut self.unfolded);
            let v = fs::read_to_string(&full).ok().and_then(|text| {
                let text = inline::unfold(&prep(text), hs, known, unfolded);
                let (text, n) = normalize::whiles(&text);
                if n > 0 { *unfolded.entry("counting while loop -> for loop".into()).or_insert(0) += n; }
                let (text, n) = normalize::raws(&text);
                if n > 0 { *unfolded.entry("raw access spelled differently".into()).or_insert(0) += n; }
                let ast = syn::parse_file(&text).ok()?;
                Some(SrcFile { path: rel.to_string(), text, ast })
            });
            self.files.insert(rel.to_string(), v);
        }
        self.files.get(rel).unwrap().as_ref()
    }
    /// the function, in the file or in another one of its crate
    fn has(&mut self, file: &str, p: &FnPath) -> bool {
        if self.load(file).and_then(|f| find_fn(f, p)).is_some() { return true; }
        let dir = file.split('/').next().unwrap().to_string();
        self.all_rs(&dir).iter().any(|c| !c.contains("/tests/") && self.load(c).and_then(|f| find_fn(f, p)).is_some())
    }
    fn all_rs(&self, dir: &str) -> Vec<String> {
        let mut out = vec![];
        let mut stack = vec![format!("{}/{}", self.root, dir)];
        while let Some(d) = stack.pop() {
            if let Ok(rd) = fs::read_dir(&d) {
                let mut es: Vec<_> = rd.flatten().map(|e| e.path()).collect();
                es.sort();
                for p in es {
                    if p.is_dir() {
                        if p.file_name().map(|n| n == "target").unwrap_or(false) { continue; }
                        stack.push(p.to_string_lossy().into_owned());
                    } else if p.extension().map(|e| e == "rs").unwrap_or(false) {
                        let s = p.to_string_lossy().into_owned();
                        out.push(s[self.root.len() + 1..].to_string());
                    }
                }
            }
        }
        out.sort();
        out
    }
}

pub fn norm(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace()).collect()
}

/// `Type::name`, `<Type as Trait>::name` or `name`
#[derive(Debug, Clone)]
pub struct FnPath {
    pub ty: Option<String>,
    pub tr: Option<String>,
    pub name: String,
}
pub fn parse_fnpath(s: &str) -> FnPath {
    let s = s.trim();
    if let Some(rest) = s.strip_prefix('<') {
        let k = rest.rfind(">::").expect("bad path");
        let name = rest[k + 3..].to_string();
        let inner = &rest[..k];
        let (ty, tr) = inner.split_once(" as ").expect("bad path");
        return FnPath { ty: Some(ty.trim().into()), tr: Some(tr.trim().into()), name };
    }
    if let Some(k) = s.rfind("::") {
        return FnPath { ty: Some(s[..k].into()), tr: None, name: s[k + 2..].into() };
    }
    FnPath { ty: None, tr: None, name: s.into() }
}

fn type_base(t: &syn::Type, text: &str) -> String {
    let r = t.span().byte_range();
    norm(&text[r])
}
fn type_last_ident(t: &syn::Type) -> String {
    if let syn::Type::Path(p) = t {
        if let Some(s) = p.path.segments.last() { return s.ident.to_string(); }
    }
    String::new()
}

pub enum Found<'a> {
    Free(&'a syn::ItemFn),
    Method(&'a syn::ItemImpl, &'a syn::ImplItemFn),
}

fn items_of(f: &SrcFile) -> Vec<&syn::Item> {
    // non-test items, including those in inline non-test modules
    fn go<'a>(items: &'a [syn::Item], out: &mut Vec<&'a syn::Item>) {
        for it in items {
            if let syn::Item::Mod(m) = it {
                let is_test = m.attrs.iter().any(|a| a.path().is_ident("cfg"));
                if is_test { continue; }
                if let Some((_, its)) = &m.content { go(its, out); }
                continue;
            }
            out.push(it);
        }
    }
    let mut v = vec![];
    go(&f.ast.items, &mut v);
    v
}

fn find_fn<'a>(f: &'a SrcFile, p: &FnPath) -> Option<Found<'a>> {
    for it in items_of(f) {
        match it {
            syn::Item::Fn(func) if p.ty.is_none() && func.sig.ident == p.name.as_str() => {
                return Some(Found::Free(func))
            }
            syn::Item::Impl(im) => {
                let Some(ty) = &p.ty else { continue };
                let full = type_base(&im.self_ty, &f.text);
                if full != norm(ty) && type_last_ident(&im.self_ty) != *ty { continue; }
                match (&p.tr, &im.trait_) {
                    (None, None) => {}
                    (Some(t), Some((_, path, _))) => {
                        let r = path.span().byte_range();
                        let ft = norm(&f.text[r]);
                        let last = path.segments.last().unwrap();
                        let lr = last.span().byte_range();
                        if ft != norm(t) && norm(&f.text[lr]) != norm(t) && last.ident != t.as_str() { continue; }
                    }
                    _ => continue,
                }
                for ii in &im.items {
                    if let syn::ImplItem::Fn(m) = ii {
                        if m.sig.ident == p.name.as_str() { return Some(Found::Method(im, m)); }
                    }
                }
            }
            _ => {}
        }
    }
    None
}

fn line_of(text: &str, byte: usize) -> usize { text[..byte].matches('\n').count() + 1 }

struct Out {
    buf: String,
    line: usize,
}
impl Out {
    fn push(&mut self, s: &str) {
        // raw identifiers (`r#move`) make the verifier panic: written as `rx_move`
        let t: String;
        let mut s = s;
        if s.contains("r#") {
            let b: Vec<char> = s.chars().collect();
            let mut o = String::new();
            let mut k = 0;
            while k < b.len() {
                let prev_ok = k == 0 || !(b[k - 1].is_alphanumeric() || b[k - 1] == '_');
                if prev_ok && b[k] == 'r' && k + 2 < b.len() && b[k + 1] == '#' && (b[k + 2].is_alphabetic() || b[k + 2] == '_') {
                    o.push_str("rx_");
                    k += 2;
                } else { o.push(b[k]); k += 1; }
            }
            t = o;
            s = &t;
        }
        self.buf.push_str(s);
        self.line += s.matches('\n').count();
    }
}

fn fnv(s: &str) -> String {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s.bytes() { h ^= b as u64; h = h.wrapping_mul(0x100000001b3); }
    format!("{:016x}", h)
}

/// words of a function's text; `f(` for those called
fn mentions(text: &str) -> BTreeSet<String> {
    let mut o = BTreeSet::new();
    for l in text.lines() {
        let l = l.split("//").next().unwrap();
        let mut at = 0;
        let w = |c: char| c.is_alphanumeric() || c == '_';
        while let Some(k) = l[at..].find(w) {
            let s = at + k;
            let e = l[s..].find(|c| !w(c)).map_or(l.len(), |x| s + x);
            o.insert(l[s..e].to_string());
            if (l[e..].starts_with('(') || l[e..].starts_with("::<")) && !l[..s].ends_with("fn ") { o.insert(format!("{}(", &l[s..e])); }
            at = e;
        }
    }
    o
}

/// the file as it is, and with other spellings of the function at `whole`
fn spellings(f: &SrcFile, whole: std::ops::Range<usize>, hs: &inline::Helpers, known: &inline::Known) -> Vec<(Vec<&'static str>, Option<SrcFile>)> {
    let text = &f.text[whole.clone()];
    let mut out: Vec<(Vec<&'static str>, Option<SrcFile>)> = vec![(vec![], None)];
    let mut seen: BTreeSet<String> = BTreeSet::new();
    seen.insert(text.to_string());
    let syntax = ["option", "slicepat", "foreach", "eta", "forpat"];
    let mut combos: Vec<Vec<&str>> = variants::KINDS.iter().map(|k| vec![k.0]).collect();
    for k in ["optmap", "resmap"] { combos.push(vec!["eta", "option", k]); combos.push(vec![k, "option"]); }
    combos.push(vec!["eta", "optmap", "resmap"]);
    combos.push(vec!["refiter", "forpat"]);
    combos.push(syntax.to_vec());
    combos.push(vec!["eta", "flatinto"]);
    combos.push(vec!["extendloop", "flatinto"]);
    for k in ["pushloop", "extendloop", "rangeiter", "iterrange", "collectloop", "optmap", "resmap"] { let mut v = syntax.to_vec(); v.push(k); combos.push(v); }
    for c in combos {
        let mut t = text.to_string();
        let mut labels = vec![];
        for k in &c {
            if let Some(x) = variants::apply(k, &t) { t = x; labels.push(variants::KINDS.iter().find(|y| y.0 == *k).unwrap().1); }
        }
        if !seen.insert(t.clone()) { continue; }
        let full = format!("{}{}{}", &f.text[..whole.start], t, &f.text[whole.end..]);
        let full = if t.contains("vx_n") { inline::unfold(&full, hs, known, &mut BTreeMap::new()) } else { full };
        if let Ok(ast) = syn::parse_file(&full) { out.push((labels, Some(SrcFile { path: f.path.clone(), text: full, ast }))); }
    }
    out
}

/// A derived impl that the source now writes out by hand: the hand-written method gets the contract of the derived one.
fn manual_impls(unit: Vec<Directive>, srcs: &mut Sources) -> Vec<Directive> {
    let mut out = vec![];
    for d in unit {
        let Directive::Item { file, kind, name, mut sections } = d else { out.push(d); continue };
        let mut extra = vec![];
        sections.retain(|s| {
            let Some(which) = s.head.strip_prefix("derive ") else { return true };
            let inherent = which.ends_with(" inherent");
            let which = which.trim().trim_end_matches(" inherent").to_string();
            let m = match which.as_str() { "Clone" => "clone", "PartialEq" => "eq", _ => "hash" };
            let path = format!("<{name} as {which}>::{m}");
            if srcs.load(&file).and_then(|f| find_fn(f, &parse_fnpath(&path))).is_none() { return true; }
            let (spec, proof) = s.text.split_once("---\n").unwrap_or((&s.text, ""));
            let fix = |t: &str| rewrite::replace_word(&rewrite::replace_word(t, "other", "$p0"), "state", "$p0");
            let sec = |head: &str, text: &str| dsl::Section { head: head.into(), text: text.into() };
            let mut ss = vec![sec("ret r", ""), sec("spec", &fix(spec))];
            if inherent { ss.push(sec("opt inherent", "")); }
            if !proof.is_empty() { ss.push(sec(if which == "Hash" { "hint end" } else { "hint tail" }, &fix(proof))); }
            extra.push(Directive::Fn(FnDir { ufile: String::new(), uline: 0, file: file.clone(), path: path.clone(), id: path, trusted: false, optional: false, sections: ss, alts: vec![] }));
            false
        });
        out.push(Directive::Item { file, kind, name, sections });
        if !extra.is_empty() { out.push(Directive::Raw { file: String::new(), line: 0, text: String::new() }); }
        out.extend(extra);
    }
    out
}

fn know(unit: &[Directive], known: &mut inline::Known) {
    for d in unit {
        match d {
            Directive::Raw { text, .. } => known.add_raw(text),
            Directive::Item { name, .. } => { known.consts.insert(name.clone()); }
            Directive::Fn(fd) => known.add(&parse_fnpath(&fd.path)),
            _ => {}
        }
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 5 { eprintln!("usage: vx REPO UNIT OUT.rs OUT.json [--stub ID] [--assume ID]"); std::process::exit(2); }
    let mut stubs: BTreeSet<String> = BTreeSet::new();
    let mut assumes: BTreeSet<String> = BTreeSet::new();
    let mut probe = false;
    let mut list_locals = false;
    let mut list_fields = false;
    let mut cand: HashMap<String, usize> = HashMap::new();
    let mut i = 5;
    while i < args.len() {
        match args[i].as_str() {
            "--stub" => { stubs.insert(args[i + 1].clone()); i += 2; }
            "--assume" => { assumes.insert(args[i + 1].clone()); i += 2; }
            "--cand" => { let (a, b) = args[i + 1].rsplit_once('=').unwrap(); cand.insert(a.to_string(), b.parse().unwrap()); i += 2; }
            "--fields" => { list_fields = true; i += 1; }
            "--locals" => { list_locals = true; i += 1; }
            "--probe" => { probe = true; i += 1; }
            x => panic!("bad arg {x}"),
        }
    }
    let mut srcs = Sources { root: args[1].clone(), files: HashMap::new(), rules: None, known: Default::default(), helpers: HashMap::new(), unfolded: BTreeMap::new() };
    let mut unit = load_unit(Path::new(&args[2]));
    let files: Vec<String> = ["cubing_core", "cubing_macros", "cubing"].iter().flat_map(|d| srcs.all_rs(d)).collect();
    let now = fields::functions(&srcs.root, &files);
    if list_fields { for (a, b, c) in &now { println!("fn\t{a}\t{b}\t{c}"); } }
    let moved_fns = fields::moved_functions(&mut unit, &fields::load_functions(&Path::new(&args[2]).parent().unwrap().join("functions.txt")), &now);
    know(&unit, &mut srcs.known);
    unit.retain(|d| match d { Directive::Fn(fd) if fd.optional => srcs.has(&fd.file, &parse_fnpath(&fd.path)), _ => true });
    let mut have = fields::Table::new();
    for d in &unit {
        let Directive::Item { file, kind, name, .. } = d else { continue };
        if kind != "struct" { continue; }
        if let Some(v) = srcs.load(file).and_then(|f| fields::of(f, name)) { have.insert(name.clone(), v); }
    }
    fields::note_raw(&have);
    if list_fields { for (s, v) in &have { for (n, t) in v { println!("field\t{s}\t{n}\t{t}"); } } return; }
    let (per, moved) = fields::renamed(&fields::load(&Path::new(&args[2]).parent().unwrap().join("fields.txt")), &have);
    fields::apply(&mut unit, &per, &moved);
    // contracts about a representation the source no longer has
    let mut gone: Vec<FnDir> = vec![];
    let mut skip = false;
    unit.retain(|d| match d {
        Directive::When { name, fields } => { skip = !have.get(name).map_or(false, |h| fields.iter().all(|x| h.iter().any(|y| &y.0 == x))); false }
        Directive::EndWhen => { skip = false; false }
        Directive::Fn(fd) if skip => { gone.push(fd.clone()); false }
        _ => !skip,
    });
    let before = unit.len();
    let unit = manual_impls(unit, &mut srcs);
    if unit.len() != before {
        // more functions under contract: their helpers are to be unfolded too
        know(&unit, &mut srcs.known);
        srcs.files.clear();
        srcs.unfolded.clear();
    }
    let base_locals = if list_locals { BTreeMap::new() } else { locals::load(&Path::new(&args[2]).parent().unwrap().join("locals.txt")) };
    let mut out = Out { buf: String::new(), line: 1 };
    let mut fns: Vec<Value> = vec![];
    let mut items: Vec<Value> = vec![];
    let mut errors: Vec<Value> = vec![];
    let mut counts: BTreeMap<String, usize> = BTreeMap::new();
    let mut raws: Vec<Value> = vec![];
    let mut emitted_names: BTreeSet<String> = BTreeSet::new();
    let mut words: Vec<BTreeSet<String>> = vec![];
    for d in &unit {
        match d {
            Directive::Raw { file, line, text } => {
                let l0 = out.line;
                out.push(text);
                if !text.ends_with('\n') { out.push("\n"); }
                raws.push(json!({"unit_file": file, "unit_line": line, "out": [l0, out.line]}));
            }
            Directive::Std { file, line, words: w, text } => {
                if words.iter().any(|f| w.iter().any(|x| x.split('+').enumerate().all(|(k, y)| f.contains(&if k == 0 { format!("{y}(") } else { y.to_string() })))) {
                    let l0 = out.line;
                    out.push(text);
                    raws.push(json!({"unit_file": file, "unit_line": line, "out": [l0, out.line]}));
                }
            }
            Directive::When { .. } | Directive::EndWhen => {}
            Directive::Item { file, kind, name, sections } => {
                let mut found = None;
                srcs.load(file);
                for it in srcs.files[file].as_ref().map(|f| items_of(f)).unwrap_or_default() {
                    let (k, n) = match it {
                        syn::Item::Struct(s) => ("struct", s.ident.to_string()),
                        syn::Item::Enum(s) => ("enum", s.ident.to_string()),
                        syn::Item::Const(s) => ("const", s.ident.to_string()),
                        syn::Item::Type(s) => ("type", s.ident.to_string()),
                        _ => continue,
                    };
                    if k == kind && n == *name { found = Some(it); break; }
                }
                let Some(it) = found else {
                    errors.push(json!({"item": name, "error": "item not found", "file": file}));
                    continue;
                };
                let f = srcs.files[file].as_ref().unwrap();
                let l0 = out.line;
                match rewrite::emit_item(f, it, sections, &mut counts) {
                    Ok(t) => out.push(&t),
                    Err(e) => { errors.push(json!({"item": name, "error": e, "file": file})); }
                }
                out.push("\n");
                for s in sections {
                    let Some(l) = s.head.strip_prefix("needderive ") else { continue };
                    for w in l.split_whitespace() {
                        if !rewrite::derives(it, w) { errors.push(json!({"item": name, "error": format!("{} no longer derives {} (assumed structural)", name, w), "file": file})); }
                    }
                }
                for s in sections {
                    let Some(which) = s.head.strip_prefix("derive ") else { continue };
                    let d0 = out.line;
                    match rewrite::emit_derive(it, which.trim().trim_end_matches(" inherent"), which.ends_with(" inherent"), &s.text) {
                        Ok((id, t)) => {
                            let stub = stubs.contains(&id);
                            if stub {
                                let k = t.find("{\n").unwrap();
                                let _ = k;
                                let sp = s.text.split("---\n").next().unwrap();
                                let b = t.find(sp).map(|p| p + sp.len()).unwrap_or(0);
                                let head = if t[..b].contains("pub fn ") { t[..b].replacen("pub fn ", "#[verifier::external_body]\npub fn ", 1) } else { t[..b].replacen("fn ", "#[verifier::external_body]\nfn ", 1) };
                                out.push(&format!("{}{{ unimplemented!() }}\n}}\n", head));
                                let _ = &head;
                            } else { out.push(&t); }
                            *counts.entry("derive expanded field by field".into()).or_insert(0) += 1;
                            let r = it.span().byte_range();
                            let emp: Vec<String> = vec![];
                            fns.push(json!({"id": id, "path": id, "file": file, "mode": if stub { "stub" } else { "verify" }, "lost": emp, "loops": 0,
                                "out": [d0, out.line], "src": [line_of(&f.text, r.start), line_of(&f.text, r.end)], "sha": fnv(&f.text[r.clone()]), "calls": emp, "trusted": false, "derived": true}));
                        }
                        Err(e) => errors.push(json!({"item": name, "error": e, "file": file})),
                    }
                }
                let r = it.span().byte_range();
                items.push(json!({"kind": kind, "name": name, "file": file, "out": [l0, out.line], "src_line": line_of(&f.text, r.start), "sha": fnv(&f.text[r])}));
            }
            Directive::Fn(fd) => {
                let p = parse_fnpath(&fd.path);
                let mut file = fd.file.clone();
                let mut ok = srcs.load(&file).and_then(|f| find_fn(f, &p)).is_some();
                if !ok {
                    // moved to another file of the same crate?
                    let dir = fd.file.split('/').next().unwrap().to_string();
                    for c in srcs.all_rs(&dir) {
                        if c.contains("/tests/") { continue; }
                        if srcs.load(&c).and_then(|f| find_fn(f, &p)).is_some() { file = c; ok = true; break; }
                    }
                }
                if !ok {
                    fns.push(json!({"id": fd.id, "path": fd.path, "file": fd.file, "status": "missing", "mode": "missing", "lost": ["function not found"], "out": [0,0], "src": [0,0]}));
                    continue;
                }
                let f = srcs.files[&file].as_ref().unwrap();
                let found = find_fn(f, &p).unwrap();
                if list_locals {
                    let (sig, block) = match &found { Found::Free(x) => (&x.sig, &*x.block), Found::Method(_, m) => (&m.sig, &m.block) };
                    for (n, c) in locals::of(sig, block, &f.text) { println!("{}\t{}\t{}", fd.id, n, c); }
                }
                let stub = stubs.contains(&fd.id) || assumes.contains(&fd.id);
                let l0 = out.line;
                let mut cands = 0;
                let mut spelling: Vec<&str> = vec![];
                let want = cand.get(&fd.id).copied().unwrap_or(0);
                let mut c0 = BTreeMap::new();
                let mut res = rewrite::emit_fn(f, &found, fd, stub, probe, &mut c0, base_locals.get(&fd.id));
                if stub { for (k, n) in c0 { *counts.entry(k).or_insert(0) += n; } }
                else {
                    // the function as written, then other spellings of it; with the proof text and its alternatives
                    let lost = res.lost.clone();
                    let mut chosen = None;
                    let mut seen: BTreeSet<String> = BTreeSet::new();
                    let whole = match &found { Found::Free(x) => x.span().byte_range(), Found::Method(_, x) => x.span().byte_range() };
                    let hs = &srcs.helpers[file.split('/').next().unwrap()];
                    for (labels, v) in spellings(f, whole, hs, &srcs.known) {
                        let g = v.as_ref().unwrap_or(f);
                        let Some(found) = find_fn(g, &p) else { continue };
                        for sections in std::iter::once(&fd.sections).chain(fd.alts.iter()) {
                            let fd2 = FnDir { sections: sections.clone(), alts: vec![], ..fd.clone() };
                            let mut c = BTreeMap::new();
                            let r = rewrite::emit_fn(g, &found, &fd2, false, probe, &mut c, base_locals.get(&fd.id));
                            if !r.lost.is_empty() || !seen.insert(r.text.clone()) { continue; }
                            if cands == want || chosen.is_none() { chosen = Some((r, c, labels.clone())); }
                            cands += 1;
                        }
                    }
                    match chosen {
                        Some((r, c, l)) => { res = r; spelling = l; for (k, n) in c { *counts.entry(k).or_insert(0) += n; } for x in &spelling { *counts.entry(x.to_string()).or_insert(0) += 1; } }
                        None => {
                            res = rewrite::emit_fn(f, &found, fd, true, probe, &mut counts, None);
                            res.lost = lost;
                            res.stubbed = true;
                        }
                    }
                }
                out.push(&res.text);
                out.push("\n");
                if !stub && !res.stubbed { words.push(mentions(&res.text)); }
                emitted_names.insert(p.name.clone());
                let (src, sha) = match &found {
                    Found::Free(x) => { let r = x.span().byte_range(); ([line_of(&f.text, r.start), line_of(&f.text, r.end)], fnv(&f.text[r])) }
                    Found::Method(_, x) => { let r = x.span().byte_range(); ([line_of(&f.text, r.start), line_of(&f.text, r.end)], fnv(&f.text[r])) }
                };
                // provided methods of the trait that the implementation overrides without a contract
                let mut extra = vec![];
                if let Found::Method(im, _) = &found {
                    if im.trait_.is_some() {
                        for it in &im.items {
                            let syn::ImplItem::Fn(m) = it else { continue };
                            let n = m.sig.ident.to_string();
                            let path = format!("{}::{}", &fd.path[..fd.path.rfind("::").unwrap()], n);
                            if n != "expecting" && !unit.iter().any(|d| matches!(d, Directive::Fn(g) if g.path == path)) { extra.push(n); }
                        }
                    }
                }
                let mode = if assumes.contains(&fd.id) { "assumed" } else if stub || res.stubbed { "stub" } else { "verify" };
                fns.push(json!({"id": fd.id, "path": fd.path, "file": file, "mode": mode, "lost": res.lost, "loops": res.loops,
                    "out": [l0, out.line], "src": src, "sha": sha, "calls": res.calls, "cands": cands, "extra": extra, "spelling": spelling, "unit": [fd.ufile, fd.uline], "trusted": fd.trusted}));
            }
        }
    }
    for fd in &gone {
        fns.push(json!({"id": fd.id, "path": fd.path, "file": fd.file, "status": "missing", "mode": "missing", "lost": ["the representation its contract speaks of has changed"], "out": [0,0], "src": [0,0]}));
    }
    let k = moved.len() + per.values().map(|m| m.len()).sum::<usize>();
    if moved_fns > 0 { counts.insert("contract follows a renamed function".into(), moved_fns); }
    if k > 0 { counts.insert("contract follows a renamed field".into(), k); }
    for (k, n) in &srcs.unfolded { *counts.entry(k.clone()).or_insert(0) += n; }
    fs::write(&args[3], &out.buf).unwrap();
    let map = json!({"functions": fns, "items": items, "errors": errors, "edits": counts, "raw": raws});
    fs::write(&args[4], serde_json::to_string_pretty(&map).unwrap()).unwrap();
}
