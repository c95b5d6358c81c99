//! The contract-unit format.
//!
//! ```text
//! @include other.vx
//! @raw
//! ...verbatim Verus...
//! @std WORDS         verbatim, if a function above calls one of the words (`a+b`: and mentions `b`)
//! @item FILE struct|enum|const|type NAME
//! %fields            extra (ghost) fields
//! %attr              attributes
//! %keepderive Copy Clone
//! @when STRUCT FIELDS … @endwhen   text and contracts dropped (undecided) if the struct lacks a field
//! @fn FILE Type::name [id=ID]     (`@fn?`: only if the source has such a function)
//! %ret r
//! %attr ...
//! %spec              requires/ensures/decreases text
//! %loop N [it]       invariant text of the N-th loop (source order), optional iterator name
//! %hint start|end|tail|loopstart N|loopend N|before N|after N
//! %opt inherent | as-fn NAME | mono T=Ty | ...
//! ```
use std::fs;
use std::path::Path;

#[derive(Debug, Clone, Default)]
pub struct Section { pub head: String, pub text: String }

#[derive(Debug, Clone)]
pub struct FnDir {
    pub ufile: String,
    pub uline: usize,
    pub file: String,
    pub path: String,
    pub id: String,
    pub trusted: bool,
    /// `@fn?`: a contract for a function that need not exist
    pub optional: bool,
    pub sections: Vec<Section>,
    /// the same contract with other proof text (`%alt`)
    pub alts: Vec<Vec<Section>>,
}

#[derive(Debug)]
pub enum Directive {
    Raw { file: String, line: usize, text: String },
    Item { file: String, kind: String, name: String, sections: Vec<Section> },
    Fn(FnDir),
    /// `@std WORDS`: text emitted only when a function above it calls one of the words
    /// `@when STRUCT FIELDS` … `@endwhen`: text and contracts that speak of a struct's representation
    When { name: String, fields: Vec<String> },
    EndWhen,
    Std { file: String, line: usize, words: Vec<String>, text: String },
}

pub fn load_unit(p: &Path) -> Vec<Directive> {
    let mut out = vec![];
    load_into(p, &mut out, &mut vec![]);
    out
}

fn load_into(p: &Path, out: &mut Vec<Directive>, seen: &mut Vec<String>) {
    let key = p.to_string_lossy().into_owned();
    if seen.contains(&key) { return; }
    seen.push(key.clone());
    let text = fs::read_to_string(p).unwrap_or_else(|e| panic!("{}: {}", p.display(), e));
    let lines: Vec<&str> = text.lines().collect();
    let mut i = 0;
    while i < lines.len() {
        let l = lines[i];
        if !l.starts_with('@') {
            if !l.trim().is_empty() && !l.starts_with("//") { panic!("{}:{}: text outside directive: {}", key, i + 1, l); }
            i += 1;
            continue;
        }
        let start = i;
        i += 1;
        let mut body = vec![];
        while i < lines.len() && !lines[i].starts_with('@') { body.push(lines[i]); i += 1; }
        let mut w = l[1..].split_whitespace();
        match w.next().unwrap() {
            "include" => {
                let f = w.next().unwrap();
                load_into(&p.parent().unwrap().join(f), out, seen);
            }
            "raw" => out.push(Directive::Raw { file: key.clone(), line: start + 1, text: body.join("\n") + "\n" }),
            "std" => out.push(Directive::Std { file: key.clone(), line: start + 1, words: w.map(|x| x.to_string()).collect(), text: body.join("\n") + "\n" }),
            "item" => {
                let file = w.next().unwrap().to_string();
                let kind = w.next().unwrap().to_string();
                let name = w.next().unwrap().to_string();
                out.push(Directive::Item { file, kind, name, sections: sections(&body) });
            }
            "when" => out.push(Directive::When { name: w.next().unwrap().to_string(), fields: w.map(|x| x.to_string()).collect() }),
            "endwhen" => out.push(Directive::EndWhen),
            "fn" | "fn?" => {
                let optional = l.starts_with("@fn?");
                let rest = l[1..].trim_start_matches("fn").trim_start_matches('?').trim();
                let (file, rest) = rest.split_once(' ').unwrap();
                let mut path = rest.trim().to_string();
                let mut id = None;
                let mut trusted = false;
                if let Some(k) = path.find(" id=") {
                    id = Some(path[k + 4..].trim().to_string());
                    path = path[..k].trim().to_string();
                }
                if let Some(x) = &id { if let Some(y) = x.strip_suffix(" trusted") { trusted = true; id = Some(y.to_string()); } }
                let id = id.unwrap_or_else(|| path.clone());
                let mut parts: Vec<Vec<Section>> = vec![vec![]];
                for s in sections(&body) { if s.head == "alt" { parts.push(vec![]); } else { parts.last_mut().unwrap().push(s); } }
                let base = parts.remove(0);
                let alts = parts.into_iter().map(|a| {
                    let mut v: Vec<Section> = base.iter().filter(|s| !["loop", "hint", "closure", "many"].iter().any(|k| s.head.starts_with(&format!("{} ", k)))).cloned().collect();
                    assert!(!a.iter().any(|s| s.head == "spec" || s.head.starts_with("ret ")), "an alternative cannot change the contract");
                    v.extend(a);
                    v
                }).collect();
                out.push(Directive::Fn(FnDir { ufile: key.clone(), uline: start + 1, file: file.to_string(), path, id, trusted, optional, sections: base, alts }));
            }
            x => panic!("{}:{}: unknown directive {}", key, start + 1, x),
        }
    }
}

fn sections(body: &[&str]) -> Vec<Section> {
    let mut v: Vec<Section> = vec![];
    for l in body {
        if let Some(h) = l.strip_prefix('%') {
            v.push(Section { head: h.trim().to_string(), text: String::new() });
        } else if let Some(s) = v.last_mut() {
            s.text.push_str(l);
            s.text.push('\n');
        } else if !l.trim().is_empty() && !l.trim().starts_with("//") {
            panic!("text before first section: {}", l);
        }
    }
    v
}

impl FnDir {
    pub fn sect(&self, head: &str) -> Option<&Section> { self.sections.iter().find(|s| s.head == head) }
    pub fn opt(&self, name: &str) -> Option<String> {
        for s in &self.sections {
            if let Some(r) = s.head.strip_prefix("opt ") {
                if r == name { return Some(String::new()); }
                if let Some(x) = r.strip_prefix(&format!("{} ", name)) { return Some(x.trim().to_string()); }
            }
        }
        None
    }
}
