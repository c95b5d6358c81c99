//! Procedural macros: the code a macro emits is read as the expression it is.
//! `quote! { E }` becomes `(E)`, `#x` in it `(x).vx_tok()` (the value its tokens denote),
//! `compile_error!(m)` becomes `vx_compile_error(m)`, `parse_macro_input!(i as LitStr)` becomes `vx_litstr(i)`.
use proc_macro2::{TokenStream, TokenTree};

type Ed = (usize, usize, String);

pub fn unquote(text: &str) -> String {
    let Ok(ts) = text.parse::<TokenStream>() else { return text.to_string() };
    let mut ed: Vec<Ed> = vec![];
    walk(ts, false, text, &mut ed);
    ed.sort_by_key(|e| (e.0, e.1));
    let mut out = String::new();
    let mut pos = 0;
    for (a, b, t) in ed {
        if a < pos { continue; }
        out.push_str(&text[pos..a]);
        out.push_str(&t);
        pos = b;
    }
    out.push_str(&text[pos..]);
    out
}

fn has_repetition(ts: &TokenStream) -> bool {
    let v: Vec<TokenTree> = ts.clone().into_iter().collect();
    v.iter().enumerate().any(|(i, t)| match t {
        TokenTree::Punct(p) if p.as_char() == '#' => !matches!(v.get(i + 1), Some(TokenTree::Ident(_))),
        TokenTree::Group(g) => has_repetition(&g.stream()),
        _ => false,
    })
}

fn walk(ts: TokenStream, quoted: bool, text: &str, ed: &mut Vec<Ed>) {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut i = 0;
    while i < v.len() {
        if let (TokenTree::Ident(id), Some(TokenTree::Punct(b)), Some(TokenTree::Group(g))) = (&v[i], v.get(i + 1), v.get(i + 2)) {
            if b.as_char() == '!' {
                let (s, e) = (id.span().byte_range().start, g.span().byte_range().end);
                let (o, c) = (g.span_open().byte_range(), g.span_close().byte_range());
                // a path before the macro's name goes with it
                let mut k = i;
                let mut s0 = s;
                while k >= 3 && matches!(&v[k - 1], TokenTree::Punct(p) if p.as_char() == ':') && matches!(&v[k - 2], TokenTree::Punct(p) if p.as_char() == ':') && matches!(&v[k - 3], TokenTree::Ident(_)) {
                    k -= 3;
                    s0 = v[k].span().byte_range().start;
                }
                match id.to_string().as_str() {
                    "quote" if !has_repetition(&g.stream()) => {
                        ed.push((s0, o.end, "(".into()));
                        walk(g.stream(), true, text, ed);
                        ed.push((c.start, c.end, ")".into()));
                        i += 3;
                        continue;
                    }
                    "compile_error" if quoted => {
                        ed.push((s0, o.end, "vx_compile_error(".into()));
                        walk(g.stream(), true, text, ed);
                        ed.push((c.start, c.end, ")".into()));
                        i += 3;
                        continue;
                    }
                    "parse_macro_input" => {
                        let a: Vec<TokenTree> = g.stream().into_iter().collect();
                        let lit = matches!(a.last(), Some(TokenTree::Ident(x)) if x == "LitStr");
                        if let (true, Some(TokenTree::Ident(x)), Some(TokenTree::Ident(y))) = (lit, a.first(), a.get(1)) {
                            if y == "as" {
                                ed.push((s0, e, format!("vx_litstr({})", x)));
                                i += 3;
                                continue;
                            }
                        }
                    }
                    _ => {}
                }
            }
        }
        match &v[i] {
            TokenTree::Punct(p) if quoted && p.as_char() == '#' => {
                if let Some(TokenTree::Ident(x)) = v.get(i + 1) {
                    ed.push((p.span().byte_range().start, x.span().byte_range().end, format!("({}).vx_tok()", x)));
                    i += 2;
                    continue;
                }
            }
            TokenTree::Group(g) => walk(g.stream(), quoted, text, ed),
            _ => {}
        }
        i += 1;
    }
}
