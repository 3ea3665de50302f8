//! Token printer: one statement per line, `__V!(n)` replaced by the n-th raw text.
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};

pub fn print(ts: TokenStream, raw: &[String]) -> String {
    let mut s = String::new();
    go(ts, raw, &mut s, 0, true);
    s
}
fn nl(s: &mut String, ind: usize) {
    while s.ends_with(' ') { s.pop(); }
    if !s.ends_with('\n') { s.push('\n'); }
    for _ in 0..ind { s.push_str("  "); }
}
fn go(ts: TokenStream, raw: &[String], s: &mut String, ind: usize, brk: bool) {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut i = 0;
    while i < v.len() {
        match &v[i] {
            TokenTree::Ident(id) if id == "__V" && i + 2 < v.len() => {
                if let TokenTree::Group(g) = &v[i + 2] {
                    let n: usize = g.stream().to_string().trim().parse().unwrap();
                    s.push_str(&raw[n]);
                    s.push(' ');
                    i += 3;
                    continue;
                }
            }
            TokenTree::Group(g) => {
                let (o, c) = match g.delimiter() { Delimiter::Brace => ("{", "}"), Delimiter::Parenthesis => ("(", ")"), Delimiter::Bracket => ("[", "]"), Delimiter::None => ("", "") };
                s.push_str(o);
                if g.delimiter() == Delimiter::Brace {
                    nl(s, ind + 1);
                    go(g.stream(), raw, s, ind + 1, true);
                    nl(s, ind);
                    s.push_str(c);
                    let next_ok = matches!(v.get(i + 1), Some(TokenTree::Punct(p)) if matches!(p.as_char(), ';' | ',' | '.' | '?' | ')')) || matches!(v.get(i + 1), Some(TokenTree::Ident(id)) if id == "else");
                    if brk && !next_ok { nl(s, ind); } else { s.push(' '); }
                } else {
                    go(g.stream(), raw, s, ind, false);
                    s.push_str(c);
                    s.push(' ');
                }
            }
            TokenTree::Punct(p) => {
                s.push(p.as_char());
                if p.as_char() == ';' && brk { nl(s, ind); }
                else if p.as_char() == ',' && brk { nl(s, ind); }
                else if p.spacing() == Spacing::Alone { s.push(' '); }
            }
            t => { s.push_str(&t.to_string()); s.push(' '); }
        }
        i += 1;
    }
}
