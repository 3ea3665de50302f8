//! Expansion of the crate's own `macro_rules!` macros, so that code moved into one is still the code
//! that is verified. Macros of other crates are left as they are. What cannot be expanded faithfully
//! (no rule matches, names of the macro's own variables meeting those of an argument) is left too, and
//! then is refused where it is met.
use proc_macro2::{Delimiter, Group, Ident, TokenStream, TokenTree};
use quote::ToTokens;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use syn::parse::{Parse, ParseStream, Parser};
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::{Expr, Item, Stmt};

#[derive(Clone)]
enum M { Tok(TokenTree), Group(Delimiter, Vec<M>), Var(String, String), Rep(Vec<M>, Vec<TokenTree>, char) }
#[derive(Clone, Debug)]
enum B { Leaf(TokenStream), Seq(Vec<BTreeMap<String, B>>) }
type Env = BTreeMap<String, B>;

struct Rule { pat: Vec<M>, body: TokenStream }
#[derive(Default)]
pub struct Macros { rules: HashMap<String, Option<(String, Vec<Rule>)>>, local: BTreeSet<String> }

fn toks(t: TokenStream) -> Vec<TokenTree> { t.into_iter().collect() }
fn punct(t: Option<&TokenTree>, c: char) -> bool { matches!(t, Some(TokenTree::Punct(p)) if p.as_char() == c) }
fn rep_op(t: Option<&TokenTree>) -> Option<char> { match t { Some(TokenTree::Punct(p)) if matches!(p.as_char(), '*' | '+' | '?') => Some(p.as_char()), _ => None } }

/// separator and operator after `$( .. )`; the number of tokens they take
fn rep_tail(v: &[TokenTree]) -> Option<(Vec<TokenTree>, char, usize)> {
    if let Some(c) = rep_op(v.first()) { return Some((vec![], c, 1)); }
    let mut sep = vec![];
    for (i, t) in v.iter().enumerate().take(4) {
        if i > 0 { if let Some(c) = rep_op(Some(t)) { return Some((sep, c, i + 1)); } }
        sep.push(t.clone());
    }
    None
}

fn matcher(v: &[TokenTree]) -> Option<Vec<M>> {
    let (mut r, mut i) = (vec![], 0);
    while i < v.len() {
        if punct(v.get(i), '$') {
            match v.get(i + 1)? {
                TokenTree::Ident(n) if punct(v.get(i + 2), ':') => {
                    let f = if let Some(TokenTree::Ident(f)) = v.get(i + 3) { f.to_string() } else { return None };
                    r.push(M::Var(n.to_string(), f));
                    i += 4;
                }
                TokenTree::Group(g) if g.delimiter() == Delimiter::Parenthesis => {
                    let (sep, op, n) = rep_tail(&v[i + 2..])?;
                    r.push(M::Rep(matcher(&toks(g.stream()))?, sep, op));
                    i += 2 + n;
                }
                _ => return None,
            }
            continue;
        }
        r.push(match &v[i] { TokenTree::Group(g) => M::Group(g.delimiter(), matcher(&toks(g.stream()))?), t => M::Tok(t.clone()) });
        i += 1;
    }
    Some(r)
}

fn same(a: &TokenTree, b: &TokenTree) -> bool { a.to_string() == b.to_string() }

fn prefix<T: ToTokens>(v: &[TokenTree], p: impl FnOnce(ParseStream) -> syn::Result<T>) -> Option<(TokenStream, usize)> {
    let all: TokenStream = v.iter().cloned().collect();
    let f = |i: ParseStream| -> syn::Result<(TokenStream, usize)> {
        let t = p(i)?.to_token_stream();
        let rest: TokenStream = i.parse()?;
        Ok((t, rest.into_iter().count()))
    };
    let (_, left) = f.parse2(all).ok()?;
    let n = v.len() - left;
    Some((v[..n].iter().cloned().collect(), n))
}

fn paren(t: TokenStream) -> TokenStream { TokenTree::Group(Group::new(Delimiter::Parenthesis, t)).into() }

fn fragment(kind: &str, v: &[TokenTree]) -> Option<(TokenStream, usize)> {
    let one = |t: &TokenTree| Some((TokenStream::from(t.clone()), 1));
    match kind {
        "tt" => if punct(v.first(), '\'') { Some((v.get(..2)?.iter().cloned().collect(), 2)) } else { one(v.first()?) },
        "ident" => match v.first()? { t @ TokenTree::Ident(i) if i != "_" => one(t), _ => None },
        "lifetime" => if punct(v.first(), '\'') { Some((v.get(..2)?.iter().cloned().collect(), 2)) } else { None },
        "literal" => match v.first()? {
            t @ TokenTree::Literal(_) => one(t),
            t @ TokenTree::Ident(i) if i == "true" || i == "false" => one(t),
            TokenTree::Punct(p) if p.as_char() == '-' && matches!(v.get(1), Some(TokenTree::Literal(_))) => Some((paren(v[..2].iter().cloned().collect()), 2)),
            _ => None,
        },
        "block" => match v.first()? { t @ TokenTree::Group(g) if g.delimiter() == Delimiter::Brace => one(t), _ => None },
        "ty" => prefix(v, syn::Type::parse),
        "path" => prefix(v, syn::Path::parse),
        "expr" | "expr_2021" => {
            let (t, n) = prefix(v, Expr::parse)?;
            let atom = matches!(syn::parse2::<Expr>(t.clone()).ok()?, Expr::Path(_) | Expr::Lit(_) | Expr::Paren(_) | Expr::Call(_) | Expr::MethodCall(_) | Expr::Field(_) | Expr::Index(_) | Expr::Macro(_) | Expr::Closure(_) | Expr::Tuple(_) | Expr::Array(_));
            Some((if atom { t } else { paren(t) }, n))
        }
        "pat" => prefix(v, syn::Pat::parse_multi_with_leading_vert),
        "pat_param" => prefix(v, syn::Pat::parse_single),
        "item" => prefix(v, Item::parse),
        "vis" => prefix(v, syn::Visibility::parse),
        "meta" => prefix(v, syn::Meta::parse),
        "stmt" => prefix(v, Stmt::parse),
        _ => None,
    }
}

/// the number of tokens matched
fn matches(ms: &[M], v: &[TokenTree], env: &mut Env) -> Option<usize> {
    let mut i = 0;
    for m in ms {
        match m {
            M::Tok(t) => { if !same(t, v.get(i)?) { return None; } i += 1; }
            M::Group(d, inner) => match v.get(i)? {
                TokenTree::Group(g) if g.delimiter() == *d => { let s = toks(g.stream()); if matches(inner, &s, env)? != s.len() { return None; } i += 1; }
                _ => return None,
            },
            M::Var(n, f) => {
                if f == "vis" && v.get(i).is_none() { env.insert(n.clone(), B::Leaf(TokenStream::new())); continue; }
                let (t, k) = fragment(f, &v[i..])?;
                env.insert(n.clone(), B::Leaf(t));
                i += k;
            }
            M::Rep(inner, sep, op) => {
                let mut seq = vec![];
                loop {
                    let mut j = i;
                    if !seq.is_empty() && !sep.is_empty() {
                        if sep.iter().enumerate().any(|(k, s)| v.get(j + k).is_none_or(|t| !same(s, t))) { break; }
                        j += sep.len();
                    }
                    let mut e = Env::new();
                    match matches(inner, &v[j.min(v.len())..], &mut e) { Some(n) if n > 0 => { i = j + n; seq.push(e); } _ => break }
                    if *op == '?' { break; }
                }
                if *op == '+' && seq.is_empty() { return None; }
                let mut names = BTreeSet::new();
                vars(inner, &mut names);
                for n in names { env.insert(n, B::Seq(seq.clone())); }
            }
        }
    }
    Some(i)
}
fn vars(ms: &[M], out: &mut BTreeSet<String>) {
    for m in ms { match m { M::Var(n, _) => { out.insert(n.clone()); } M::Group(_, i) | M::Rep(i, ..) => vars(i, out), _ => {} } }
}

fn transcribe(v: &[TokenTree], env: &Env) -> Option<TokenStream> {
    let (mut r, mut i): (Vec<TokenTree>, usize) = (vec![], 0);
    while i < v.len() {
        if punct(v.get(i), '$') {
            match v.get(i + 1)? {
                TokenTree::Ident(n) => {
                    match env.get(&n.to_string()) {
                        Some(B::Leaf(t)) => r.extend(t.clone()),
                        Some(_) => return None,
                        None if n == "crate" => r.push(TokenTree::Ident(Ident::new("crate", n.span()))),
                        None => return None,
                    }
                    i += 2;
                }
                TokenTree::Group(g) if g.delimiter() == Delimiter::Parenthesis => {
                    let (sep, _, n) = rep_tail(&v[i + 2..])?;
                    let body = toks(g.stream());
                    let mut used = BTreeSet::new();
                    uses(&body, &mut used);
                    let seqs: Vec<&Vec<Env>> = used.iter().filter_map(|u| match env.get(u) { Some(B::Seq(s)) => Some(s), _ => None }).collect();
                    let k = seqs.first()?.len();
                    if seqs.iter().any(|s| s.len() != k) { return None; }
                    for j in 0..k {
                        let mut e = env.clone();
                        for u in &used { if let Some(B::Seq(s)) = env.get(u) { e.insert(u.clone(), s[j].get(u)?.clone()); } }
                        if j > 0 { r.extend(sep.iter().cloned()); }
                        r.extend(transcribe(&body, &e)?);
                    }
                    i += 2 + n;
                }
                _ => return None,
            }
            continue;
        }
        r.push(match &v[i] {
            TokenTree::Group(g) => { let mut n = Group::new(g.delimiter(), transcribe(&toks(g.stream()), env)?); n.set_span(g.span()); TokenTree::Group(n) }
            t => t.clone(),
        });
        i += 1;
    }
    Some(r.into_iter().collect())
}
fn uses(v: &[TokenTree], out: &mut BTreeSet<String>) {
    for (i, t) in v.iter().enumerate() {
        match t {
            TokenTree::Group(g) => uses(&toks(g.stream()), out),
            TokenTree::Ident(n) if i > 0 && punct(v.get(i - 1), '$') => { out.insert(n.to_string()); }
            _ => {}
        }
    }
}

/// names the macro's own text may bind, and whether it binds any
fn own_names(v: &[TokenTree], out: &mut BTreeSet<String>, binds: &mut bool) {
    for (i, t) in v.iter().enumerate() {
        match t {
            TokenTree::Group(g) => own_names(&toks(g.stream()), out, binds),
            TokenTree::Ident(n) => {
                let s = n.to_string();
                if s == "let" || s == "match" || s == "for" { *binds = true; }
                if i > 0 && (punct(v.get(i - 1), '$') || punct(v.get(i - 1), '.')) { continue; }
                out.insert(s);
            }
            TokenTree::Punct(p) if p.as_char() == '|' => *binds = true,
            _ => {}
        }
    }
}
fn all_names(v: &[TokenTree], out: &mut BTreeSet<String>) {
    for t in v { match t { TokenTree::Group(g) => all_names(&toks(g.stream()), out), TokenTree::Ident(n) => { out.insert(n.to_string()); } _ => {} } }
}

/// does a `let` of the macro bind what an argument names?
fn lets_arg(v: &[TokenTree]) -> bool {
    fn dollar(t: &TokenTree) -> bool { match t { TokenTree::Group(g) => g.stream().into_iter().any(|t| dollar(&t)), t => punct(Some(t), '$') } }
    v.iter().enumerate().any(|(i, t)| match t {
        TokenTree::Group(g) => lets_arg(&toks(g.stream())),
        TokenTree::Ident(n) if n == "let" => v[i + 1..].iter().take_while(|t| !punct(Some(t), '=') && !punct(Some(t), ':') && !punct(Some(t), ';')).any(dollar),
        _ => false,
    })
}
/// names bound by more than one pattern
fn bound_twice(f: impl FnOnce(&mut Bound)) -> BTreeSet<String> {
    let mut b = Bound(BTreeMap::new());
    f(&mut b);
    b.0.into_iter().filter(|x| x.1 > 1).map(|x| x.0).collect()
}
struct Bound(BTreeMap<String, usize>);
impl<'b> Visit<'b> for Bound {
    fn visit_pat_ident(&mut self, p: &'b syn::PatIdent) { *self.0.entry(p.ident.to_string()).or_default() += 1; syn::visit::visit_pat_ident(self, p); }
}

const KEYWORDS: &[&str] = &["self", "Self", "as", "if", "else", "mut", "ref", "let", "match", "true", "false", "in", "return", "crate", "super", "move", "fn", "impl", "where", "for", "u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64", "i128", "usize", "bool"];

impl Macros {
    pub fn collect(&mut self, f: &syn::File) {
        struct V<'a>(&'a mut Macros, usize);
        impl<'a, 'b> Visit<'b> for V<'a> {
            fn visit_item_macro(&mut self, m: &'b syn::ItemMacro) {
                if let (Some(n), true) = (&m.ident, m.mac.path.is_ident("macro_rules")) {
                    if self.1 > 0 { self.0.local.insert(n.to_string()); }
                    self.0.add(n.to_string(), m.mac.tokens.clone());
                }
            }
            fn visit_block(&mut self, b: &'b syn::Block) { self.1 += 1; syn::visit::visit_block(self, b); self.1 -= 1; }
        }
        V(self, 0).visit_file(f);
    }
    fn add(&mut self, name: String, t: TokenStream) {
        let text = t.to_string();
        if let Some(o) = self.rules.get(&name) {
            // two different macros of one name: which one is meant is not decided here
            if o.as_ref().is_some_and(|o| o.0 != text) { self.rules.insert(name, None); }
            return;
        }
        let v = toks(t);
        let (mut i, mut rs) = (0, vec![]);
        while i < v.len() {
            let (Some(TokenTree::Group(p)), true, true, Some(TokenTree::Group(b))) = (v.get(i), punct(v.get(i + 1), '='), punct(v.get(i + 2), '>'), v.get(i + 3)) else { self.rules.insert(name, None); return };
            let Some(pat) = matcher(&toks(p.stream())) else { self.rules.insert(name, None); return };
            rs.push(Rule { pat, body: b.stream() });
            i += 4;
            if punct(v.get(i), ';') { i += 1; }
        }
        self.rules.insert(name, Some((text, rs)));
    }
    pub fn is_empty(&self) -> bool { self.rules.is_empty() }
    fn expand(&self, m: &syn::Macro, item: bool, twice: &BTreeSet<String>) -> Option<TokenStream> {
        let name = m.path.segments.last()?.ident.to_string();
        if m.path.segments.len() > 1 && m.path.segments[0].ident != "crate" { return None; }
        let (_, rs) = self.rules.get(&name)?.as_ref()?;
        let v = toks(m.tokens.clone());
        for r in rs {
            let mut env = Env::new();
            if matches(&r.pat, &v, &mut env) != Some(v.len()) { continue; }
            let body = toks(r.body.clone());
            if !item {
                let (mut own, mut args, mut binds) = (BTreeSet::new(), BTreeSet::new(), false);
                own_names(&body, &mut own, &mut binds);
                all_names(&v, &mut args);
                // a macro in a function names that function's variables as they were where it stands
                if self.local.contains(&name) && own.intersection(twice).next().is_some() { return None; }
                if lets_arg(&body) { return None; }
                if binds && own.intersection(&args).any(|n| !KEYWORDS.contains(&n.as_str()) && n.chars().next().is_some_and(|c| c.is_lowercase())) { return None; }
            }
            return transcribe(&body, &env);
        }
        None
    }
    pub fn apply(&self, f: &mut syn::File) {
        let mut x = X { m: self, depth: 0, twice: BTreeSet::new() };
        x.visit_file_mut(f);
    }
}

struct X<'a> { m: &'a Macros, depth: usize, twice: BTreeSet<String> }
struct Many<T>(Vec<T>);
impl<T: Parse> Parse for Many<T> {
    fn parse(i: ParseStream) -> syn::Result<Self> { let mut v = vec![]; while !i.is_empty() { v.push(i.parse()?); } Ok(Many(v)) }
}
impl<'a> X<'a> {
    fn list<T: Parse + Clone>(&mut self, v: &mut Vec<T>, mac: impl Fn(&T) -> Option<(Vec<syn::Attribute>, syn::Macro)>) {
        for _ in 0..16 {
            let mut out = vec![];
            let mut changed = false;
            for t in v.drain(..) {
                if let Some((attrs, m)) = mac(&t) {
                    if attrs.iter().all(|a| !a.path().is_ident("cfg")) {
                        if let Some(Ok(Many(ts))) = self.m.expand(&m, true, &self.twice).map(syn::parse2::<Many<T>>) { out.extend(ts); changed = true; continue; }
                    }
                }
                out.push(t);
            }
            *v = out;
            if !changed { break; }
        }
    }
    fn items(&mut self, v: &mut Vec<Item>) { self.list(v, |t| match t { Item::Macro(m) if m.ident.is_none() => Some((m.attrs.clone(), m.mac.clone())), _ => None }); }
}
impl<'a> VisitMut for X<'a> {
    fn visit_file_mut(&mut self, f: &mut syn::File) { self.items(&mut f.items); visit_mut::visit_file_mut(self, f); }
    fn visit_item_mod_mut(&mut self, m: &mut syn::ItemMod) {
        if let Some((_, v)) = &mut m.content { self.items(v); }
        visit_mut::visit_item_mod_mut(self, m);
    }
    fn visit_item_impl_mut(&mut self, i: &mut syn::ItemImpl) {
        self.list(&mut i.items, |t| match t { syn::ImplItem::Macro(m) => Some((m.attrs.clone(), m.mac.clone())), _ => None });
        visit_mut::visit_item_impl_mut(self, i);
    }
    fn visit_item_trait_mut(&mut self, i: &mut syn::ItemTrait) {
        self.list(&mut i.items, |t| match t { syn::TraitItem::Macro(m) => Some((m.attrs.clone(), m.mac.clone())), _ => None });
        visit_mut::visit_item_trait_mut(self, i);
    }
    fn visit_item_fn_mut(&mut self, f: &mut syn::ItemFn) {
        let old = std::mem::replace(&mut self.twice, bound_twice(|b| b.visit_item_fn(f)));
        visit_mut::visit_item_fn_mut(self, f);
        self.twice = old;
    }
    fn visit_impl_item_fn_mut(&mut self, f: &mut syn::ImplItemFn) {
        let old = std::mem::replace(&mut self.twice, bound_twice(|b| b.visit_impl_item_fn(f)));
        visit_mut::visit_impl_item_fn_mut(self, f);
        self.twice = old;
    }
    fn visit_trait_item_fn_mut(&mut self, f: &mut syn::TraitItemFn) {
        let old = std::mem::replace(&mut self.twice, bound_twice(|b| b.visit_trait_item_fn(f)));
        visit_mut::visit_trait_item_fn_mut(self, f);
        self.twice = old;
    }
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        // the definitions themselves are no code
        b.stmts.retain(|s| !matches!(s, Stmt::Item(Item::Macro(m)) if m.ident.is_some() && m.mac.path.is_ident("macro_rules")));
        for _ in 0..16 {
            let n = b.stmts.len();
            let (mut out, mut changed) = (vec![], false);
            for (i, s) in b.stmts.drain(..).enumerate() {
                if let Stmt::Macro(m) = &s {
                    if let Some(t) = self.m.expand(&m.mac, false, &self.twice) {
                        let own_let = { let (mut o, mut bi) = (BTreeSet::new(), false); own_names(&toks(t.clone()), &mut o, &mut bi); o.contains("let") };
                        if let Ok(mut ss) = Parser::parse2(syn::Block::parse_within, t) {
                            // as a statement; as the value of the block where it ends it
                            let value = i + 1 == n && m.semi_token.is_none();
                            if !value { if let Some(Stmt::Expr(_, semi @ None)) = ss.last_mut() { *semi = Some(Default::default()); } }
                            changed = true;
                            if own_let { let e: Expr = syn::parse_quote!({ #(#ss)* }); out.push(Stmt::Expr(e, if value { None } else { Some(Default::default()) })); } else { out.extend(ss); }
                            continue;
                        }
                    }
                }
                out.push(s);
            }
            b.stmts = out;
            if !changed { break; }
        }
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Macro(m) = e {
            if self.depth < 16 {
                if let Some(t) = self.m.expand(&m.mac, false, &self.twice) {
                    let parsed = syn::parse2::<Expr>(t.clone()).ok().or_else(|| Parser::parse2(syn::Block::parse_within, t).ok().filter(|s| s.len() > 1).map(|ss| syn::parse_quote!({ #(#ss)* })));
                    if let Some(x) = parsed {
                        let plain = matches!(x, Expr::Block(_) | Expr::Paren(_) | Expr::Path(_) | Expr::Lit(_) | Expr::Call(_) | Expr::MethodCall(_) | Expr::Tuple(_) | Expr::Match(_) | Expr::If(_) | Expr::Return(_));
                        *e = if plain { x } else { syn::parse_quote!((#x)) };
                        self.depth += 1;
                        self.visit_expr_mut(e);
                        self.depth -= 1;
                        return;
                    }
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_type_mut(&mut self, t: &mut syn::Type) {
        if let syn::Type::Macro(m) = t { if let Some(Ok(x)) = self.m.expand(&m.mac, true, &self.twice).map(syn::parse2::<syn::Type>) { *t = x; } }
        visit_mut::visit_type_mut(self, t);
    }
    fn visit_pat_mut(&mut self, p: &mut syn::Pat) {
        if let syn::Pat::Macro(m) = p { if let Some(t) = self.m.expand(&m.mac, true, &self.twice) { if let Ok(x) = Parser::parse2(syn::Pat::parse_multi_with_leading_vert, t) { *p = x; } } }
        visit_mut::visit_pat_mut(self, p);
    }
}
