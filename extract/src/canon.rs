//! Names a change may choose freely — private fields, helper types, variants, type parameters — are
//! put back to those the contracts use (alpha-renaming; contracts/shape.json lists them). A name is
//! put back only where the shape (kind, number and types of the fields) leaves one way to do so.
use proc_macro2::{Group, Ident, TokenStream, TokenTree};
use quote::ToTokens;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use syn::visit_mut::VisitMut;
use syn::{Fields, GenericParam, Item, Member};

fn norm(t: impl ToTokens) -> String { t.to_token_stream().to_string().replace(' ', "") }
fn fields_of(f: &Fields) -> Vec<(String, String)> {
    f.iter().enumerate().map(|(i, x)| (x.ident.as_ref().map_or(i.to_string(), |n| n.to_string()), norm(&x.ty))).collect()
}
fn shape_of(i: &Item) -> Option<(String, Value)> {
    match i {
        Item::Struct(s) if !s.attrs.iter().any(|a| a.path().is_ident("phantom")) => Some((s.ident.to_string(), json!({"k": "struct", "f": fields_of(&s.fields)}))),
        Item::Enum(s) => Some((s.ident.to_string(), json!({"k": "enum", "v": s.variants.iter().map(|v| (v.ident.to_string(), fields_of(&v.fields))).collect::<Vec<_>>()}))),
        _ => None,
    }
}
fn heads(i: &Item) -> Option<(String, Vec<String>, BTreeSet<String>)> {
    if let Item::Impl(m) = i {
        let mut t = TokenStream::new();
        if let Some((_, p, _)) = &m.trait_ { p.to_tokens(&mut t); t.extend(quote::quote!(for)); }
        m.self_ty.to_tokens(&mut t);
        let gens: BTreeSet<String> = m.generics.params.iter().filter_map(|p| match p { GenericParam::Type(t) => Some(t.ident.to_string()), _ => None }).collect();
        let toks: Vec<String> = flat(t);
        let key: Vec<String> = toks.iter().filter(|x| !gens.contains(*x)).cloned().collect();
        return Some((key.concat(), toks, gens));
    }
    None
}
fn flat(t: TokenStream) -> Vec<String> {
    t.into_iter().flat_map(|x| match x { TokenTree::Group(g) => { let mut v = vec!["(".to_string()]; v.extend(flat(g.stream())); v.push(")".into()); v } o => vec![o.to_string()] }).collect()
}
fn sig_gens(s: &syn::Signature) -> Vec<String> { s.generics.params.iter().filter_map(|p| match p { GenericParam::Type(t) => Some(t.ident.to_string()), _ => None }).collect() }
/// the type parameters of the methods of an impl
fn methods(i: &Item) -> BTreeMap<String, Vec<String>> {
    match i {
        Item::Impl(m) => m.items.iter().filter_map(|x| match x { syn::ImplItem::Fn(f) => Some((f.sig.ident.to_string(), sig_gens(&f.sig))), _ => None }).filter(|x| !x.1.is_empty()).collect(),
        _ => BTreeMap::new(),
    }
}
/// the functions of the inherent impls which are not public, with their signatures (less the names of the parameters)
fn private(items: &[Item]) -> BTreeMap<String, Vec<(String, String)>> {
    let mut out: BTreeMap<String, Vec<(String, String)>> = BTreeMap::new();
    for i in items { if let Item::Impl(m) = i { if m.trait_.is_none() {
        let key = norm(&m.self_ty);
        for x in &m.items { if let syn::ImplItem::Fn(f) = x { if !matches!(f.vis, syn::Visibility::Public(_)) {
            let args: Vec<String> = f.sig.inputs.iter().map(|a| match a { syn::FnArg::Receiver(r) => norm(r), syn::FnArg::Typed(t) => norm(&t.ty) }).collect();
            out.entry(key.clone()).or_default().push((f.sig.ident.to_string(), format!("({}){}", args.join(","), norm(&f.sig.output))));
        } } }
    } } }
    out
}
/// the snapshot: for each file its types, and the heads of its impls
pub fn snapshot(files: &BTreeMap<String, Vec<Item>>) -> Value {
    let mut out = serde_json::Map::new();
    for (f, items) in files {
        let types: serde_json::Map<String, Value> = items.iter().filter_map(shape_of).collect();
        let impls: Vec<Value> = items.iter().filter_map(|i| heads(i).map(|h| (h, methods(i)))).map(|((k, t, g), m)| json!([k, t, g, m])).collect();
        let fns: serde_json::Map<String, Value> = private(items).into_iter().map(|(k, v)| (k, json!(v))).collect();
        out.insert(f.clone(), json!({"types": types, "impls": impls, "fns": fns}));
    }
    Value::Object(out)
}
struct Idents<'a>(&'a BTreeMap<String, String>);
/// type parameters: as `Idents`, but not where the name follows `::` or a dot
struct Params<'a>(&'a BTreeMap<String, String>);
fn ptokens(t: TokenStream, m: &BTreeMap<String, String>) -> TokenStream {
    let mut after = ' ';
    t.into_iter().map(|x| {
        let was = after; after = match &x { TokenTree::Punct(p) => p.as_char(), _ => ' ' };
        match x {
            TokenTree::Ident(i) if was != ':' && was != '.' => match m.get(&i.to_string()) { Some(n) => TokenTree::Ident(Ident::new(n, i.span())), None => TokenTree::Ident(i) },
            TokenTree::Group(g) => { let mut n = Group::new(g.delimiter(), ptokens(g.stream(), m)); n.set_span(g.span()); TokenTree::Group(n) }
            o => o,
        }
    }).collect()
}
impl VisitMut for Params<'_> {
    fn visit_path_mut(&mut self, p: &mut syn::Path) {
        for (i, s) in p.segments.iter_mut().enumerate() {
            if i == 0 { if let Some(n) = self.0.get(&s.ident.to_string()) { s.ident = Ident::new(n, s.ident.span()); } }
            self.visit_path_arguments_mut(&mut s.arguments);
        }
    }
    fn visit_type_param_mut(&mut self, p: &mut syn::TypeParam) {
        if let Some(n) = self.0.get(&p.ident.to_string()) { p.ident = Ident::new(n, p.ident.span()); }
        syn::visit_mut::visit_type_param_mut(self, p);
    }
    fn visit_type_path_mut(&mut self, p: &mut syn::TypePath) {
        // `<X as Trait>::Name`: no segment of the path is a parameter
        if let Some(q) = &mut p.qself { self.visit_qself_mut(q); for s in p.path.segments.iter_mut() { self.visit_path_arguments_mut(&mut s.arguments); } } else { self.visit_path_mut(&mut p.path); }
    }
    fn visit_expr_path_mut(&mut self, p: &mut syn::ExprPath) {
        if let Some(q) = &mut p.qself { self.visit_qself_mut(q); for s in p.path.segments.iter_mut() { self.visit_path_arguments_mut(&mut s.arguments); } } else { self.visit_path_mut(&mut p.path); }
    }
    fn visit_macro_mut(&mut self, m: &mut syn::Macro) { m.tokens = ptokens(m.tokens.clone(), self.0); }
}
fn tokens(t: TokenStream, m: &BTreeMap<String, String>) -> TokenStream {
    t.into_iter().map(|x| match x {
        TokenTree::Ident(i) => match m.get(&i.to_string()) { Some(n) => TokenTree::Ident(Ident::new(n, i.span())), None => TokenTree::Ident(i) },
        TokenTree::Group(g) => { let mut n = Group::new(g.delimiter(), tokens(g.stream(), m)); n.set_span(g.span()); TokenTree::Group(n) }
        o => o,
    }).collect()
}
impl VisitMut for Idents<'_> {
    fn visit_ident_mut(&mut self, i: &mut Ident) { if let Some(n) = self.0.get(&i.to_string()) { *i = Ident::new(n, i.span()); } }
    fn visit_macro_mut(&mut self, m: &mut syn::Macro) { syn::visit_mut::visit_macro_mut(self, m); m.tokens = tokens(m.tokens.clone(), self.0); }
}
/// fields: renamed in accesses, literals and patterns (not where the name is a variable)
struct FieldNames<'a>(&'a BTreeMap<String, String>);
fn dotted(t: TokenStream, m: &BTreeMap<String, String>) -> TokenStream {
    let mut dot = false;
    t.into_iter().map(|x| {
        let was = dot; dot = matches!(&x, TokenTree::Punct(p) if p.as_char() == '.');
        match x {
            TokenTree::Ident(i) if was => match m.get(&i.to_string()) { Some(n) => TokenTree::Ident(Ident::new(n, i.span())), None => TokenTree::Ident(i) },
            TokenTree::Group(g) => { let mut n = Group::new(g.delimiter(), dotted(g.stream(), m)); n.set_span(g.span()); TokenTree::Group(n) }
            o => o,
        }
    }).collect()
}
impl FieldNames<'_> {
    fn member(&self, m: &mut Member) -> bool {
        if let Member::Named(i) = m { if let Some(n) = self.0.get(&i.to_string()) { *i = Ident::new(n, i.span()); return true; } }
        false
    }
}
impl VisitMut for FieldNames<'_> {
    fn visit_expr_field_mut(&mut self, e: &mut syn::ExprField) { syn::visit_mut::visit_expr_field_mut(self, e); self.member(&mut e.member); }
    fn visit_field_value_mut(&mut self, f: &mut syn::FieldValue) { syn::visit_mut::visit_field_value_mut(self, f); if self.member(&mut f.member) { f.colon_token.get_or_insert_with(Default::default); } }
    fn visit_field_pat_mut(&mut self, f: &mut syn::FieldPat) { syn::visit_mut::visit_field_pat_mut(self, f); if self.member(&mut f.member) { f.colon_token.get_or_insert_with(Default::default); } }
    fn visit_field_mut(&mut self, f: &mut syn::Field) { if let Some(i) = &mut f.ident { if let Some(n) = self.0.get(&i.to_string()) { *i = Ident::new(n, i.span()); } } }
    fn visit_macro_mut(&mut self, m: &mut syn::Macro) { m.tokens = dotted(m.tokens.clone(), self.0); }
}
fn pairs(v: &Value) -> Vec<(String, String)> { v.as_array().into_iter().flatten().map(|x| (x[0].as_str().unwrap_or("").to_string(), x[1].as_str().unwrap_or("").to_string())).collect() }
/// which of the names `have` stand for the names `want`: by type where that decides, else in order
fn assign(want: &[(String, String)], have: &[(String, String)]) -> Option<Vec<(String, String)>> {
    if want.len() != have.len() { return None; }
    let wn: BTreeSet<&String> = want.iter().map(|x| &x.0).collect(); let hn: BTreeSet<&String> = have.iter().map(|x| &x.0).collect();
    let w: Vec<_> = want.iter().filter(|x| !hn.contains(&x.0)).collect();
    let mut h: Vec<_> = have.iter().filter(|x| !wn.contains(&x.0)).collect();
    let mut out = vec![];
    for x in w {
        let same: Vec<usize> = (0..h.len()).filter(|i| h[*i].1 == x.1).collect();
        let i = if let Some(i) = same.first() { *i } else { 0 };
        out.push((h.remove(i).0.clone(), x.0.clone()));
    }
    Some(out)
}
fn idents_in(t: TokenStream, o: &mut BTreeSet<String>) { for x in t { match x { TokenTree::Ident(i) => { o.insert(i.to_string()); } TokenTree::Group(g) => idents_in(g.stream(), o), _ => {} } } }
fn all_idents(files: &BTreeMap<String, Vec<Item>>) -> BTreeSet<String> {
    let mut o = BTreeSet::new();
    for v in files.values() { for i in v { idents_in(i.to_token_stream(), &mut o); } }
    o
}
fn variants(v: &Value) -> Vec<(String, Vec<(String, String)>)> { v.as_array().into_iter().flatten().map(|x| (x[0].as_str().unwrap_or("").to_string(), pairs(&x[1]))).collect() }
/// how alike two types are: None if they cannot be the same
fn alike(a: &Value, b: &Value) -> bool {
    if a["k"] != b["k"] { return false; }
    if a["k"] == "struct" { pairs(&a["f"]).len() == pairs(&b["f"]).len() }
    else { let (x, y) = (variants(&a["v"]), variants(&b["v"])); x.len() == y.len() && x.iter().zip(&y).all(|(p, q)| p.1.len() == q.1.len()) }
}
pub fn canonicalise(files: &mut BTreeMap<String, Vec<Item>>, shape: &Value) -> Vec<String> {
    let mut log = vec![];
    let Some(want) = shape.as_object() else { return log };
    // types and variants
    for (f, s) in want {
        let Some(types) = s["types"].as_object() else { continue };
        let have: BTreeMap<String, Value> = match files.get(f) { Some(v) => v.iter().filter_map(shape_of).collect(), None => continue };
        let elsewhere: BTreeSet<String> = files.values().flatten().filter_map(shape_of).map(|x| x.0).collect();
        let mut m: BTreeMap<String, String> = BTreeMap::new();
        for (n, v) in types {
            if have.contains_key(n) || elsewhere.contains(n) { continue; }
            let c: Vec<&String> = have.iter().filter(|(h, hv)| !types.contains_key(*h) && !m.contains_key(*h) && alike(v, hv)).map(|x| x.0).collect();
            if c.len() == 1 { m.insert(c[0].clone(), n.clone()); }
        }
        let known = all_idents(files);
        m.retain(|_, n| !known.contains(n));
        if !m.is_empty() {
            log.push(format!("{}: {:?}", f, m));
            for v in files.values_mut() { for i in v { Idents(&m).visit_item_mut(i); } }
        }
        let have: BTreeMap<String, Value> = files[f].iter().filter_map(shape_of).collect();
        let mut m: BTreeMap<String, String> = BTreeMap::new();
        for (n, v) in types {
            let Some(h) = have.get(n) else { continue };
            if v["k"] != "enum" || h["k"] != "enum" || !alike(v, h) { continue; }
            let (w, h) = (variants(&v["v"]), variants(&h["v"]));
            let ws: BTreeSet<&String> = w.iter().map(|x| &x.0).collect(); let hs: BTreeSet<&String> = h.iter().map(|x| &x.0).collect();
            for (a, b) in w.iter().zip(&h) { if a.0 != b.0 && !hs.contains(&a.0) && !ws.contains(&b.0) { m.insert(b.0.clone(), a.0.clone()); } }
        }
        let known = all_idents(files);
        m.retain(|_, n| !known.contains(n));
        if !m.is_empty() {
            log.push(format!("{}: {:?}", f, m));
            for v in files.values_mut() { for i in v { Idents(&m).visit_item_mut(i); } }
        }
    }
    // private functions
    for (f, s) in want {
        let Some(v) = files.get(f) else { continue };
        let have = private(v);
        let mut m: BTreeMap<String, String> = BTreeMap::new();
        for (ty, w) in s["fns"].as_object().into_iter().flatten() {
            let (w, h) = (pairs(w), match have.get(ty) { Some(h) => h, None => continue });
            let gone: Vec<_> = w.iter().filter(|x| !h.iter().any(|y| y.0 == x.0)).collect();
            let new: Vec<_> = h.iter().filter(|x| !w.iter().any(|y| y.0 == x.0)).collect();
            for (i, g) in gone.iter().enumerate() {
                let nth = gone[..i].iter().filter(|x| x.1 == g.1).count();
                let c: Vec<_> = new.iter().filter(|x| x.1 == g.1).collect();
                // as many of this signature are new as are gone
                if c.len() == gone.iter().filter(|x| x.1 == g.1).count() { m.insert(c[nth].0.clone(), g.0.clone()); }
            }
        }
        let known = all_idents(files);
        m.retain(|_, n| !known.contains(n));
        if !m.is_empty() {
            log.push(format!("{}: {:?}", f, m));
            for v in files.values_mut() { for i in v { Idents(&m).visit_item_mut(i); } }
        }
    }
    // fields
    for (f, s) in want {
        let Some(types) = s["types"].as_object() else { continue };
        let have: Vec<(String, Value)> = match files.get(f) { Some(v) => v.iter().filter_map(shape_of).collect(), None => continue };
        let mut m: BTreeMap<String, String> = BTreeMap::new();
        let mut clash = false;
        for (n, h) in &have {
            let Some(v) = types.get(n) else { continue };
            let groups: Vec<(Vec<(String, String)>, Vec<(String, String)>)> = if v["k"] == "struct" && h["k"] == "struct" { vec![(pairs(&v["f"]), pairs(&h["f"]))] }
                else if v["k"] == "enum" && alike(v, h) { variants(&v["v"]).into_iter().zip(variants(&h["v"])).map(|(a, b)| (a.1, b.1)).collect() } else { vec![] };
            for (w, h) in groups {
                if let Some(a) = assign(&w, &h) { for (x, y) in a { if let Some(o) = m.insert(x, y.clone()) { if o != y { clash = true; } } } }
            }
        }
        // a name which some type of the file keeps must not be renamed in another
        let kept: BTreeSet<String> = types.values().flat_map(|v| if v["k"] == "struct" { pairs(&v["f"]) } else { variants(&v["v"]).into_iter().flat_map(|x| x.1).collect() }).map(|x| x.0).collect();
        if clash || m.is_empty() || m.keys().any(|k| kept.contains(k) || k.chars().all(|c| c.is_ascii_digit())) { continue; }
        log.push(format!("{}: fields {:?}", f, m));
        for i in files.get_mut(f).unwrap() { FieldNames(&m).visit_item_mut(i); }
    }
    // type parameters of the impls
    for (f, s) in want {
        let Some(items) = files.get_mut(f) else { continue };
        for i in items {
            let Some((key, toks, gens)) = heads(i) else { continue };
            for w in s["impls"].as_array().into_iter().flatten() {
                let wt: Vec<&str> = w[1].as_array().into_iter().flatten().map(|x| x.as_str().unwrap_or("")).collect();
                let wg: BTreeSet<&str> = w[2].as_array().into_iter().flatten().map(|x| x.as_str().unwrap_or("")).collect();
                if w[0].as_str() != Some(&key) || wt.len() != toks.len() { continue; }
                if let Item::Impl(im) = i { for x in &mut im.items { if let syn::ImplItem::Fn(fun) = x {
                    let h = sig_gens(&fun.sig);
                    let want: Vec<String> = w[3][fun.sig.ident.to_string()].as_array().into_iter().flatten().map(|x| x.as_str().unwrap_or("").to_string()).collect();
                    if h.len() != want.len() { continue; }
                    let m: BTreeMap<String, String> = h.iter().zip(&want).filter(|(a, b)| a != b).map(|(a, b)| (a.clone(), b.clone())).collect();
                    if m.is_empty() || m.values().any(|t| (h.contains(t) || gens.contains(t)) && !m.contains_key(t)) { continue; }
                    log.push(format!("{}: {}: {:?}", f, fun.sig.ident, m));
                    Params(&m).visit_impl_item_fn_mut(fun);
                } } }
                let mut m: BTreeMap<String, String> = BTreeMap::new(); let mut ok = true;
                for (a, b) in wt.iter().zip(&toks) {
                    if *a == b { continue; }
                    if wg.contains(a) && gens.contains(b) { if let Some(o) = m.insert(b.clone(), a.to_string()) { if o != *a { ok = false; } } } else { ok = false; }
                }
                let targets: BTreeSet<&String> = m.values().collect();
                if !ok || m.is_empty() || targets.len() != m.len() || targets.iter().any(|t| gens.contains(*t) && !m.contains_key(*t)) { break; }
                log.push(format!("{}: impl {}: {:?}", f, key, m));
                Params(&m).visit_item_mut(i);
                break;
            }
        }
    }
    log
}
