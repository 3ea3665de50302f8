//! Mechanical extraction of /repo's functions into a Verus file.
//!
//! usage: extract --repo DIR --template FILE --out FILE --map FILE [--external LABEL]... [--flip N]...
//!
//! Reads a contract template, replaces every `//@` directive by the item it names, taken from the
//! Rust sources under DIR/src at this moment, after the rewrites documented in DESIGN.md (E1..E21).
//! No text of a function body comes from the template except ghost `proof { .. }` blocks.
mod fmt;
mod canon;
mod mac;
mod rewrite;

use proc_macro2::TokenStream;
use quote::{quote, ToTokens};
use rewrite::{Helper, Rw};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::path::Path;
use syn::spanned::Spanned;
use syn::visit_mut::VisitMut;
use syn::{Item, ImplItem, TraitItem};

pub struct Repo {
    files: BTreeMap<String, Vec<Item>>,
}

fn is_test_cfg(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| a.path().is_ident("cfg") && a.to_token_stream().to_string().contains("test"))
}
fn cfg_off(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| {
        if !a.path().is_ident("cfg") { return false; }
        let s = a.to_token_stream().to_string().replace(' ', "");
        if s.contains("target_pointer_width") { return !s.contains("\"64\""); }
        if s.contains("feature") || s.contains("veb_tree_verif") { return true; }
        s.contains("cfg(test") 
    })
}

fn collect_items(items: Vec<Item>, out: &mut Vec<Item>) {
    for it in items {
        match it {
            Item::Mod(m) => {
                if is_test_cfg(&m.attrs) || cfg_off(&m.attrs) { continue; }
                if let Some((_, c)) = m.content { collect_items(c, out); }
            }
            Item::Fn(ref f) if cfg_off(&f.attrs) => {}
            Item::Impl(ref f) if cfg_off(&f.attrs) => {}
            Item::Macro(ref f) if cfg_off(&f.attrs) => {}
            it => out.push(it),
        }
    }
}

fn load(repo: &str) -> Repo {
    let mut files = BTreeMap::new();
    fn walk(root: &Path, d: &Path, files: &mut Vec<(String, syn::File)>) {
        let mut es: Vec<_> = std::fs::read_dir(d).unwrap().map(|e| e.unwrap().path()).collect();
        es.sort();
        for p in es {
            if p.is_dir() { walk(root, &p, files); }
            else if p.extension().map_or(false, |e| e == "rs") {
                let s = std::fs::read_to_string(&p).unwrap();
                let f = match syn::parse_file(&s) { Ok(f) => f, Err(e) => { eprintln!("EXTRACT-ERROR parse {}: {}", p.display(), e); continue; } };
                files.push((p.strip_prefix(root).unwrap().to_string_lossy().to_string(), f));
            }
        }
    }
    let root = Path::new(repo);
    let mut parsed = vec![];
    walk(root, &root.join("src"), &mut parsed);
    let mut macros = mac::Macros::default();
    for (_, f) in &parsed { macros.collect(f); }
    for (n, mut f) in parsed {
        if !macros.is_empty() { macros.apply(&mut f); }
        let mut v = vec![];
        collect_items(f.items, &mut v);
        files.insert(n, v);
    }
    Repo { files }
}

fn norm(s: &str) -> String { s.chars().filter(|c| !c.is_whitespace()).collect() }

/// "Trait for SelfTy" or "SelfTy" with whitespace removed
fn impl_name(i: &syn::ItemImpl) -> String {
    let st = norm(&i.self_ty.to_token_stream().to_string());
    match &i.trait_ {
        Some((_, p, _)) => {
            let seg = p.segments.last().unwrap();
            format!("{}@{}", norm(&seg.to_token_stream().to_string()), st)
        }
        None => st,
    }
}

/// an initializer made of literals, constants and operators only
fn plain_init(e: &syn::Expr) -> bool {
    use syn::Expr::*;
    match e {
        Lit(_) | Path(_) => true,
        Unary(u) => plain_init(&u.expr), Paren(p) => plain_init(&p.expr), Cast(c) => plain_init(&c.expr), Group(p) => plain_init(&p.expr),
        Binary(b) => plain_init(&b.left) && plain_init(&b.right),
        Array(a) => a.elems.iter().all(plain_init), Tuple(a) => a.elems.iter().all(plain_init),
        _ => false,
    }
}
fn idents_of(text: &str) -> BTreeSet<String> {
    text.lines().flat_map(|l| l.split("//").next().unwrap_or("").split(|c: char| !(c.is_alphanumeric() || c == '_')).map(|x| x.to_string()).collect::<Vec<_>>()).filter(|x| !x.is_empty()).collect()
}

fn item_ident(i: &Item) -> Option<(&'static str, String)> {
    Some(match i {
        Item::Struct(s) => ("struct", s.ident.to_string()),
        Item::Enum(s) => ("enum", s.ident.to_string()),
        Item::Type(s) => ("type", s.ident.to_string()),
        Item::Fn(s) => ("fn", s.sig.ident.to_string()),
        Item::Trait(s) => ("trait", s.ident.to_string()),
        Item::Const(s) => ("const", s.ident.to_string()),
        _ => return None,
    })
}

struct FnRec { opaque: Vec<String>, params: Vec<String>, label: String, file: String, line: usize, end_line: usize, gen_start: usize, gen_end: usize, kind: String, rewrites: Vec<String>, ambiguous: Vec<usize> }

struct Gen {
    repo: Repo,
    out: String,
    recs: Vec<FnRec>,
    external: BTreeSet<String>,
    canary: bool,
    flips: BTreeSet<usize>,
    site_ctr: usize,
    helpers: HashMap<String, Vec<Helper>>,
    errors: Vec<String>,
    missing: Vec<String>,
    used_helpers: BTreeSet<String>,
    params: BTreeMap<String, Vec<String>>,
    inline: BTreeSet<String>,
    steps: BTreeSet<String>,
}
fn param_names(sig: &syn::Signature) -> Vec<String> {
    sig.inputs.iter().filter_map(|a| if let syn::FnArg::Typed(t) = a { Some(t.pat.to_token_stream().to_string()) } else { None }).collect()
}

#[derive(Default, Clone)]
struct ImplCfg {
    spec: String,
    prologue: Vec<(String, String)>,          // pattern, text
    contract: HashMap<String, (String, String)>, // name -> (ret binder, text)
    skip: BTreeSet<String>,
    opt: BTreeSet<String>, // contracts of methods which need not be there
    only: Option<BTreeSet<String>>,
    header: Option<String>,
    external: BTreeSet<String>,
    epilogue: Vec<(String, String)>,
    optional: bool,
    rest: String, // rest mode: "skip-uncontracted"
    sigs: HashMap<String, String>,
    subst: Vec<(String, String, String)>,
    partial: bool, // E23: the function on inputs on which it must panic
    consts: HashMap<String, (String, String)>, // const NAME -> ensures text, proof block
    defaults: Vec<(String, String, String)>, // file, trait, method: default bodies copied into the impl when it does not override them
}

struct TraitItemFnD { sig: syn::Signature, block: Option<syn::Block> }

struct Strip;
impl VisitMut for Strip {
    fn visit_attributes_mut(&mut self, i: &mut Vec<syn::Attribute>) { i.clear(); }
    fn visit_path_mut(&mut self, p: &mut syn::Path) {
        syn::visit_mut::visit_path_mut(self, p);
        let first = p.segments.first().map(|s| s.ident.to_string()).unwrap_or_default();
        if p.segments.len() > 1 && (matches!(first.as_str(), "crate" | "super" | "self" | "list" | "hash" | "array" | "set" | "map" | "bitset" | "collection" | "tree" | "key" | "iter" | "markers" | "mem" | "hash_map" | "hashbrown" | "vec_entry" | "generic_array" | "typenum" | "btree_map" | "collections" | "boxed") || (first == "core" || first == "alloc" || first == "std")) {
            // keep from the first upper-case segment (a type/trait), or the last segment
            let n = p.segments.len();
            let k = p.segments.iter().position(|s| s.ident.to_string().chars().next().unwrap().is_uppercase()).unwrap_or(n - 1);
            if first == "core" || first == "alloc" || first == "std" {
                // only strip paths to Borrow, Deref, replace ... (names the prelude imports)
                let nm = p.segments[k].ident.to_string();
                if !matches!(nm.as_str(), "Borrow" | "Ordering" | "replace" | "swap" | "take" | "Box" | "Vec" | "VecDeque" | "BTreeMap" | "Bound" | "NonZeroUsize" | "PhantomData" | "HashMap" | "Unsigned" | "Deref" | "DerefMut" | "BitAndAssign" | "Iterator" | "FusedIterator" | "Some" | "None" | "Ok" | "Err" | "Option" | "Result") { return; }
            }
            let segs: Vec<_> = p.segments.iter().skip(k).cloned().collect();
            p.segments = segs.into_iter().collect();
            p.leading_colon = None;
        }
    }
}

fn pub_fields(f: &mut syn::Fields) {
    let v: syn::Visibility = syn::parse_quote!(pub);
    match f {
        syn::Fields::Named(n) => for x in n.named.iter_mut() { x.vis = v.clone(); },
        syn::Fields::Unnamed(n) => for x in n.unnamed.iter_mut() { x.vis = v.clone(); },
        _ => {}
    }
}

impl Gen {
    /// The type aliases, constants, structs and enums the extracted code mentions and the template does not have.
    fn emit_new_items(&mut self, lines: &[String]) {
        let files: BTreeSet<String> = lines.iter().filter_map(|l| { let w: Vec<&str> = l.split_whitespace().collect(); if w.len() > 1 && w[0].starts_with("//@") && w[1].ends_with(".rs") { Some(w[1].to_string()) } else { None } }).collect();
        let mut have: BTreeSet<String> = self.out.lines().filter_map(|l| {
            let w: Vec<&str> = l.split(|c: char| !(c.is_alphanumeric() || c == '_')).filter(|x| !x.is_empty()).collect();
            w.iter().position(|x| matches!(*x, "type" | "struct" | "enum" | "const" | "trait" | "fn" | "static")).and_then(|p| if w[p] == "const" && w.get(p + 1) == Some(&"fn") { w.get(p + 2) } else { w.get(p + 1) }).map(|x| x.to_string())
        }).collect();
        loop {
            let used = idents_of(&self.out);
            let mut next: Option<(String, Item)> = None;
            for f in &files { for i in self.repo.files.get(f).into_iter().flatten() {
                if next.is_some() { break; }
                if let Some((k, n)) = item_ident(i) {
                    if have.contains(&n) || !used.contains(&n) { continue; }
                    let attrs = match i { Item::Struct(s) => &s.attrs, Item::Enum(s) => &s.attrs, _ => &vec![] };
                    if attrs.iter().any(|a| a.path().is_ident("phantom")) { continue; }
                    match i { Item::Const(c) if !plain_init(&c.expr) => continue, _ => {} }
                    if matches!(k, "type" | "const" | "struct" | "enum") { next = Some((n, i.clone())); }
                }
            } }
            let (n, mut it) = match next { None => return, Some(x) => x };
            have.insert(n);
            let attrs = match &it { Item::Struct(s) => s.attrs.clone(), Item::Enum(s) => s.attrs.clone(), _ => vec![] };
            let derives: String = attrs.iter().filter(|a| a.path().is_ident("derive")).map(|a| format!(" {} ", a.to_token_stream())).collect();
            let has = |n: &str| derives.split(|c: char| !c.is_alphanumeric()).any(|x| x == n);
            if has("Copy") && has("Clone") { self.out.push_str("#[derive(Clone, Copy)]\n"); }
            Strip.visit_item_mut(&mut it);
            let v: syn::Visibility = syn::parse_quote!(pub);
            match &mut it { Item::Struct(s) => { s.vis = v; pub_fields(&mut s.fields); } Item::Enum(s) => s.vis = v, Item::Type(s) => s.vis = v, Item::Const(s) => { s.vis = v; if let syn::Type::Reference(r) = &mut *s.ty { if r.lifetime.is_none() { r.lifetime = Some(syn::parse_quote!('static)); } } } _ => {} }
            self.emit_tokens(it.to_token_stream(), &[]);
        }
    }

    fn find_item(&mut self, file: &str, kind: &str, name: &str) -> Option<Item> {
        let cands: Vec<(String, Item)> = self.repo.files.iter().flat_map(|(f, v)| v.iter().map(move |i| (f.clone(), i.clone())))
            .filter(|(_, i)| item_ident(i).map_or(false, |(k, n)| k == kind && n == name)).collect();
        if let Some(c) = cands.iter().find(|c| c.0 == file) { return Some(c.1.clone()); }
        if cands.len() == 1 { return Some(cands[0].1.clone()); }
        self.missing.push(format!("{} {} {}", kind, file, name));
        None
    }
    fn find_impl(&mut self, file: &str, sel: &str) -> Option<(String, syn::ItemImpl)> {
        let want = norm(&sel.replacen(" for ", "@", 1));
        let mut c1 = vec![];
        for (f, v) in &self.repo.files {
            for i in v {
                if let Item::Impl(im) = i {
                    let n = impl_name(im);
                    if n == want || (n.starts_with(&want) && n[want.len()..].starts_with('<')) { c1.push((f.clone(), im.clone())); }
                }
            }
        }
        if let Some(p) = c1.iter().position(|c| c.0 == file) { return Some(c1.swap_remove(p)); }
        if c1.len() == 1 { return c1.pop(); }
        self.missing.push(format!("impl {} {}", file, sel));
        None
    }
    /// all inherent impls of the type, merged
    fn find_inherent(&mut self, sel: &str) -> Vec<(String, syn::ItemImpl)> {
        let want = norm(sel);
        let mut r = vec![];
        for (f, v) in &self.repo.files {
            for i in v {
                if let Item::Impl(im) = i {
                    if im.trait_.is_some() { continue; }
                    let n = impl_name(im);
                    if n == want || (n.starts_with(&want) && n[want.len()..].starts_with('<')) { r.push((f.clone(), im.clone())); }
                }
            }
        }
        r
    }
    /// E15: the number a typenum type stands for
    fn card(&self, file: &str, t: &syn::Type) -> Option<u128> {
        match t {
            syn::Type::Macro(m) if m.mac.path.segments.last().unwrap().ident == "op" => { let e: syn::Expr = syn::parse2(m.mac.tokens.clone()).ok()?; self.card_e(file, &e) }
            syn::Type::Paren(p) => self.card(file, &p.elem),
            syn::Type::Path(p) => {
                let s = p.path.segments.last().unwrap();
                let n = s.ident.to_string();
                if let syn::PathArguments::AngleBracketed(a) = &s.arguments {
                    let v: Vec<u128> = a.args.iter().map(|x| if let syn::GenericArgument::Type(t) = x { self.card(file, t) } else { None }).collect::<Option<_>>()?;
                    if v.len() != 2 { return None; }
                    return match n.as_str() { "Shleft" => v[0].checked_shl(v[1] as u32), "Sum" => v[0].checked_add(v[1]), "Prod" => v[0].checked_mul(v[1]), "Diff" => v[0].checked_sub(v[1]), "Exp" => v[0].checked_pow(v[1] as u32), _ => None };
                }
                self.card_id(file, &n)
            }
            _ => None,
        }
    }
    fn card_e(&self, file: &str, e: &syn::Expr) -> Option<u128> {
        match e {
            syn::Expr::Paren(p) => self.card_e(file, &p.expr),
            syn::Expr::Path(p) => self.card_id(file, &p.path.segments.last().unwrap().ident.to_string()),
            syn::Expr::Binary(b) => {
                let (l, r) = (self.card_e(file, &b.left)?, self.card_e(file, &b.right)?);
                match b.op { syn::BinOp::Shl(_) => l.checked_shl(r as u32), syn::BinOp::Shr(_) => l.checked_shr(r as u32), syn::BinOp::Add(_) => l.checked_add(r), syn::BinOp::Sub(_) => l.checked_sub(r), syn::BinOp::Mul(_) => l.checked_mul(r), syn::BinOp::BitOr(_) => Some(l | r), syn::BinOp::BitAnd(_) => Some(l & r), _ => None }
            }
            _ => None,
        }
    }
    fn card_id(&self, file: &str, n: &str) -> Option<u128> {
        fn find(t: &syn::UseTree, n: &str) -> Option<String> {
            match t {
                syn::UseTree::Path(p) => find(&p.tree, n),
                syn::UseTree::Group(g) => g.items.iter().find_map(|t| find(t, n)),
                syn::UseTree::Rename(r) if r.rename == n => Some(r.ident.to_string()),
                _ => None,
            }
        }
        let items = self.repo.files.get(file)?;
        for i in items { if let Item::Type(t) = i { if t.ident == n { return self.card(file, &t.ty); } } }
        let real = items.iter().find_map(|i| if let Item::Use(u) = i { find(&u.tree, n) } else { None }).unwrap_or(n.to_string());
        real.strip_prefix('U')?.parse().ok()
    }
    fn line(&self) -> usize { self.out.matches('\n').count() + 1 }

    fn emit_tokens(&mut self, ts: TokenStream, raw: &[String]) { let s = fmt::print(ts, raw); self.out.push_str(&s); self.out.push('\n'); }

    #[allow(clippy::too_many_arguments)]
    fn emit_fn(&mut self, label: &str, file: &str, attrs_span_line: (usize, usize), sig: &syn::Signature, block: &syn::Block, cfg: &ImplCfg, self_name: &str, is_pub: bool) {
        let name = sig.ident.to_string();
        let mut sig = sig.clone();
        Strip.visit_signature_mut(&mut sig);
        sig.constness = None;
        let mut rw = Rw::new(&self.helpers, self.flips.clone(), self.site_ctr, &sig, self_name);
        let mut body = block.clone();
        let counted = self.steps.contains(&name);
        rw.steps = self.steps.clone();
        rw.partial = cfg.partial;
        if name == "ne" { if let Some(o) = param_names(&sig).first() { rewrite::SelfEq(o.clone()).visit_block_mut(&mut body); } }
        let mut res = rw.run(&mut sig, &mut body);
        if cfg.partial {
            rewrite::Partial.visit_block_mut(&mut body);
            rw.log.insert("E23 panics".into());
            sig.ident = quote::format_ident!("{}_absent", name);
        }
        if counted {
            let rt = sig.output.to_token_stream().to_string();
            let is_res = rt.starts_with("-> Result") || rt.contains("MaybeRemoveResult") || rt.contains("TreeInsertResult");
            let mut st = rewrite::Steps { names: &self.steps, fns: BTreeSet::new(), count: true, is_res, errs: vec![] };
            st.fn_params(&mut sig);
            st.body(&mut body, &sig.output);
            if res.is_ok() && !st.errs.is_empty() { res = Err(st.errs.join("; ")); }
            rw.log.insert("E22 steps".into());
            let t: syn::Type = match &sig.output { syn::ReturnType::Type(_, t) => (**t).clone(), _ => syn::parse_quote!(()) };
            sig.output = syn::parse_quote!(-> (#t, Ghost<nat>));
        } else if !self.steps.is_empty() {
            let mut st = rewrite::Steps { names: &self.steps, fns: BTreeSet::new(), count: false, is_res: false, errs: vec![] };
            st.visit_block_mut(&mut body);
        }
        Strip.visit_block_mut(&mut body);
        self.site_ctr = rw.site_ctr;
        let used: Vec<String> = rw.used.iter().cloned().collect();
        let ambiguous = rw.ambiguous.clone();
        let mut rewrites: Vec<String> = rw.log.iter().cloned().collect();
        let mut raw = rw.raw.clone();
        let pre_stmts = rw.pre.clone();
        let opaque: Vec<String> = rw.opaque.iter().cloned().collect();
        drop(rw);
        for u in used { self.used_helpers.insert(u.clone()); rewrites.push(format!("inline {}", u)); }
        let mut ext = self.external.contains(label) || (cfg.external.contains(&name) || cfg.external.contains("*"));
        let mut kind = if cfg.external.contains(&name) || cfg.external.contains("*") { "trusted" } else if ext { "degraded" } else { "verified" }.to_string();
        if let Err(e) = res {
            self.errors.push(format!("{}: {}", label, e));
            ext = true; kind = "degraded".into();
        }
        // the contract names the parameters as the code did when it was written: rename back
        let params_now = param_names(&sig);
        if let Some(orig) = self.params.get(label) {
            if orig.len() == params_now.len() && *orig != params_now {
                let (mut olds, mut news) = (vec![], vec![]);
                for (a, o) in sig.inputs.iter_mut().filter_map(|a| if let syn::FnArg::Typed(t) = a { Some(t) } else { None }).zip(orig) {
                    if let syn::Pat::Ident(p) = &mut *a.pat {
                        if p.ident != o { let oi = quote::format_ident!("{}", o); news.push(p.ident.clone()); p.ident = oi.clone(); olds.push(oi); }
                    }
                }
                let st: syn::Stmt = syn::parse_quote!(let (#(#news,)*) = (#(#olds,)*););
                body.stmts.insert(0, st);
                rewrites.push("E18 parameter names".into());
            }
        }
        let start = self.line();
        if ext { self.out.push_str("#[verifier::external_body]\n"); }
        // header
        let mut hdr = String::new();
        if is_pub { hdr.push_str("pub "); }
        let ident = &sig.ident;
        let gens = &sig.generics;
        let (ig, wh) = (gens.params.clone(), gens.where_clause.clone());
        let inputs = &sig.inputs;
        let g = if ig.is_empty() { quote!() } else { quote!(<#ig>) };
        hdr.push_str(&fmt::print(quote!(fn #ident #g (#inputs)), &raw));
        if let Some(s) = cfg.sigs.get(&name) { hdr = s.clone(); }
        let c = cfg.contract.get(&name);
        if !cfg.sigs.contains_key(&name) {
        if let syn::ReturnType::Type(_, t) = &sig.output {
            let ts = fmt::print(t.to_token_stream(), &raw);
            match c { Some((b, _)) => hdr.push_str(&format!(" -> ({}: {})", b, ts)), None => hdr.push_str(&format!(" -> {}", ts)) }
        }
        if let Some(w) = wh { hdr.push_str("\n"); hdr.push_str(&fmt::print(w.to_token_stream(), &raw)); }
        }
        for (f, a, b) in &cfg.subst { if f == "hdr" { hdr = hdr.replace(a, b); } }
        self.out.push_str(&hdr);
        self.out.push('\n');
        if let Some((_, t)) = c { self.out.push_str(t); }
        self.out.push_str("{\n");
        if ext {
            self.out.push_str("unimplemented!()\n}\n");
        } else {
            if self.canary { self.out.push_str("assert(false);\n"); }
            for (p, t) in &cfg.prologue {
                let m = p == &name || p == "*"
                    || (p == "*self" && sig.inputs.first().map_or(false, |a| matches!(a, syn::FnArg::Receiver(_))))
                    || p.split(',').any(|x| x == name);
                if m && !cfg.prologue.iter().any(|(q, t2)| q == &format!("!{}", name) && t2.is_empty()) { self.out.push_str(t); self.out.push('\n'); }
            }
            for s in pre_stmts { self.out.push_str(&s); self.out.push('\n'); }
            let stmts = &body.stmts;
            let ts = quote!(#(#stmts)*);
            let mut txt = fmt::print(ts, &raw);
            for (f, a, b) in &cfg.subst { if f == "*" || f == &name { txt = txt.replace(a, b); } }
            self.out.push_str(&txt);
            self.out.push_str("\n}\n");
        }
        let end = self.line();
        raw.clear();
        self.recs.push(FnRec { opaque, params: params_now, label: label.into(), file: file.into(), line: attrs_span_line.0, end_line: attrs_span_line.1, gen_start: start, gen_end: end, kind, rewrites, ambiguous });
    }

    fn emit_impl(&mut self, file: &str, sel: &str, cfg: &ImplCfg, inherent_of_trait: bool) {
        let is_trait = sel.contains(" for ");
        let found: Vec<(String, syn::ItemImpl)> = if is_trait { self.find_impl(file, sel).into_iter().collect() } else { self.find_inherent(sel) };
        if found.is_empty() { if !is_trait { self.missing.push(format!("impl {}", sel)); } return; }
        let mut cfg = cfg.clone();
        if !is_trait { for n in &self.inline { cfg.contract.remove(n); } }
        let cfg = &cfg;
        let mut emitted = BTreeSet::new();
        let mut first = true;
        for (f, im) in found {
            let mut im = im;
            // does any method of this block get emitted?
            let names: Vec<String> = im.items.iter().filter_map(|i| if let ImplItem::Fn(f) = i { Some(f.sig.ident.to_string()) } else { None }).collect();
            let want = |n: &String| -> bool {
                if cfg.skip.contains(n) { return false; }
                if let Some(o) = &cfg.only { if !o.contains(n) { return false; } }
                if !is_trait && !cfg.contract.contains_key(n) { return false; }
                true
            };
            if !is_trait && !names.iter().any(|n| want(n)) && !(first && !cfg.spec.is_empty()) { continue; }
            let items = std::mem::take(&mut im.items);
            let mut hdr_im = im.clone();
            Strip.visit_item_impl_mut(&mut hdr_im);
            let generics = &hdr_im.generics;
            let (ig, wh) = (&generics.params, &generics.where_clause);
            let st = &hdr_im.self_ty;
            let g = if ig.is_empty() { quote!() } else { quote!(<#ig>) };
            let hdr = match (&hdr_im.trait_, inherent_of_trait) {
                (Some(_), false) if cfg.partial => quote!(impl #g RemoveAbsent for #st #wh),
                (Some((_, p, _)), false) => quote!(impl #g #p for #st #wh),
                _ => quote!(impl #g #st #wh),
            };
            match &cfg.header { Some(h) => { self.out.push_str(h); } None => { let s = fmt::print(hdr, &[]); self.out.push_str(&s); } }
            self.out.push_str(" {\n");
            if is_trait || first { self.out.push_str(&cfg.spec); }
            let self_name = match &*im.self_ty { syn::Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(), _ => String::new() };
            let (mut post, mut n_post, mut seen_consts) = (vec![], 0, BTreeSet::new());
            for it in items {
                match it {
                    ImplItem::Type(t) if t.ident == "Cardinality" => match self.card(&f, &t.ty) {
                        Some(n) => { self.out.push_str(&format!("type Cardinality = Card<{}>;\n", n)); }
                        None => { self.missing.push(format!("{}::Cardinality: {}", sel, t.ty.to_token_stream())); self.external.insert(format!("{}::index", sel)); self.out.push_str("type Cardinality = Card<0>;\n"); }
                    },
                    ImplItem::Const(t) if is_trait && cfg.consts.contains_key(&t.ident.to_string()) => {
                        // a constant of a trait: its expression becomes the body of a function, which carries the contract
                        let (ens, pr) = cfg.consts[&t.ident.to_string()].clone();
                        seen_consts.insert(t.ident.to_string());
                        let label = format!("{}::{}", sel, t.ident);
                        let (ln, le) = (t.ident.span().start().line, t.span().end().line);
                        let mut t = t.clone();
                        Strip.visit_impl_item_const_mut(&mut t);
                        let ex = subst_self(t.expr.to_token_stream(), &st.to_token_stream());
                        let body = if self.canary { format!("{} assert(false); {}", pr, fmt::print(ex, &[])) } else { format!("{} {}", pr, fmt::print(ex, &[])) };
                        let id: String = self_name.clone();
                        post.push((label.clone(), ln, le, format!("{}pub fn {}_of_{}_{}() -> (r: {})\n{}\n{{ {} }}\n", if self.external.contains(&label) { "#[verifier::external_body]\n" } else { "" }, t.ident, id, n_post, fmt::print(t.ty.to_token_stream(), &[]), ens, if self.external.contains(&label) { "unimplemented!()".into() } else { body })));
                        n_post += 1;
                    }
                    ImplItem::Const(t) if cfg.consts.contains_key(&t.ident.to_string()) => {
                        let (ens, pr) = cfg.consts[&t.ident.to_string()].clone();
                        let label = format!("{}::{}", sel, t.ident);
                        let (ln, le) = (t.ident.span().start().line, t.span().end().line);
                        let mut t = t.clone();
                        Strip.visit_impl_item_const_mut(&mut t);
                        let ext = self.external.contains(&label);
                        let start = self.line();
                        let txt = format!("{}pub exec const {}: {}\n{}\n{{ {} {} }}\n", if ext { "#[verifier::external_body]\n" } else { "" }, t.ident, fmt::print(t.ty.to_token_stream(), &[]), ens, if ext { "" } else { &pr }, fmt::print(t.expr.to_token_stream(), &[]));
                        self.out.push_str(&txt);
                        let end = self.line();
                        self.recs.push(FnRec { opaque: vec![], params: vec![], label, file: f.clone(), line: ln, end_line: le, gen_start: start, gen_end: end, kind: if ext { "degraded".into() } else { "verified".into() }, rewrites: vec![], ambiguous: vec![] });
                    }
                    ImplItem::Type(_) if cfg.partial => {}
                    ImplItem::Type(mut t) => if !inherent_of_trait && !cfg.skip.contains(&format!("type {}", t.ident)) { Strip.visit_impl_item_type_mut(&mut t); self.emit_tokens(t.to_token_stream(), &[]); },
                    ImplItem::Const(mut t) => if !cfg.skip.contains(&format!("const {}", t.ident)) { Strip.visit_impl_item_const_mut(&mut t); self.emit_tokens(t.to_token_stream(), &[]); },
                    ImplItem::Fn(f2) => {
                        let n = f2.sig.ident.to_string();
                        if !want(&n) { continue; }
                        if let (true, Some((_, p, _))) = (is_trait && !cfg.contract.contains_key(&n) && !cfg.sigs.contains_key(&n), &im.trait_) {
                            let t = p.segments.last().unwrap().ident.to_string();
                            match rewrite::crate_trait(&t) {
                                // a new method of one of the crate's traits: inlined where it is called
                                Some(ms) => if !ms.contains(&n.as_str()) { continue; },
                                // an override of a provided method of a std trait: nothing states what it does
                                None => if !rewrite::STD_METHODS.contains(&n.as_str()) {
                                    let label = format!("{}::{}", sel, n);
                                    self.errors.push(format!("{}: a method without a contract", label));
                                    let ln = self.line();
                                    self.recs.push(FnRec { opaque: vec![], params: vec![], label, file: f.clone(), line: f2.sig.span().start().line, end_line: f2.block.span().end().line, gen_start: ln, gen_end: ln, kind: "degraded".into(), rewrites: vec![], ambiguous: vec![] });
                                    continue;
                                },
                            }
                        }
                        emitted.insert(n.clone());
                        let label = format!("{}::{}{}", sel, n, if cfg.partial { " (absent)" } else { "" });
                        let l = (f2.sig.span().start().line, f2.block.span().end().line);
                        self.emit_fn(&label, &f, l, &f2.sig, &f2.block, cfg, &self_name, !is_trait || inherent_of_trait);
                    }
                    _ => {}
                }
            }
            for (df, dt, dm) in &cfg.defaults {
                if emitted.contains(dm) { continue; }
                if let Some(Item::Trait(tr)) = self.find_item(df, "trait", dt) {
                    let m = tr.items.iter().find_map(|i| { if let TraitItem::Fn(f) = i { if f.sig.ident == dm { return Some(TraitItemFnD { sig: f.sig.clone(), block: f.default.clone() }); } } None });
                    match m {
                        Some(TraitItemFnD { sig, block: Some(b) }) => { emitted.insert(dm.clone()); let label = format!("{}::{}", sel, dm); let l = (sig.span().start().line, b.span().end().line); self.emit_fn(&label, df, l, &sig, &b, cfg, &self_name, false); }
                        _ => self.missing.push(format!("default body {}::{}", dt, dm)),
                    }
                }
            }
            self.out.push_str("}\n");
            for (label, ln, le, txt) in post {
                let start = self.line();
                let ext = self.external.contains(&label);
                self.out.push_str(&txt);
                let end = self.line();
                self.recs.push(FnRec { opaque: vec![], params: vec![], label, file: f.clone(), line: ln, end_line: le, gen_start: start, gen_end: end, kind: if ext { "degraded".into() } else { "verified".into() }, rewrites: vec![], ambiguous: vec![] });
            }
            if is_trait { for n in cfg.consts.keys() { if !seen_consts.contains(n) { self.missing.push(format!("const {}::{}", sel, n)); } } }
            first = false;
        }
        for n in cfg.contract.keys() { if !emitted.contains(n) && !cfg.opt.contains(n) && cfg.only.as_ref().map_or(true, |o| o.contains(n)) { self.missing.push(format!("fn {}::{}", sel, n)); } }
    }
}

/// `Self` written out
fn subst_self(t: TokenStream, ty: &TokenStream) -> TokenStream {
    t.into_iter().flat_map(|x| match x {
        proc_macro2::TokenTree::Ident(i) if i == "Self" => ty.clone(),
        proc_macro2::TokenTree::Group(g) => { let mut n = proc_macro2::Group::new(g.delimiter(), subst_self(g.stream(), ty)); n.set_span(g.span()); TokenStream::from(proc_macro2::TokenTree::Group(n)) }
        o => TokenStream::from(o),
    }).collect()
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mut repo = String::new(); let mut template = String::new(); let mut outp = String::new(); let mut mapp = String::new();
    let mut external = BTreeSet::new(); let mut flips = BTreeSet::new(); let mut canary = false; let mut inline: BTreeSet<String> = BTreeSet::new();
    let mut i = 1;
    while i < args.len() {
        let v = args.get(i + 1).cloned().unwrap_or_default();
        match args[i].as_str() {
            "--repo" => repo = v, "--template" => template = v, "--out" => outp = v, "--map" => mapp = v,
            "--canary" => canary = v == "1",
            "--inline" => { inline.insert(v); }
            "--external" => { external.insert(v); } "--flip" => { flips.insert(v.parse().unwrap()); }
            a => panic!("arg {}", a),
        }
        i += 2;
    }
    let mut repo = load(&repo);
    if template.is_empty() { println!("{}", serde_json::to_string_pretty(&canon::snapshot(&repo.files)).unwrap()); return; }
    let shape: serde_json::Value = std::fs::read_to_string(Path::new(&template).with_file_name("shape.json")).ok().and_then(|s| serde_json::from_str(&s).ok()).unwrap_or_default();
    let renamed = canon::canonicalise(&mut repo.files, &shape);
    // expand includes
    // //@unit FILE: another unit's template with every function trusted (that unit verifies them)
    fn expand(p: &Path, out: &mut Vec<String>, seen: &mut BTreeSet<std::path::PathBuf>, unit: bool) {
        if !seen.insert(p.to_path_buf()) { return; }
        for l in std::fs::read_to_string(p).unwrap_or_else(|e| panic!("{}: {}", p.display(), e)).lines() {
            if let Some(f) = l.trim().strip_prefix("//@include ") { expand(&p.parent().unwrap().join(f.trim()), out, seen, unit); }
            else if let Some(f) = l.trim().strip_prefix("//@unit ") {
                out.push("//@allext 1".into());
                expand(&p.parent().unwrap().join(f.trim()), out, seen, true);
                out.push("//@allext 0".into());
            }
            else if unit && (l.trim() == "} // verus!" || l.trim() == "fn main() {}") { }
            else { out.push(l.to_string()); }
        }
    }
    let params: BTreeMap<String, Vec<String>> = std::fs::read_to_string(Path::new(&template).with_file_name("params.json")).ok().and_then(|s| serde_json::from_str(&s).ok()).unwrap_or_default();
    let mut lines = vec![];
    expand(Path::new(&template), &mut lines, &mut BTreeSet::new(), false);
    // which functions are under contract in this template (so are not inlined)
    let mut contracted: BTreeSet<String> = BTreeSet::new();
    for l in &lines {
        let t = l.trim();
        if let Some(r) = t.strip_prefix("//@contract ") { contracted.insert(r.split("->").next().unwrap().trim().to_string()); }
        if let Some(r) = t.strip_prefix("//@fn ") { contracted.insert(r.split_whitespace().nth(1).unwrap().to_string()); }
        if let Some(r) = t.strip_prefix("//@known ") { for x in r.split_whitespace() { contracted.insert(x.to_string()); } }
    }
    for n in &inline { contracted.remove(n); }
    let helpers = rewrite::collect_helpers(&repo.files, &contracted);
    let mut g = Gen { repo, out: String::new(), recs: vec![], external, canary, flips, site_ctr: 0, helpers, errors: vec![], missing: vec![], used_helpers: BTreeSet::new(), params, inline, steps: BTreeSet::new() };
    let mut i = 0;
    let mut broadcasts: Vec<String> = vec![];
    let mut allext = false;
    while i < lines.len() {
        let l = lines[i].clone();
        let t = l.trim();
        i += 1;
        if t == "} // verus!" {
            g.emit_new_items(&lines);
        }
        if t == "} // verus!" && !broadcasts.is_empty() { g.out.push_str(&format!("broadcast use {{{}}};\n", broadcasts.join(", "))); }
        if !t.starts_with("//@") { g.out.push_str(&l); g.out.push('\n'); continue; }
        let w: Vec<&str> = t.split_whitespace().collect();
        match w[0] {
            "//@struct" | "//@enum" | "//@type" | "//@const" => {
                let kind = &w[0][3..];
                if let Some(mut it) = g.find_item(w[1], kind, w[2]) {
                    let attrs = match &it { Item::Struct(s) => s.attrs.clone(), Item::Enum(s) => s.attrs.clone(), _ => vec![] };
                    let derives: String = attrs.iter().filter(|a| a.path().is_ident("derive")).map(|a| format!(" {} ", a.to_token_stream())).collect();
                    let has = |n: &str| derives.split(|c: char| !c.is_alphanumeric()).any(|x| x == n);
                    if has("Copy") && has("Clone") && w.get(3) != Some(&"noclone") { g.out.push_str("#[derive(Clone, Copy)]\n"); }
                    Strip.visit_item_mut(&mut it);
                    let v: syn::Visibility = syn::parse_quote!(pub);
                    match &mut it {
                        Item::Struct(s) => { s.vis = v; pub_fields(&mut s.fields); }
                        Item::Enum(s) => { s.vis = v; }
                        Item::Type(s) => s.vis = v,
                        Item::Const(s) => s.vis = v,
                        _ => {}
                    }
                    g.emit_tokens(it.to_token_stream(), &[]);
                }
            }
            "//@exconst" => {
                // //@exconst FILE NAME ensures ...
                let ens = t.splitn(4, ' ').nth(3).unwrap_or("").to_string();
                if let Some(Item::Const(c)) = g.find_item(w[1], "const", w[2]) {
                    let label = format!("const {}", w[2]);
                    let (ln, le) = (c.ident.span().start().line, c.span().end().line);
                    let mut c = c.clone();
                    Strip.visit_item_const_mut(&mut c);
                    let (n, ty, ex) = (&c.ident, &c.ty, &c.expr);
                    let ext = g.external.contains(&label);
                    let start = g.line();
                    let txt = format!("{}pub exec const {}: {}\n{}\n{{ {} }}\n", if ext { "#[verifier::external_body]\n" } else { "" }, n, fmt::print(ty.to_token_stream(), &[]), ens, fmt::print(ex.to_token_stream(), &[]));
                    g.out.push_str(&txt);
                    let end = g.line();
                    g.recs.push(FnRec { opaque: vec![], params: vec![], label, file: w[1].into(), line: ln, end_line: le, gen_start: start, gen_end: end, kind: if ext { "degraded".into() } else { "verified".into() }, rewrites: vec![], ambiguous: vec![] });
                }
            }
            "//@cloneof" => {
                // //@cloneof FILE NAME -> r ; contract until //@end. The derive(Clone) of NAME, expanded as the
                // language reference defines it, or the hand-written impl when there is one.
                let mut text = String::new();
                while lines[i].trim() != "//@end" { text.push_str(&lines[i]); text.push('\n'); i += 1; }
                i += 1;
                let sel = format!("Clone for {}", w[2]);
                let item = g.repo.files.get(w[1]).and_then(|v| v.iter().find(|i| item_ident(i).map_or(false, |(k, n)| (k == "struct" || k == "enum") && n == w[2])).cloned());
                let (attrs, generics, variants) = match &item {
                    Some(Item::Struct(s)) => (s.attrs.clone(), s.generics.clone(), vec![(quote!(Self), s.fields.clone())]),
                    Some(Item::Enum(s)) => (s.attrs.clone(), s.generics.clone(), s.variants.iter().map(|v| { let n = &v.ident; (quote!(Self::#n), v.fields.clone()) }).collect()),
                    _ => { g.missing.push(format!("type {}", w[2])); (vec![], syn::Generics::default(), vec![]) }
                };
                let derived = attrs.iter().filter(|a| a.path().is_ident("derive")).any(|a| a.to_token_stream().to_string().split(|c: char| !c.is_alphanumeric()).any(|x| x == "Clone"));
                if derived {
                    let arms: Vec<TokenStream> = variants.iter().map(|(p, f)| match f {
                        syn::Fields::Named(n) => { let ids: Vec<_> = n.named.iter().map(|x| x.ident.clone().unwrap()).collect(); quote!(#p { #(#ids),* } => #p { #(#ids: #ids.clone()),* }) }
                        syn::Fields::Unnamed(n) => { let ids: Vec<_> = (0..n.unnamed.len()).map(|k| quote::format_ident!("f{}", k)).collect(); quote!(#p ( #(#ids),* ) => #p ( #(#ids.clone()),* )) }
                        syn::Fields::Unit => quote!(#p => #p),
                    }).collect();
                    let mut gens = generics.clone();
                    for p in gens.type_params_mut() { p.bounds.push(syn::parse_quote!(Clone)); }
                    let (ig, tg, wh) = gens.split_for_impl();
                    let n = quote::format_ident!("{}", w[2]);
                    let hdr = fmt::print(quote!(impl #ig Clone for #n #tg #wh), &[]);
                    let copy = generics.params.is_empty() && attrs.iter().any(|a| a.path().is_ident("derive") && a.to_token_stream().to_string().split(|c: char| !c.is_alphanumeric()).any(|x| x == "Copy"));
                    let body: syn::Block = if copy { syn::parse_quote!({ *self }) } else { syn::parse_quote!({ match self { #(#arms),* } }) };
                    let sig: syn::Signature = syn::parse_quote!(fn clone(&self) -> Self);
                    g.out.push_str(&hdr); g.out.push_str(" {\n");
                    let mut cfg = ImplCfg::default();
                    cfg.contract.insert("clone".into(), ("r".into(), text));
                    let ln = item.as_ref().map_or((0, 0), |i| (i.span().start().line, i.span().end().line));
                    g.emit_fn(&format!("{}::clone (derived)", sel), w[1], ln, &sig, &body, &cfg, w[2], false);
                    g.out.push_str("}\n");
                } else {
                    let mut cfg = ImplCfg::default();
                    cfg.contract.insert("clone".into(), ("r".into(), text));
                    g.emit_impl(w[1], &sel, &cfg, false);
                }
            }
            "//@cmpof" => {
                // //@cmpof FILE NAME: PartialEq, Eq, PartialOrd and Ord of a struct: the derives, expanded as the
                // language reference defines them, or the hand-written impls where there are any
                let item = g.repo.files.get(w[1]).and_then(|v| v.iter().find(|i| item_ident(i).map_or(false, |(k, n)| k == "struct" && n == w[2])).cloned());
                if let Some(Item::Struct(s)) = item {
                    let derives: Vec<String> = s.attrs.iter().filter(|a| a.path().is_ident("derive")).flat_map(|a| a.to_token_stream().to_string().split(|c: char| !c.is_alphanumeric()).map(|x| x.to_string()).collect::<Vec<_>>()).collect();
                    let fields: Vec<TokenStream> = s.fields.iter().enumerate().map(|(k, f)| match &f.ident { Some(i) => quote!(#i), None => { let k = syn::Index::from(k); quote!(#k) } }).collect();
                    let (ig, tg, wh) = s.generics.split_for_impl();
                    let n = &s.ident;
                    let ln = (s.span().start().line, s.span().end().line);
                    let eqs = fields.iter().fold(quote!(true), |a, f| if a.to_string() == "true" { quote!(self.#f == other.#f) } else { quote!(#a && self.#f == other.#f) });
                    let mut pc = quote!(Some(Ordering::Equal)); let mut cm = quote!(Ordering::Equal);
                    for f in fields.iter().rev() {
                        let last = cm.to_string().replace(' ', "") == "Ordering::Equal";
                        pc = if last { quote!(self.#f.partial_cmp(&other.#f)) } else { quote!(match self.#f.partial_cmp(&other.#f) { Some(Ordering::Equal) => #pc, c => c }) };
                        cm = if last { quote!(self.#f.cmp(&other.#f)) } else { quote!(match self.#f.cmp(&other.#f) { Ordering::Equal => #cm, c => c }) };
                    }
                    let todo: Vec<(&str, &str, syn::Signature, TokenStream)> = vec![
                        ("PartialEq", "eq", syn::parse_quote!(fn eq(&self, other: &Self) -> bool), eqs),
                        ("PartialOrd", "partial_cmp", syn::parse_quote!(fn partial_cmp(&self, other: &Self) -> Option<Ordering>), pc),
                        ("Ord", "cmp", syn::parse_quote!(fn cmp(&self, other: &Self) -> Ordering), cm),
                    ];
                    g.emit_tokens(quote!(impl #ig Eq for #n #tg #wh {}), &[]);
                    for (tr, m, sig, body) in todo {
                        let sel = format!("{} for {}", tr, w[2]);
                        if derives.iter().any(|d| d == tr) {
                            let t = quote::format_ident!("{}", tr);
                            let hdr = fmt::print(quote!(impl #ig #t for #n #tg #wh), &[]);
                            g.out.push_str(&hdr); g.out.push_str(" {\n");
                            let body: syn::Block = syn::parse_quote!({ #body });
                            g.emit_fn(&format!("{}::{} (derived)", sel, m), w[1], ln, &sig, &body, &ImplCfg::default(), w[2], false);
                            g.out.push_str("}\n");
                        } else { g.emit_impl(w[1], &sel, &ImplCfg::default(), false); }
                    }
                } else { g.missing.push(format!("struct {}", w[2])); }
            }
            "//@known" => {}
            "//@steps" => { for x in &w[1..] { g.steps.insert(x.to_string()); } }
            "//@allext" => allext = w[1] == "1",
            "//@broadcast" => broadcasts.extend(w[1..].iter().map(|x| x.to_string())),
            "//@fn" => {
                // //@fn FILE NAME -> ret ; contract until //@end
                let ret = t.split("->").nth(1).map(|s| s.trim().to_string()).unwrap_or("r".into());
                let mut text = String::new();
                while lines[i].trim() != "//@end" { text.push_str(&lines[i]); text.push('\n'); i += 1; }
                i += 1;
                let mut cfg = ImplCfg::default();
                if allext { cfg.external.insert("*".into()); }
                let mut ctext = String::new();
                for l in text.lines() {
                    if let Some(p) = l.trim().strip_prefix("//@prologue ") { cfg.prologue.push((w[2].to_string(), p.to_string())); } else { ctext.push_str(l); ctext.push('\n'); }
                }
                cfg.contract.insert(w[2].to_string(), (ret, ctext));
                if let Some(Item::Fn(f)) = g.find_item(w[1], "fn", w[2]) {
                    let ln = (f.sig.span().start().line, f.block.span().end().line);
                    g.emit_fn(w[2], w[1], ln, &f.sig, &f.block, &cfg, "", true);
                }
            }
            "//@body" => {
                // //@body FILE TRAIT METHOD : the default body, with prologue lines until //@end
                let mut pro = String::new();
                while lines[i].trim() != "//@end" { pro.push_str(&lines[i]); pro.push('\n'); i += 1; }
                i += 1;
                if let Some(Item::Trait(tr)) = g.find_item(w[1], "trait", w[2]) {
                    let mut ok = false;
                    for ti in &tr.items { if let TraitItem::Fn(f) = ti { if f.sig.ident == w[3] { if let Some(b) = &f.default {
                        ok = true;
                        let mut sig = f.sig.clone(); let mut body = b.clone();
                        let label = format!("trait {}::{}", w[2], w[3]);
                        let mut rw = Rw::new(&g.helpers, g.flips.clone(), g.site_ctr, &sig, w[2]);
                        let res = rw.run(&mut sig, &mut body);
                        Strip.visit_block_mut(&mut body);
                        let raw = rw.raw.clone();
                        let start = g.line();
                        g.out.push_str("{\n"); g.out.push_str(&pro);
                        let mut kind = "verified".to_string();
                        if res.is_err() || g.external.contains(&label) { kind = "degraded".into(); g.out.push_str("proof { assume(false); } unimplemented!()\n"); }
                        else { let stmts = &body.stmts; let s = fmt::print(quote!(#(#stmts)*), &raw); g.out.push_str(&s); }
                        g.out.push_str("\n}\n");
                        let end = g.line();
                        g.recs.push(FnRec { opaque: vec![], params: vec![], label, file: w[1].into(), line: f.sig.span().start().line, end_line: b.span().end().line, gen_start: start, gen_end: end, kind, rewrites: vec![], ambiguous: vec![] });
                    } } } }
                    if !ok { g.missing.push(format!("default body {}::{}", w[2], w[3])); g.out.push_str(";\n"); }
                }
            }
            "//@impl" | "//@inherent" => {
                let file = w[1].to_string();
                let sel = t.splitn(3, ' ').nth(2).unwrap().trim().to_string();
                let mut cfg = ImplCfg::default();
                if allext { cfg.external.insert("*".into()); }
                loop {
                    let l = lines[i].clone(); let t = l.trim().to_string(); i += 1;
                    if t == "//@endimpl" { break; }
                    if !t.starts_with("//@") { cfg.spec.push_str(&l); cfg.spec.push('\n'); continue; }
                    let w: Vec<&str> = t.split_whitespace().collect();
                    match w[0] {
                        "//@prologue" => { let p = w[1].to_string(); let txt = t.splitn(3, ' ').nth(2).unwrap_or("").to_string(); cfg.prologue.push((p, txt)); }
                        "//@const" => { // NAME ensures .. | proof ..
                            let r = t.splitn(3, ' ').nth(2).unwrap_or("").to_string(); let mut x = r.splitn(2, " | ");
                            cfg.consts.insert(w[1].to_string(), (x.next().unwrap().to_string(), x.next().unwrap_or("").to_string())); }
                        "//@skip" => for x in &w[1..] { cfg.skip.insert(x.to_string()); },
                        "//@skiptype" => for x in &w[1..] { cfg.skip.insert(format!("type {}", x)); },
                        "//@skipconst" => for x in &w[1..] { cfg.skip.insert(format!("const {}", x)); },
                        "//@only" => { cfg.only = Some(w[1..].iter().map(|s| s.to_string()).collect()); }
                        "//@partial" => cfg.partial = true,
                        "//@external" => for x in &w[1..] { cfg.external.insert(x.to_string()); },
                        "//@subst" => { let r = t.splitn(3, ' ').nth(2).unwrap(); let mut x = r.splitn(2, " => "); cfg.subst.push((w[1].to_string(), x.next().unwrap().to_string(), x.next().unwrap().to_string())); }
                        "//@default" => for x in &w[3..] { cfg.defaults.push((w[1].into(), w[2].into(), x.to_string())); },
                        "//@header" => cfg.header = Some(t["//@header".len()..].trim().to_string()),
                        "//@sig" => { cfg.sigs.insert(w[1].to_string(), t.splitn(3, ' ').nth(2).unwrap().to_string()); }
                        // "//@optcontract": of a provided method of a std trait, which the impl need not override
                        "//@contract" | "//@optcontract" => {
                            let iw0 = w[0];
                            let r = t[iw0.len()..].to_string();
                            let mut sp = r.split("->");
                            let n = sp.next().unwrap().trim().to_string(); let b = sp.next().map(|s| s.trim().to_string()).unwrap_or("r".into());
                            let mut text = String::new();
                            while lines[i].trim() != "//@end" { text.push_str(&lines[i]); text.push('\n'); i += 1; }
                            i += 1;
                            if iw0 == "//@optcontract" { cfg.opt.insert(n.clone()); }
                            cfg.contract.insert(n, (b, text));
                        }
                        x => panic!("directive {}", x),
                    }
                }
                let _ = (&cfg.epilogue, &cfg.optional, &cfg.rest);
                g.emit_impl(&file, &sel, &cfg, w[0] == "//@inherent");
            }
            x => panic!("directive {}", x),
        }
    }
    std::fs::write(&outp, &g.out).unwrap();
    let fns: Vec<_> = g.recs.iter().map(|r| serde_json::json!({"label": r.label, "file": r.file, "line": r.line, "end_line": r.end_line, "gen_start": r.gen_start, "gen_end": r.gen_end, "kind": r.kind, "rewrites": r.rewrites, "ambiguous": r.ambiguous, "params": r.params, "opaque": r.opaque})).collect();
    let m = serde_json::json!({"functions": fns, "errors": g.errors, "missing": g.missing, "renamed": renamed, "inlined_helpers": g.used_helpers});
    std::fs::write(&mapp, serde_json::to_string_pretty(&m).unwrap()).unwrap();
}
