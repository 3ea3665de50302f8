//! The rewrites applied to every extracted body (documented in DESIGN.md as E1..E21).
use proc_macro2::{Span, TokenStream, TokenTree};
use quote::ToTokens;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::{Block, Expr, Ident, Item, Pat, Signature, Stmt};

#[derive(Clone)]
pub struct Helper {
    pub name: String,
    pub owner: Option<String>,
    pub of_trait: bool,
    pub sig: Signature,
    pub block: Block,
}

const KNOWN_TRAITS: &[&str] = &[
    "CloneVebKeyRef", "VebTree", "TreeCollection", "VebKey", "VebKeyRef", "SizedVebKey", "List", "TreeList", "OptionArray", "From", "Deref",
    "Borrow", "Clone", "PartialEq", "Iterator", "DoubleEndedIterator", "BitAndAssign", "BitOr", "Shl", "Shr", "Default", "Ord", "PartialOrd",
    "FusedIterator", "ExactSizeIterator",
];
/// the crate's own traits and the methods which have contracts; other methods of theirs are helpers
pub const CRATE_TRAITS: &[(&str, &[&str])] = &[
    ("VebTree", &["from_monad", "is_monad", "len_hint", "into_monad", "min_val", "min_val_mut", "max_val", "max_val_mut", "find", "find_mut", "predecessor", "predecessor_mut", "successor", "successor_mut", "insert", "remove", "remove_min", "remove_max"]),
    ("TreeCollection", &["create", "get", "get_mut", "insert_key", "remove_key", "maybe_remove_key"]),
    ("TreeList", &["from_monad", "len", "get", "get_mut", "insert_tree", "remove_key", "maybe_remove_key"]),
    ("List", &["from_monad", "len", "is_empty", "get", "get_mut", "insert_value", "remove_value"]),
    ("OptionArray", &["create", "get", "get_mut"]),
    ("VebKey", &["split_val", "join"]),
    ("VebKeyRef", &["split_ref"]),
    ("SizedVebKey", &["index"]),
    ("CloneVebKeyRef", &[]),
];
/// methods of std traits which have contracts
pub const STD_METHODS: &[&str] = &["from", "deref", "borrow", "clone", "eq", "partial_cmp", "cmp", "next", "next_back", "size_hint", "bitand_assign", "bitor", "shl", "shr", "default"];
pub fn crate_trait(t: &str) -> Option<&'static [&'static str]> { CRATE_TRAITS.iter().find(|x| x.0 == t).map(|x| x.1) }
/// method names that std types also have: never inlined on a receiver other than `self`
const STD_NAMES: &[&str] = &[
    "len", "get", "get_mut", "new", "borrow", "from", "into", "insert", "remove", "take", "next", "next_back", "clone", "cmp", "eq", "iter", "is_empty",
    "map", "and_then", "unwrap", "expect", "as_ref", "as_mut", "ok", "err", "index", "deref", "find", "min", "max",
];

pub fn collect_helpers(files: &BTreeMap<String, Vec<Item>>, contracted: &BTreeSet<String>) -> HashMap<String, Vec<Helper>> {
    let mut h: HashMap<String, Vec<Helper>> = HashMap::new();
    let mut add = |name: String, owner: Option<String>, of_trait: bool, sig: &Signature, block: &Block| {
        if contracted.contains(&name) { return; }
        h.entry(name.clone()).or_default().push(Helper { name, owner, of_trait, sig: sig.clone(), block: block.clone() });
    };
    for items in files.values() {
        for it in items {
            match it {
                Item::Fn(f) => add(f.sig.ident.to_string(), None, false, &f.sig, &f.block),
                Item::Impl(im) => {
                    let owner = match &*im.self_ty { syn::Type::Path(p) => Some(p.path.segments.last().unwrap().ident.to_string()), _ => Some(im.self_ty.to_token_stream().to_string()) };
                    if let Some((_, p, _)) = &im.trait_ {
                        let t = p.segments.last().unwrap().ident.to_string();
                        if let Some(ms) = crate_trait(&t) {
                            for i in &im.items { if let syn::ImplItem::Fn(f) = i { if !ms.contains(&f.sig.ident.to_string().as_str()) { add(f.sig.ident.to_string(), owner.clone(), false, &f.sig, &f.block); } } }
                            continue;
                        }
                        if KNOWN_TRAITS.contains(&t.as_str()) { continue; }
                    }
                    for i in &im.items { if let syn::ImplItem::Fn(f) = i { add(f.sig.ident.to_string(), owner.clone(), false, &f.sig, &f.block); } }
                }
                Item::Trait(t) => {
                    let ms: &[&str] = match crate_trait(&t.ident.to_string()) { Some(ms) => ms, None => if KNOWN_TRAITS.contains(&t.ident.to_string().as_str()) { continue } else { &[] } };
                    for i in t.items.iter().filter(|i| !matches!(i, syn::TraitItem::Fn(f) if ms.contains(&f.sig.ident.to_string().as_str()))) { if let syn::TraitItem::Fn(f) = i { if let Some(b) = &f.default { add(f.sig.ident.to_string(), Some(t.ident.to_string()), true, &f.sig, b); } } }
                }
                _ => {}
            }
        }
    }
    h
}

pub struct Rw<'h> {
    helpers: &'h HashMap<String, Vec<Helper>>,
    local: HashMap<String, Helper>,
    pub flips: BTreeSet<usize>,
    pub site_ctr: usize,
    pub ambiguous: Vec<usize>,
    pub raw: Vec<String>,
    pub log: BTreeSet<String>,
    pub used: BTreeSet<String>,
    pub pre: Vec<String>,
    pub opaque: BTreeSet<String>,
    closures: HashMap<String, syn::ExprClosure>,
    errs: Vec<String>,
    tail: bool,
    in_closure: bool,
    in_index: bool,
    depth: usize,
    fresh: usize,
    ret_is_result: bool,
    fn_name: String,
    self_name: String,
    pub steps: BTreeSet<String>,
    /// E23: checks which only debug builds make are left out
    pub partial: bool,
}

fn ident(s: &str) -> Ident { Ident::new(s, Span::call_site()) }

struct HasRet(bool);
impl<'a> Visit<'a> for HasRet {
    fn visit_expr_return(&mut self, _: &'a syn::ExprReturn) { self.0 = true; }
    fn visit_expr_try(&mut self, _: &'a syn::ExprTry) { self.0 = true; }
    fn visit_expr_closure(&mut self, _: &'a syn::ExprClosure) {}
    fn visit_item(&mut self, _: &'a Item) {}
}
fn has_ret_e(e: &Expr) -> bool { let mut v = HasRet(false); v.visit_expr(e); v.0 }
fn has_ret_b(b: &Block) -> bool { let mut v = HasRet(false); v.visit_block(b); v.0 }
fn has_ret_s(b: &Stmt) -> bool { let mut v = HasRet(false); v.visit_stmt(b); v.0 }

/// E21: `match place { Some(ref x) => .. }` whose patterns bind only by `ref` (or only by `ref mut`)
/// is the same match on `&place` (`&mut place`) with plain bindings
struct UnRef;
struct Binds { shared: usize, mutable: usize, moved: usize, deref: bool }
impl<'a> Visit<'a> for Binds {
    fn visit_pat_ident(&mut self, p: &'a syn::PatIdent) {
        if p.by_ref.is_some() { if p.mutability.is_some() { self.mutable += 1 } else { self.shared += 1 } }
        else if p.ident.to_string().starts_with(|c: char| c.is_lowercase() || c == '_') { self.moved += 1 }
        syn::visit::visit_pat_ident(self, p);
    }
    fn visit_pat_reference(&mut self, _: &'a syn::PatReference) { self.deref = true; }
}
struct DropRef;
impl VisitMut for DropRef { fn visit_pat_ident_mut(&mut self, p: &mut syn::PatIdent) { p.by_ref = None; p.mutability = None; visit_mut::visit_pat_ident_mut(self, p); } }
fn place(e: &Expr) -> bool { match e { Expr::Path(_) => true, Expr::Field(f) => place(&f.base), Expr::Paren(p) => place(&p.expr), Expr::Unary(u) => matches!(u.op, syn::UnOp::Deref(_)) && place(&u.expr), _ => false } }
fn unref(scrut: &mut Expr, pats: &mut [&mut Pat]) {
    if !place(scrut) { return; }
    let mut b = Binds { shared: 0, mutable: 0, moved: 0, deref: false };
    for p in pats.iter() { b.visit_pat(p); }
    if b.moved > 0 || b.deref || b.shared + b.mutable == 0 || (b.shared > 0 && b.mutable > 0) { return; }
    for p in pats.iter_mut() { DropRef.visit_pat_mut(p); }
    let s = scrut.clone();
    *scrut = if b.mutable > 0 { syn::parse_quote!(&mut #s) } else { syn::parse_quote!(&#s) };
}
impl VisitMut for UnRef {
    fn visit_expr_match_mut(&mut self, m: &mut syn::ExprMatch) {
        visit_mut::visit_expr_match_mut(self, m);
        // E14 for a match: `match arr { [0, hi] => .., [lo, _] => .. }` on the tuple of the elements
        let len = m.arms.iter().find_map(|a| if let Pat::Slice(s) = &a.pat { Some(s.elems.len()) } else { None });
        if let Some(n) = len {
            let fixed = m.arms.iter().all(|a| match &a.pat { Pat::Slice(s) => s.elems.len() == n && !s.elems.iter().any(|e| matches!(e, Pat::Rest(_)) || matches!(e, Pat::Ident(i) if i.subpat.is_some())), Pat::Wild(_) => true, _ => false });
            if fixed && place(&m.expr) {
                let s = &m.expr;
                let el: Vec<Expr> = (0..n).map(|i| { let i = proc_macro2::Literal::usize_unsuffixed(i); syn::parse_quote!(#s[#i]) }).collect();
                *m.expr = syn::parse_quote!((#(#el,)*));
                for a in m.arms.iter_mut() { if let Pat::Slice(s) = &a.pat { let e: Vec<Pat> = s.elems.iter().cloned().collect(); a.pat = syn::parse_quote!((#(#e,)*)); } }
            }
        }
        let mut ps: Vec<&mut Pat> = m.arms.iter_mut().map(|a| &mut a.pat).collect();
        unref(&mut m.expr, &mut ps);
    }
    fn visit_expr_let_mut(&mut self, m: &mut syn::ExprLet) { visit_mut::visit_expr_let_mut(self, m); unref(&mut m.expr, &mut [&mut *m.pat]); }
    fn visit_local_mut(&mut self, m: &mut syn::Local) {
        visit_mut::visit_local_mut(self, m);
        if let Some(i) = &mut m.init {
            // `let ref x = e;` itself is left alone
            if !matches!(m.pat, Pat::Ident(_)) { unref(&mut i.expr, &mut [&mut m.pat]); }
        }
    }
}

struct SelfRename(Expr);
impl VisitMut for SelfRename {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Path(p) = e { if p.path.is_ident("self") { *e = self.0.clone(); return; } }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_macro_mut(&mut self, m: &mut syn::Macro) {
        let r = self.0.to_token_stream();
        fn go(ts: TokenStream, r: &TokenStream) -> TokenStream {
            ts.into_iter().flat_map(|t| match t {
                TokenTree::Ident(i) if i == "self" => r.clone().into_iter().collect::<Vec<_>>(),
                TokenTree::Group(g) => vec![TokenTree::Group(proc_macro2::Group::new(g.delimiter(), go(g.stream(), r)))],
                t => vec![t],
            }).collect()
        }
        m.tokens = go(m.tokens.clone(), &r);
    }
}
struct IdentRename(String, Expr);
impl VisitMut for IdentRename {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Path(p) = e { if p.path.is_ident(&self.0) { *e = self.1.clone(); return; } }
        visit_mut::visit_expr_mut(self, e);
    }
}

/// `Self` of an inlined helper: the type whose impl the helper is in
struct SelfTy(Option<Ident>);
impl VisitMut for SelfTy {
    fn visit_type_mut(&mut self, t: &mut syn::Type) {
        if let syn::Type::Path(p) = t { if p.qself.is_none() && p.path.is_ident("Self") { *t = syn::parse_quote!(_); return; } }
        visit_mut::visit_type_mut(self, t);
    }
    fn visit_path_mut(&mut self, p: &mut syn::Path) {
        if let (Some(o), Some(s)) = (&self.0, p.segments.first_mut()) { if s.ident == "Self" { s.ident = o.clone(); } }
        visit_mut::visit_path_mut(self, p);
    }
    fn visit_item_mut(&mut self, _: &mut Item) {}
}
fn ident_or(s: &str) -> Option<Ident> { syn::parse_str::<Ident>(s).ok() }

struct Lifetimes;
impl VisitMut for Lifetimes {
    fn visit_lifetime_mut(&mut self, l: &mut syn::Lifetime) { if l.ident != "static" { l.ident = ident("_"); } }
}

fn strip_parens(e: &Expr) -> &Expr { match e { Expr::Paren(p) => strip_parens(&p.expr), Expr::Group(p) => strip_parens(&p.expr), e => e } }

fn pure(e: &Expr) -> bool {
    match e {
        Expr::Path(_) | Expr::Lit(_) => true,
        Expr::Field(f) => pure(&f.base),
        Expr::Reference(r) => pure(&r.expr),
        Expr::Tuple(t) => t.elems.iter().all(pure),
        Expr::Paren(p) => pure(&p.expr),
        Expr::Unary(u) => matches!(u.op, syn::UnOp::Deref(_)) && pure(&u.expr),
        _ => false,
    }
}

fn closure_pat(p: &Pat) -> Pat { match p { Pat::Type(t) => (*t.pat).clone(), p => p.clone() } }

impl<'h> Rw<'h> {
    pub fn new(helpers: &'h HashMap<String, Vec<Helper>>, flips: BTreeSet<usize>, site_ctr: usize, sig: &Signature, self_name: &str) -> Self {
        let rt = sig.output.to_token_stream().to_string();
        let rr = rt.starts_with("-> Result") || rt.contains("MaybeRemoveResult") || rt.contains("TreeInsertResult");
        Rw { helpers, local: HashMap::new(), flips, site_ctr, ambiguous: vec![], raw: vec![], log: BTreeSet::new(), used: BTreeSet::new(), pre: vec![], opaque: BTreeSet::new(), closures: HashMap::new(), errs: vec![], tail: true, in_closure: false, in_index: false, depth: 0, fresh: 0, ret_is_result: rr, fn_name: sig.ident.to_string(), self_name: self_name.to_string(), steps: BTreeSet::new(), partial: false }
    }
    fn fresh(&mut self, p: &str) -> Ident { self.fresh += 1; ident(&format!("{}_{}_", p, self.fresh)) }
    fn site(&mut self) -> (usize, bool) { let s = self.site_ctr; self.site_ctr += 1; self.ambiguous.push(s); (s, self.flips.contains(&s)) }

    pub fn run(&mut self, sig: &mut Signature, body: &mut Block) -> Result<(), String> {
        // parameters: `mut self`, `mut x`, patterns
        let mut pre: Vec<Stmt> = vec![];
        let mut n = 0;
        for a in sig.inputs.iter_mut() {
            match a {
                syn::FnArg::Receiver(r) => {
                    if r.reference.is_none() && r.mutability.is_some() {
                        r.mutability = None;
                        SelfRename(syn::parse_quote!(self_)).visit_block_mut(body);
                        pre.push(syn::parse_quote!(let mut self_ = self;));
                        self.log.insert("E7 mut-self".into());
                    }
                }
                syn::FnArg::Typed(t) => match &mut *t.pat {
                    Pat::Ident(p) if p.by_ref.is_none() && p.subpat.is_none() => {
                        if p.mutability.is_some() { p.mutability = None; let i = &p.ident; pre.push(syn::parse_quote!(let mut #i = #i;)); }
                    }
                    Pat::Wild(_) => { n += 1; let i = ident(&format!("arg_{}_", n)); t.pat = Box::new(syn::parse_quote!(#i)); }
                    p => { n += 1; let i = ident(&format!("arg_{}_", n)); let pp = p.clone(); *t.pat = syn::parse_quote!(#i); pre.push(syn::parse_quote!(let #pp = #i;)); self.log.insert("E7 param-pattern".into()); }
                },
            }
        }
        self.tail = true;
        UnRef.visit_block_mut(body);
        self.visit_block_mut(body);
        let mut st = pre; st.extend(body.stmts.drain(..));
        body.stmts = st;
        if self.errs.is_empty() { Ok(()) } else { Err(self.errs.join("; ")) }
    }

    fn find_helper(&self, name: &str, owner: Option<&str>) -> Option<Helper> {
        if let Some(h) = self.local.get(name) { return Some(h.clone()); }
        let v = self.helpers.get(name)?;
        match owner {
            Some(o) => v.iter().find(|h| h.owner.as_deref() == Some(o)).or_else(|| if v.len() == 1 && v[0].owner.is_some() { v.first() } else { None }).cloned(),
            None => v.iter().find(|h| h.owner.is_none()).cloned(),
        }
    }

    /// inline helper with receiver/args; returns replacement
    fn inline(&mut self, h: &Helper, recv: Option<Expr>, args: Vec<Expr>) -> Result<Expr, String> {
        if self.depth > 8 || h.name == self.fn_name { return Err(format!("recursive helper {}", h.name)); }
        let mut body = h.block.clone();
        UnRef.visit_block_mut(&mut body);
        if let Some(o) = &h.owner { if !h.of_trait && *o != self.self_name { SelfTy(ident_or(o)).visit_block_mut(&mut body); } }
        let mut lets: Vec<Stmt> = vec![];
        let mut second: Vec<Stmt> = vec![];
        let mut it = args.into_iter();
        let gens: BTreeSet<String> = h.sig.generics.type_params().map(|t| t.ident.to_string()).collect();
        let caller_gen = |_: &str| false;
        for p in &h.sig.inputs {
            match p {
                syn::FnArg::Receiver(r) => {
                    let rv = match &recv { Some(r) => r.clone(), None => it.next().ok_or("missing receiver")? };
                    let rv = strip_parens(&rv).clone();
                    let rv = match &rv { Expr::Reference(x) => (*x.expr).clone(), _ => rv };
                    if let Expr::Path(p) = &rv {
                        if p.path.is_ident("self") && !(r.reference.is_none() && r.mutability.is_some()) { continue; }
                        if p.path.get_ident().is_some() && !(r.reference.is_none() && r.mutability.is_some()) { SelfRename(rv.clone()).visit_block_mut(&mut body); continue; }
                    }
                    if r.reference.is_some() && matches!(&rv, Expr::Field(_)) && pure(&rv) { SelfRename(rv.clone()).visit_block_mut(&mut body); continue; }
                    let s = self.fresh("inl_self");
                    if r.reference.is_some() {
                        let m = &r.mutability;
                        lets.push(syn::parse_quote!(let #s = & #m #rv;));
                    } else { lets.push(syn::parse_quote!(let mut #s = #rv;)); }
                    SelfRename(syn::parse_quote!(#s)).visit_block_mut(&mut body);
                }
                syn::FnArg::Typed(t) => {
                    let a = it.next().ok_or("too few args")?;
                    if let (Pat::Ident(pi), Expr::Path(ap)) = (&*t.pat, strip_parens(&a)) {
                        if pi.mutability.is_none() && ap.path.is_ident(&pi.ident) { continue; }
                    }
                    let mut ty = (*t.ty).clone();
                    Lifetimes.visit_type_mut(&mut ty);
                    let tys = ty.to_token_stream();
                    let mentions = tys.clone().into_iter().any(|t| contains_ident(&t, &gens)) || tys.to_string().contains("impl ");
                    let a1 = self.fresh("inl_arg");
                    if mentions && !caller_gen("") {
                        lets.push(syn::parse_quote!(let #a1 = #a;));
                    } else { lets.push(syn::parse_quote!(let #a1: #ty = #a;)); }
                    let p = &t.pat;
                    second.push(syn::parse_quote!(let #p = #a1;));
                }
            }
        }
        self.used.insert(h.name.clone());
        self.log.insert("E5 inline".into());
        // generics of helper by name substitution are not needed: types are inferred
        if has_ret_b(&body) && !(self.tail && !self.in_closure) {
            let rt = h.sig.output.to_token_stream().to_string();
            let is_res = rt.starts_with("-> Result") || rt.contains("RemoveResult") && rt.contains("Maybe") || rt.contains("TreeInsertResult");
            body = self.elim(body.stmts, is_res).map_err(|e| format!("inline {}: {}", h.name, e))?;
        }
        let mut stmts = lets; stmts.extend(second); stmts.extend(body.stmts);
        let mut e: Expr = syn::parse_quote!({ #(#stmts)* });
        self.depth += 1;
        self.visit_expr_mut(&mut e);
        self.depth -= 1;
        Ok(e)
    }

    /// structured elimination of `return` / `?` from a statement list whose value is the list's result
    fn elim(&mut self, stmts: Vec<Stmt>, is_res: bool) -> Result<Block, String> {
        self.fresh += 1;
        if self.fresh > 400 { return Err("return elimination too large".into()); }
        let mut out: Vec<Stmt> = vec![];
        let mut i = 0;
        while i < stmts.len() {
            let s = stmts[i].clone();
            if !has_ret_s(&s) { out.push(s); i += 1; continue; }
            let rest: Vec<Stmt> = stmts[i + 1..].to_vec();
            match s {
                Stmt::Expr(Expr::Return(r), _) => {
                    let e = r.expr.map(|e| *e).unwrap_or(syn::parse_quote!(()));
                    let b = self.elim(vec![Stmt::Expr(e, None)], is_res)?;
                    out.extend(b.stmts);
                    return Ok(syn::parse_quote!({ #(#out)* }));
                }
                Stmt::Expr(Expr::If(mut x), semi) => {
                    if has_ret_e(&x.cond) { 
                        let (e0, cond) = self.hoist(*x.cond.clone())?;
                        x.cond = Box::new(cond);
                        return self.wrap(out, e0, Stmt::Expr(Expr::If(x), semi), rest, is_res);
                    }
                    let mut th = x.then_branch.stmts.clone();
                    let cont = semi.is_some() || !rest.is_empty();
                    let conv = |mut v: Vec<Stmt>| -> Vec<Stmt> { if cont { if let Some(Stmt::Expr(_, s @ None)) = v.last_mut() { *s = Some(Default::default()); } v.extend(rest.clone()); } v };
                    th = conv(th);
                    let tb = self.elim(th, is_res)?;
                    let eb = match x.else_branch.take() {
                        None => self.elim(rest.clone(), is_res)?,
                        Some((_, e)) => match *e { Expr::Block(b) => { let v = conv(b.block.stmts); self.elim(v, is_res)? } e => { let v = conv(vec![Stmt::Expr(e, None)]); self.elim(v, is_res)? } },
                    };
                    let c = &x.cond;
                    out.push(Stmt::Expr(syn::parse_quote!(if #c #tb else #eb), None));
                    return Ok(syn::parse_quote!({ #(#out)* }));
                }
                Stmt::Expr(Expr::Match(mut x), semi) => {
                    if has_ret_e(&x.expr) {
                        let (e0, c) = self.hoist(*x.expr.clone())?;
                        x.expr = Box::new(c);
                        return self.wrap(out, e0, Stmt::Expr(Expr::Match(x), semi), rest, is_res);
                    }
                    let cont = semi.is_some() || !rest.is_empty();
                    for a in x.arms.iter_mut() {
                        let mut v = match &*a.body { Expr::Block(b) if b.label.is_none() => b.block.stmts.clone(), e => vec![Stmt::Expr(e.clone(), None)] };
                        if cont { if let Some(Stmt::Expr(_, s @ None)) = v.last_mut() { *s = Some(Default::default()); } v.extend(rest.clone()); }
                        let b = self.elim(v, is_res)?;
                        a.body = Box::new(syn::parse_quote!(#b));
                    }
                    out.push(Stmt::Expr(Expr::Match(x), None));
                    return Ok(syn::parse_quote!({ #(#out)* }));
                }
                Stmt::Expr(Expr::Block(b), _) if rest.is_empty() => {
                    let b = self.elim(b.block.stmts, is_res)?;
                    out.extend(b.stmts);
                    return Ok(syn::parse_quote!({ #(#out)* }));
                }
                Stmt::Local(mut l) => {
                    let init = l.init.as_mut().ok_or("let without init")?;
                    if let Some((_, d)) = &init.diverge {
                        // let P = e else { return X };
                        let (p, e) = (l.pat.clone(), init.expr.clone());
                        let db = self.elim(vec![Stmt::Expr((**d).clone(), None)], is_res)?;
                        let rb = self.elim(rest, is_res)?;
                        out.push(Stmt::Expr(syn::parse_quote!(if let #p = #e #rb else #db), None));
                        return Ok(syn::parse_quote!({ #(#out)* }));
                    }
                    match (*init.expr).clone() {
                        Expr::Match(mut x) if !has_ret_e(&x.expr) => {
                            for a in x.arms.iter_mut() {
                                let v = match &*a.body { Expr::Block(b) if b.label.is_none() => b.block.stmts.clone(), e => vec![Stmt::Expr(e.clone(), None)] };
                                let mut v = v;
                                match v.pop() {
                                    Some(Stmt::Expr(e, None)) => {
                                        if let Expr::Return(_) = &e { v.push(Stmt::Expr(e, None)); }
                                        else { let mut l2 = l.clone(); l2.init.as_mut().unwrap().expr = Box::new(e); v.push(Stmt::Local(l2)); v.extend(rest.clone()); }
                                    }
                                    Some(s @ Stmt::Expr(Expr::Return(_), Some(_))) => v.push(s),
                                    _ => return Err("arm without value".into()),
                                }
                                let b = self.elim(v, is_res)?;
                                a.body = Box::new(syn::parse_quote!(#b));
                            }
                            out.push(Stmt::Expr(Expr::Match(x), None));
                            return Ok(syn::parse_quote!({ #(#out)* }));
                        }
                        e => {
                            let (e0, c) = self.hoist(e)?;
                            init.expr = Box::new(c);
                            return self.wrap(out, e0, Stmt::Local(l), rest, is_res);
                        }
                    }
                }
                Stmt::Expr(e, semi) => {
                    let (e0, c) = self.hoist(e)?;
                    return self.wrap(out, e0, Stmt::Expr(c, semi), rest, is_res);
                }
                _ => return Err("statement form".into()),
            }
        }
        Ok(syn::parse_quote!({ #(#out)* }))
    }
    fn wrap(&mut self, mut out: Vec<Stmt>, e0: (Expr, Ident), s: Stmt, rest: Vec<Stmt>, is_res: bool) -> Result<Block, String> {
        let mut v = vec![s]; v.extend(rest);
        let b = self.elim(v, is_res)?;
        let (e, q) = e0;
        let m: Expr = if is_res { syn::parse_quote!(match #e { Ok(#q) => #b, Err(e_) => Err(e_) }) } else { syn::parse_quote!(match #e { Some(#q) => #b, None => None }) };
        out.push(Stmt::Expr(m, None));
        Ok(syn::parse_quote!({ #(#out)* }))
    }
    /// find the first evaluated `E?` along the receiver/first-argument chain
    fn hoist(&mut self, e: Expr) -> Result<((Expr, Ident), Expr), String> {
        let q = self.fresh("q");
        fn go(e: &mut Expr, q: &Ident) -> Option<Expr> {
            match e {
                Expr::Try(t) => {
                    if has_ret_e(&t.expr) { return go(&mut t.expr, q); }
                    let inner = (*t.expr).clone();
                    *e = syn::parse_quote!(#q);
                    Some(inner)
                }
                Expr::MethodCall(m) => { if has_ret_e(&m.receiver) { return go(&mut m.receiver, q); } for a in m.args.iter_mut() { if has_ret_e(a) { return go(a, q); } if !pure(a) { return None; } } None }
                Expr::Call(m) => { for a in m.args.iter_mut() { if has_ret_e(a) { return go(a, q); } if !pure(a) { return None; } } None }
                Expr::Tuple(m) => { for a in m.elems.iter_mut() { if has_ret_e(a) { return go(a, q); } if !pure(a) { return None; } } None }
                Expr::Field(f) => go(&mut f.base, q),
                Expr::Unary(f) => go(&mut f.expr, q),
                Expr::Reference(f) => go(&mut f.expr, q),
                Expr::Paren(f) => go(&mut f.expr, q),
                Expr::Let(f) => go(&mut f.expr, q),
                Expr::Match(f) => go(&mut f.expr, q),
                _ => None,
            }
        }
        let mut e2 = e;
        match go(&mut e2, &q) { Some(i) => Ok(((i, q), e2)), None => Err("`?`/return in an unsupported position".into()) }
    }

    fn callee_is_result(&mut self, recv: &Expr) -> bool {
        // the type of the receiver of an ambiguous combinator
        let guess = match strip_parens(recv) {
            Expr::MethodCall(m) => matches!(m.method.to_string().as_str(), "into_monad" | "insert_key" | "maybe_remove_key" | "map_err" | "ok_or" | "ok_or_else" | "try_into")
                || (m.method == "remove" && matches!(strip_parens(&m.receiver), Expr::Paren(_) | Expr::Unary(_) | Expr::Field(_) | Expr::Path(_)) && self.self_name != "VecDeque"),
            _ => false,
        };
        let (_, flip) = self.site();
        guess ^ flip
    }

    fn apply(&mut self, f: &Expr, n: usize) -> Result<(Vec<Pat>, Expr), String> {
        match strip_parens(f) {
            Expr::Closure(c) => {
                if c.inputs.len() != n { return Err("closure arity".into()); }
                let mut body = (*c.body).clone();
                if has_ret_e(&body) {
                    let (_, flip) = self.site();
                    let b = self.elim(vec![Stmt::Expr(body, None)], flip)?;
                    body = syn::parse_quote!(#b);
                }
                Ok((c.inputs.iter().map(closure_pat).collect(), body))
            }
            Expr::Path(p) => {
                let vars: Vec<Ident> = (0..n).map(|_| self.fresh("x")).collect();
                let pats = vars.iter().map(|v| -> Pat { Pat::Ident(syn::PatIdent { attrs: vec![], by_ref: None, mutability: None, ident: v.clone(), subpat: None }) }).collect();
                Ok((pats, syn::parse_quote!(#p(#(#vars),*))))
            }
            _ => Err("combinator argument is neither closure nor path".into()),
        }
    }

    fn combinator(&mut self, m: &syn::ExprMethodCall) -> Option<Result<Expr, String>> {
        let name = m.method.to_string();
        let recv = &m.receiver;
        let a: Vec<&Expr> = m.args.iter().collect();
        let callable = |e: &Expr| matches!(strip_parens(e), Expr::Closure(_) | Expr::Path(_));
        let lit_closure = |e: &Expr| matches!(strip_parens(e), Expr::Closure(_));
        macro_rules! tri { ($e:expr) => { match $e { Ok(v) => v, Err(e) => return Some(Err(e)) } } }
        let r: Expr = match (name.as_str(), a.len()) {
            ("map", 1) if callable(a[0]) => {
                let res = self.callee_is_result(recv);
                let (p, b) = tri!(self.apply(a[0], 1)); let p = &p[0];
                if res { syn::parse_quote!(match #recv { Ok(#p) => Ok(#b), Err(e_) => Err(e_) }) } else { syn::parse_quote!(match #recv { Some(#p) => Some(#b), None => None }) }
            }
            ("and_then", 1) if callable(a[0]) => {
                let res = self.callee_is_result(recv);
                let (p, b) = tri!(self.apply(a[0], 1)); let p = &p[0];
                if res { syn::parse_quote!(match #recv { Ok(#p) => #b, Err(e_) => Err(e_) }) } else { syn::parse_quote!(match #recv { Some(#p) => #b, None => None }) }
            }
            ("or_else", 1) if lit_closure(a[0]) => {
                let (p, b) = tri!(self.apply(a[0], 0)); let _ = p;
                syn::parse_quote!(match #recv { Some(v_) => Some(v_), None => #b })
            }
            ("map_err", 1) if callable(a[0]) => {
                let (p, b) = tri!(self.apply(a[0], 1)); let p = &p[0];
                syn::parse_quote!(match #recv { Ok(v_) => Ok(v_), Err(#p) => Err(#b) })
            }
            ("unwrap_or", 1) if pure(a[0]) => {
                let d = a[0]; let v = self.fresh("v");
                syn::parse_quote!(match #recv { Some(#v) => #v, None => #d })
            }
            ("unwrap_or_else", 1) if callable(a[0]) => {
                let (_, b) = match strip_parens(a[0]) { Expr::Closure(c) if c.inputs.len() == 1 => tri!(self.apply(a[0], 1)), _ => tri!(self.apply(a[0], 0)) }; let v = self.fresh("v");
                if let Expr::Closure(c) = strip_parens(a[0]) { if c.inputs.len() == 1 { let p = closure_pat(&c.inputs[0]); let e: Expr = syn::parse_quote!(match #recv { Ok(#v) => #v, Err(#p) => #b }); self.log.insert("E3 combinator".into()); return Some(Ok(e)); } }
                syn::parse_quote!(match #recv { Some(#v) => #v, None => #b })
            }
            ("map_or", 2) if callable(a[1]) => {
                let res = self.callee_is_result(recv);
                let (p, b) = tri!(self.apply(a[1], 1)); let p = &p[0]; let d = a[0];
                if !pure(d) { return None; }
                if res { syn::parse_quote!(match #recv { Ok(#p) => #b, Err(_) => #d }) } else { syn::parse_quote!(match #recv { Some(#p) => #b, None => #d }) }
            }
            ("map_or_else", 2) if callable(a[0]) && callable(a[1]) => {
                let (p, b) = tri!(self.apply(a[1], 1)); let p = &p[0];
                if let Expr::Closure(c) = strip_parens(a[0]) {
                    if c.inputs.len() == 1 {
                        let (q, d) = tri!(self.apply(a[0], 1)); let q = &q[0];
                        syn::parse_quote!(match #recv { Ok(#p) => #b, Err(#q) => #d })
                    } else {
                        let (_, d) = tri!(self.apply(a[0], 0));
                        syn::parse_quote!(match #recv { Some(#p) => #b, None => #d })
                    }
                } else { let (_, d) = tri!(self.apply(a[0], 0)); syn::parse_quote!(match #recv { Some(#p) => #b, None => #d }) }
            }
            ("ok_or", 1) => { let d = a[0]; if !pure(d) { return None; } syn::parse_quote!(match #recv { Some(v_) => Ok(v_), None => Err(#d) }) }
            ("ok_or_else", 1) if lit_closure(a[0]) => { let (_, d) = tri!(self.apply(a[0], 0)); syn::parse_quote!(match #recv { Some(v_) => Ok(v_), None => Err(#d) }) }
            ("is_some_and", 1) if callable(a[0]) => { let (p, b) = tri!(self.apply(a[0], 1)); let p = &p[0]; syn::parse_quote!(match #recv { Some(#p) => #b, None => false }) }
            ("is_none_or", 1) if callable(a[0]) => { let (p, b) = tri!(self.apply(a[0], 1)); let p = &p[0]; syn::parse_quote!(match #recv { Some(#p) => #b, None => true }) }
            ("is_ok_and", 1) if callable(a[0]) => { let (p, b) = tri!(self.apply(a[0], 1)); let p = &p[0]; syn::parse_quote!(match #recv { Ok(#p) => #b, Err(_) => false }) }
            ("filter", 1) if lit_closure(a[0]) => { let (p, b) = tri!(self.apply(a[0], 1)); let p = &p[0]; syn::parse_quote!(match #recv { Some(v_) => { let keep_ = { let #p = &v_; #b }; if keep_ { Some(v_) } else { None } }, None => None }) }
            ("then", 1) if lit_closure(a[0]) => { let (_, b) = tri!(self.apply(a[0], 0)); syn::parse_quote!(if #recv { Some(#b) } else { None }) }
            ("then_some", 1) if pure(a[0]) => { let b = a[0]; syn::parse_quote!(if #recv { Some(#b) } else { None }) }
            ("then_some", 1) => { let b = a[0]; let (t, u) = (self.fresh("c"), self.fresh("v")); syn::parse_quote!({ let #t = #recv; let #u = #b; if #t { Some(#u) } else { None } }) }
            ("and", 1) => {
                let res = self.callee_is_result(recv);
                let b = a[0]; let (t, u) = (self.fresh("o"), self.fresh("v"));
                if res { syn::parse_quote!({ let #t = #recv; let #u = #b; match #t { Ok(_) => #u, Err(e_) => Err(e_) } }) } else { syn::parse_quote!({ let #t = #recv; let #u = #b; match #t { Some(_) => #u, None => None } }) }
            }
            ("or", 1) => {
                let res = self.callee_is_result(recv);
                let b = a[0]; let (t, u) = (self.fresh("o"), self.fresh("v"));
                if res { syn::parse_quote!({ let #t = #recv; let #u = #b; match #t { Ok(v_) => Ok(v_), Err(_) => #u } }) } else { syn::parse_quote!({ let #t = #recv; let #u = #b; match #t { Some(v_) => Some(v_), None => #u } }) }
            }
            ("xor", 1) => { let b = a[0]; let (t, u) = (self.fresh("o"), self.fresh("v")); syn::parse_quote!({ let #t = #recv; let #u = #b; match (#t, #u) { (Some(v_), None) => Some(v_), (None, Some(v_)) => Some(v_), _ => None } }) }
            ("zip", 1) => { let b = a[0]; let (t, u) = (self.fresh("o"), self.fresh("v")); syn::parse_quote!({ let #t = #recv; let #u = #b; match (#t, #u) { (Some(v_), Some(w_)) => Some((v_, w_)), _ => None } }) }
            ("replace", 1) if place(recv) => { let b = a[0]; syn::parse_quote!(replace(&mut #recv, Some(#b))) }
            ("flatten", 0) => { let v = self.fresh("v"); syn::parse_quote!(match #recv { Some(#v) => #v, None => None }) }
            ("copied", 0) => { let v = self.fresh("v"); syn::parse_quote!(match #recv { Some(#v) => Some(*#v), None => None }) }
            ("unwrap_or", 1) => {
                let res = self.callee_is_result(recv);
                let b = a[0]; let (t, u, v) = (self.fresh("o"), self.fresh("v"), self.fresh("v"));
                if res { syn::parse_quote!({ let #t = #recv; let #u = #b; match #t { Ok(#v) => #v, Err(_) => #u } }) } else { syn::parse_quote!({ let #t = #recv; let #u = #b; match #t { Some(#v) => #v, None => #u } }) }
            }
            ("take_if", 1) if lit_closure(a[0]) => {
                let (p, b) = tri!(self.apply(a[0], 1)); let p = &p[0]; let (t, u) = (self.fresh("o"), self.fresh("c"));
                syn::parse_quote!({ let #t = &mut *#recv; let #u = match &mut *#t { Some(v_) => { let #p = v_; #b } None => false }; if #u { #t.take() } else { None } })
            }
            ("unwrap_or_default", 0) => { let v = self.fresh("v"); syn::parse_quote!(match #recv { Some(#v) => #v, None => default_value() }) }
            ("replace_entry_with", 1) if lit_closure(a[0]) => {
                let c = match strip_parens(a[0]) { Expr::Closure(c) => c.clone(), _ => unreachable!() };
                if c.inputs.len() != 2 { return Some(Err("replace_entry_with arity".into())); }
                let (p1, p2) = (closure_pat(&c.inputs[0]), closure_pat(&c.inputs[1]));
                let mut b = (*c.body).clone();
                if has_ret_e(&b) { let bb = tri!(self.elim(vec![Stmt::Expr(b, None)], false)); b = syn::parse_quote!(#bb); }
                self.log.insert("E8 replace_entry_with".into());
                return Some(Ok(syn::parse_quote!({ let (k_, v_, slot_) = #recv.begin_replace(); let #p1 = k_; let #p2 = v_; let out_ = #b; slot_.finish_replace(out_) })));
            }
            _ => return None,
        };
        self.log.insert("E3 combinator".into());
        Some(Ok(r))
    }

    /// E14: an array pattern becomes one binding per element, by trusted stubs `arr_elem_`, `arr_rest_`
    fn slices(&mut self, p: &mut Pat, after: &mut Vec<Stmt>) {
        match p {
            Pat::Slice(s) => {
                let t = self.fresh("arr");
                let n = s.elems.len();
                let is_rest = |e: &Pat| matches!(e, Pat::Rest(_)) || matches!(e, Pat::Ident(i) if matches!(&i.subpat, Some((_, q)) if matches!(**q, Pat::Rest(_))));
                let rest = s.elems.iter().position(is_rest);
                let mut inner = vec![];
                for (i, e) in s.elems.iter().enumerate() {
                    if rest == Some(i) {
                        if let Pat::Ident(id) = e {
                            let (m, id) = (&id.mutability, &id.ident);
                            let post = n - 1 - i;
                            after.push(syn::parse_quote!(let #m #id = arr_rest_(&#t, #i, #post);));
                        }
                        continue;
                    }
                    if let Pat::Wild(_) = e { continue; }
                    let mut e = e.clone();
                    let idx: Expr = match rest { Some(r) if i > r => { let back = n - i; syn::parse_quote!(arr_len_(&#t) - #back) }, _ => syn::parse_quote!(#i) };
                    let mut more = vec![];
                    self.slices(&mut e, &mut more);
                    inner.push((e, idx, more));
                }
                if rest.is_none() { after.push(syn::parse_quote!(arr_exact_(&#t, #n);)); }
                for (e, idx, more) in inner { after.push(syn::parse_quote!(let #e = arr_elem_(&#t, #idx);)); after.extend(more); }
                *p = Pat::Ident(syn::PatIdent { attrs: vec![], by_ref: None, mutability: None, ident: t, subpat: None });
            }
            Pat::Tuple(t) => for e in t.elems.iter_mut() { self.slices(e, after); },
            Pat::TupleStruct(t) => for e in t.elems.iter_mut() { self.slices(e, after); },
            Pat::Paren(t) => self.slices(&mut t.pat, after),
            Pat::Type(t) => self.slices(&mut t.pat, after),
            _ => {}
        }
    }

    fn with<R>(&mut self, tail: bool, f: impl FnOnce(&mut Self) -> R) -> R { let o = self.tail; self.tail = tail; let r = f(self); self.tail = o; r }
}

fn contains_ident(t: &TokenTree, set: &BTreeSet<String>) -> bool {
    match t { TokenTree::Ident(i) => set.contains(&i.to_string()), TokenTree::Group(g) => g.stream().into_iter().any(|t| contains_ident(&t, set)), _ => false }
}

impl<'h> VisitMut for Rw<'h> {
    fn visit_attributes_mut(&mut self, a: &mut Vec<syn::Attribute>) { a.clear(); }
    fn visit_block_mut(&mut self, b: &mut Block) {
        // local items: traits/impls/fns that only help (the polonius extension trait)
        let mut keep = vec![];
        for s in b.stmts.drain(..) {
            match s {
                Stmt::Item(Item::Trait(_)) => {}
                Stmt::Item(Item::Impl(im)) => {
                    for i in &im.items { if let syn::ImplItem::Fn(f) = i { self.local.insert(f.sig.ident.to_string(), Helper { name: f.sig.ident.to_string(), owner: Some("local".into()), of_trait: true, sig: f.sig.clone(), block: f.block.clone() }); } }
                }
                Stmt::Item(Item::Use(u)) if drop_use(&u) => {}
                Stmt::Item(Item::Fn(f)) => { self.local.insert(f.sig.ident.to_string(), Helper { name: f.sig.ident.to_string(), owner: None, of_trait: false, sig: f.sig.clone(), block: (*f.block).clone() }); }
                s => keep.push(s),
            }
        }
        let mut keep2 = vec![];
        for s in keep {
            match s {
                Stmt::Local(mut l) if l.init.as_ref().map_or(false, |i| i.diverge.is_none()) && has_slice(&l.pat) => {
                    let mut after = vec![];
                    self.slices(&mut l.pat, &mut after);
                    self.log.insert("E14 array pattern".into());
                    keep2.push(Stmt::Local(l));
                    keep2.extend(after);
                }
                s => keep2.push(s),
            }
        }
        // E19: a closure bound to a name and called by it becomes its body at the call
        let mut keep3 = vec![];
        for s in keep2 {
            if let Stmt::Local(l) = &s {
                let pat = match &l.pat { Pat::Type(t) => &*t.pat, p => p };
                if let (Pat::Ident(p), Some(i)) = (pat, &l.init) {
                    if let (Expr::Closure(c), None) = (strip_parens(&i.expr), &i.diverge) {
                        if c.capture.is_none() && c.asyncness.is_none() { self.closures.insert(p.ident.to_string(), c.clone()); self.log.insert("E19 local closure".into()); continue; }
                    }
                }
            }
            keep3.push(s);
        }
        b.stmts = keep3;
        let n = b.stmts.len();
        let t = self.tail;
        for (i, s) in b.stmts.iter_mut().enumerate() {
            let last = i + 1 == n && matches!(s, Stmt::Expr(_, None));
            self.with(t && last, |z| z.visit_stmt_mut(s));
        }
    }
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        let attrs: Vec<String> = stmt_attrs(s).iter().filter(|a| a.path().is_ident("cfg")).map(|a| a.meta.to_token_stream().to_string().replace(' ', "")).collect();
        for a in attrs.iter().filter(|a| a.contains("debug_assertions")) {
            let yes = a == "cfg(debug_assertions)";
            if attrs.len() > 1 || !(yes || a == "cfg(not(debug_assertions))") || matches!(s, Stmt::Local(_) | Stmt::Item(_)) { self.errs.push("code which depends on the build mode".into()); return; }
            if let Stmt::Expr(_, semi @ None) = s { *semi = Some(Default::default()); }
            let mut t = s.clone();
            NoAttrs.visit_stmt_mut(&mut t);
            *s = if yes { syn::parse_quote!(if debug_build_() { #t }) } else { syn::parse_quote!(if !debug_build_() { #t }) };
            visit_mut::visit_stmt_mut(self, s);
            return;
        }
        if let Stmt::Macro(m) = s {
            let e = Expr::Macro(syn::ExprMacro { attrs: vec![], mac: m.mac.clone() });
            let mut e = e;
            self.visit_expr_mut(&mut e);
            if !matches!(e, Expr::Macro(_)) { *s = Stmt::Expr(e, m.semi_token); }
            return;
        }
        visit_mut::visit_stmt_mut(self, s);
    }
    fn visit_local_mut(&mut self, l: &mut syn::Local) { self.with(false, |z| visit_mut::visit_local_mut(z, l)); }
    fn visit_item_mut(&mut self, i: &mut Item) { if let Item::Use(_) | Item::Const(_) = i { return; } }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        let tail = self.tail;
        match e {
            Expr::Macro(m) => {
                let name = m.mac.path.segments.last().unwrap().ident.to_string();
                let args: Vec<Expr> = m.mac.parse_body_with(syn::punctuated::Punctuated::<Expr, syn::Token![,]>::parse_terminated).map(|p| p.into_iter().collect()).unwrap_or_default();
                let mut ne: Expr = match (name.as_str(), args.len()) {
                    (n, _) if self.partial && n.starts_with("debug_assert") => syn::parse_quote!(drop_(())),
                    ("debug_assert", 1..) => { let c = &args[0]; syn::parse_quote!(if debug_build_() { rt_assert(#c) }) }
                    ("debug_assert_eq", 2..) => { let (a, b) = (&args[0], &args[1]); syn::parse_quote!(if debug_build_() { rt_assert(#a == #b) }) }
                    ("debug_assert_ne", 2..) => { let (a, b) = (&args[0], &args[1]); syn::parse_quote!(if debug_build_() { rt_assert(#a != #b) }) }
                    ("assert", 1..) => { let c = &args[0]; syn::parse_quote!(rt_assert(#c)) }
                    ("assert_eq", 2..) => { let (a, b) = (&args[0], &args[1]); syn::parse_quote!(rt_assert(#a == #b)) }
                    ("assert_ne", 2..) => { let (a, b) = (&args[0], &args[1]); syn::parse_quote!(rt_assert(#a != #b)) }
                    ("cfg", 1) => match args[0].to_token_stream().to_string().replace(' ', "").as_str() {
                        "debug_assertions" => syn::parse_quote!(debug_build_()),
                        "not(debug_assertions)" => syn::parse_quote!(!debug_build_()),
                        _ => return,
                    },
                    ("unreachable", _) | ("panic", _) | ("todo", _) | ("unimplemented", _) => syn::parse_quote!(vpanic()),
                    ("matches", _) => {
                        struct M(Expr, Pat, Option<Expr>);
                        impl syn::parse::Parse for M { fn parse(i: syn::parse::ParseStream) -> syn::Result<Self> { let e = i.parse()?; i.parse::<syn::Token![,]>()?; let p = Pat::parse_multi_with_leading_vert(i)?; let g = if i.peek(syn::Token![if]) { i.parse::<syn::Token![if]>()?; Some(i.parse()?) } else { None }; let _ = i.parse::<Option<syn::Token![,]>>()?; Ok(M(e, p, g)) } }
                        match syn::parse2::<M>(m.mac.tokens.clone()) { Ok(M(x, p, None)) => syn::parse_quote!(match #x { #p => true, _ => false }), Ok(M(x, p, Some(g))) => syn::parse_quote!(match #x { #p if #g => true, _ => false }), _ => return }
                    }
                    _ => return,
                };
                self.with(false, |z| z.visit_expr_mut(&mut ne));
                *e = ne;
                return;
            }
            Expr::If(x) => {
                self.with(false, |z| z.visit_expr_mut(&mut x.cond));
                self.visit_block_mut(&mut x.then_branch);
                if let Some((_, b)) = &mut x.else_branch { self.visit_expr_mut(b); }
                return;
            }
            Expr::Match(x) => {
                self.with(false, |z| z.visit_expr_mut(&mut x.expr));
                for a in x.arms.iter_mut() {
                    if let Some((_, g)) = &mut a.guard { self.with(false, |z| z.visit_expr_mut(g)); }
                    self.visit_expr_mut(&mut a.body);
                }
                return;
            }
            Expr::Block(b) => { self.visit_block_mut(&mut b.block); return; }
            Expr::Paren(p) => { self.visit_expr_mut(&mut p.expr); return; }
            Expr::Return(r) => { let t = !self.in_closure; if let Some(x) = &mut r.expr { self.with(t, |z| z.visit_expr_mut(x)); } return; }
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                if name == "split_ref" && m.args.len() == 1 {
                    if let Expr::Closure(c) = strip_parens(&m.args[0]) {
                        if c.inputs.len() == 2 {
                            let (p1, p2) = (closure_pat(&c.inputs[0]), closure_pat(&c.inputs[1]));
                            let recv = &m.receiver;
                            let mut body = (*c.body).clone();
                            let sp = self.fresh("split");
                            if has_ret_e(&body) && !(tail && !self.in_closure) {
                                match self.elim(vec![Stmt::Expr(body.clone(), None)], self.ret_is_result) { Ok(b) => body = syn::parse_quote!(#b), Err(er) => { self.errs.push(format!("split_ref: {}", er)); return; } }
                            }
                            let stm: Vec<Stmt> = match body { Expr::Block(b) if b.label.is_none() => b.block.stmts, b => vec![Stmt::Expr(b, None)] };
                            let mut ne: Expr = syn::parse_quote!({ let #sp = #recv.split_ref_pair(); let #p1 = &#sp.0; let #p2 = &#sp.1; #(#stm)* });
                            self.log.insert("E2 split_ref".into());
                            self.visit_expr_mut(&mut ne);
                            *e = ne;
                            return;
                        }
                    }
                }
                if name == "clone" && m.args.is_empty() {
                    // E17: a clone through a generic function, which the verifier takes at tuples
                    let tree = self.fn_name == "clone" && self.self_name.starts_with("Tree");
                    let (_, flip) = self.site();
                    if tree ^ flip {
                        let r = &m.receiver;
                        let mut ne: Expr = if matches!(strip_parens(r), Expr::Path(_)) { syn::parse_quote!(clone_(#r)) } else { syn::parse_quote!(clone_(&#r)) };
                        self.log.insert("E17 clone".into());
                        if let Expr::Call(c) = &mut ne { self.with(false, |z| z.visit_expr_mut(&mut c.args[0])); }
                        *e = ne;
                        return;
                    }
                }
                if matches!(name.as_str(), "shl" | "shr" | "bitor" | "bitand" | "bitxor") && m.args.len() == 1 {
                    let (a, b) = (&m.receiver, &m.args[0]);
                    let mut ne: Expr = match name.as_str() { "shl" => syn::parse_quote!((#a << #b)), "shr" => syn::parse_quote!((#a >> #b)), "bitor" => syn::parse_quote!((#a | #b)), "bitand" => syn::parse_quote!((#a & #b)), _ => syn::parse_quote!((#a ^ #b)) };
                    self.log.insert("E16 operator method".into());
                    self.with(false, |z| z.visit_expr_mut(&mut ne));
                    *e = ne;
                    return;
                }
                if let Some(r) = self.combinator(m) {
                    match r { Ok(mut ne) => { self.visit_expr_mut(&mut ne); *e = ne; } Err(er) => self.errs.push(format!("{}: {}", name, er)) }
                    return;
                }
                let self_recv = matches!(strip_parens(&m.receiver), Expr::Path(p) if p.path.is_ident("self") || p.path.is_ident("self_"));
                let ok_name = self_recv || !STD_NAMES.contains(&name.as_str());
                if ok_name {
                    let owner = if self_recv && !self.self_name.is_empty() { self.self_name.clone() } else { "?".into() };
                    if let Some(h) = self.find_helper(&name, Some(&owner)) {
                        if h.sig.receiver().is_some() && h.sig.inputs.len() == m.args.len() + 1 {
                            let (recv, args) = ((*m.receiver).clone(), m.args.iter().cloned().collect());
                            match self.inline(&h, Some(recv), args) { Ok(ne) => *e = ne, Err(er) => self.errs.push(er) }
                            return;
                        }
                    }
                }
                // closures handed to a callee that is under contract
                self.with(false, |z| {
                    z.visit_expr_mut(&mut m.receiver);
                    for a in m.args.iter_mut() { z.visit_expr_mut(a); }
                });
                return;
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = strip_parens(&c.func) {
                    if let Some(cl) = p.path.get_ident().and_then(|i| self.closures.get(&i.to_string())).cloned() {
                        if cl.inputs.len() == c.args.len() && self.depth < 8 {
                            let mut st: Vec<Stmt> = vec![];
                            let tmp: Vec<Ident> = c.args.iter().map(|_| self.fresh("cl_arg")).collect();
                            for (t, a) in tmp.iter().zip(&c.args) { st.push(syn::parse_quote!(let #t = #a;)); }
                            for (t, q) in tmp.iter().zip(&cl.inputs) { st.push(syn::parse_quote!(let #q = #t;)); }
                            let mut body = (*cl.body).clone();
                            if has_ret_e(&body) {
                                let (_, flip) = self.site();
                                match self.elim(vec![Stmt::Expr(body, None)], flip) { Ok(b) => body = syn::parse_quote!(#b), Err(er) => { self.errs.push(er); return; } }
                            }
                            let mut ne: Expr = syn::parse_quote!({ #(#st)* #body });
                            self.depth += 1;
                            let o = self.in_closure; self.in_closure = true;
                            self.with(false, |z| z.visit_expr_mut(&mut ne));
                            self.in_closure = o;
                            self.depth -= 1;
                            *e = ne;
                            return;
                        }
                    }
                    let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    let last = segs.last().unwrap().clone();
                    if last == "polonius" && c.args.len() == 2 {
                        if let Expr::Closure(cl) = strip_parens(&c.args[1]) {
                            let inp = &c.args[0];
                            let (a, b) = (self.fresh("pol"), self.fresh("pol"));
                            let pp = closure_pat(&cl.inputs[0]);
                            let mut body = (*cl.body).clone();
                            IdentRename("Placeholder".into(), syn::parse_quote!(#b)).visit_expr_mut(&mut body);
                            if has_ret_e(&body) { self.errs.push("return inside polonius closure".into()); return; }
                            let mut ne: Expr = syn::parse_quote!({ let (#a, #b) = polonius_seq(#inp); let #pp = #a; #body });
                            self.log.insert("E4 polonius".into());
                            self.with(false, |z| z.visit_expr_mut(&mut ne));
                            *e = ne;
                            return;
                        }
                    }
                    // calls of core that are their argument: `drop`, `identity`, `mem::take`, `cmp::max`, `cmp::min`
                    if p.qself.is_none() && (segs.len() == 1 || matches!(segs[segs.len() - 2].as_str(), "mem" | "convert" | "cmp")) {
                        let a: Vec<&Expr> = c.args.iter().collect();
                        let ne: Option<Expr> = match (last.as_str(), a.len()) {
                            ("drop", 1) => { let x = a[0]; Some(syn::parse_quote!(drop_(#x))) }
                            ("identity", 1) => { let x = a[0]; Some(syn::parse_quote!(({ let id_ = #x; id_ }))) }
                            ("take", 1) => { let x = a[0]; Some(syn::parse_quote!(replace(#x, default_value()))) }
                            ("max", 2) => { let (x, y) = (a[0], a[1]); Some(syn::parse_quote!((#x).max(#y))) }
                            ("min", 2) => { let (x, y) = (a[0], a[1]); Some(syn::parse_quote!((#x).min(#y))) }
                            _ => None,
                        };
                        if let Some(mut ne) = ne {
                            if self.find_helper(&last, None).is_none() {
                                self.log.insert("E20 core function".into());
                                match &mut ne {
                                    Expr::Call(k) => self.with(false, |z| { for a in k.args.iter_mut() { z.visit_expr_mut(a); } }),
                                    Expr::MethodCall(k) => self.with(false, |z| { z.visit_expr_mut(&mut k.receiver); for a in k.args.iter_mut() { z.visit_expr_mut(a); } }),
                                    k => self.with(false, |z| visit_mut::visit_expr_mut(z, k)),
                                }
                                *e = ne;
                                return;
                            }
                        }
                    }
                    let owner = if segs.len() >= 2 { let o = segs[segs.len() - 2].clone(); if o == "Self" { Some(self.self_name.clone()) } else if o.chars().next().unwrap().is_uppercase() { Some(o) } else { None } }
                        else if p.qself.is_some() { Some(self.self_name.clone()) } else { None };
                    let ctor = last.chars().next().unwrap().is_uppercase();
                    if !ctor {
                        if let Some(h) = self.find_helper(&last, owner.as_deref()) {
                            if h.owner.is_some() == owner.is_some() && h.sig.inputs.len() == c.args.len() {
                                let args = c.args.iter().cloned().collect();
                                match self.inline(&h, None, args) { Ok(ne) => *e = ne, Err(er) => self.errs.push(er) }
                                return;
                            }
                        }
                    }
                }
                self.with(false, |z| { for a in c.args.iter_mut() { z.visit_expr_mut(a); } });
                return;
            }
            Expr::While(_) | Expr::ForLoop(_) | Expr::Loop(_) => {
                self.opaque.insert("a loop without an invariant".into());
                if let Expr::ForLoop(f) = e {
                    if let Expr::Range(r) = &mut *f.expr {
                        self.with(false, |z| {
                            if let Some(x) = &mut r.start { z.visit_expr_mut(x); }
                            if let Some(x) = &mut r.end { z.visit_expr_mut(x); }
                            z.visit_block_mut(&mut f.body);
                        });
                        return;
                    }
                }
                self.with(false, |z| { visit_mut::visit_expr_mut(z, e); });
                return;
            }
            Expr::Range(r) if !self.in_index => {
                let incl = matches!(r.limits, syn::RangeLimits::Closed(_));
                let (a, b) = (r.start.clone(), r.end.clone());
                let mut ne: Expr = match (a, b, incl) {
                    (Some(a), Some(b), true) => syn::parse_quote!(range_inclusive_(#a, #b)),
                    (Some(a), Some(b), false) => syn::parse_quote!(range_(#a, #b)),
                    (None, Some(b), true) => syn::parse_quote!(range_to_inclusive_(#b)),
                    (None, Some(b), false) => syn::parse_quote!(range_to_(#b)),
                    (Some(a), None, _) => syn::parse_quote!(range_from_(#a)),
                    (None, None, _) => syn::parse_quote!(range_full_()),
                };
                self.log.insert("E10 range".into());
                self.with(false, |z| z.visit_expr_mut(&mut ne));
                *e = ne;
                return;
            }
            Expr::Index(x) => {
                let o = self.in_index; 
                self.with(false, |z| { z.visit_expr_mut(&mut x.expr); z.in_index = true; z.visit_expr_mut(&mut x.index); z.in_index = o; });
                return;
            }
            Expr::Closure(c) => {
                let oc = self.in_closure; self.in_closure = true;
                self.with(false, |z| z.visit_expr_mut(&mut c.body));
                self.in_closure = oc;
                // one-parameter closure wrapping a method call, or a constant thunk: attach the callee's contract
                let steps = !self.steps.is_empty();
                if steps {
                    let mut st = Steps { names: &self.steps, fns: BTreeSet::new(), count: true, is_res: false, errs: vec![] };
                    st.visit_expr_mut(&mut c.body);
                    self.errs.append(&mut st.errs);
                }
                if let Some((t, guess)) = closure_contract(c, steps) {
                    if guess { self.opaque.insert("a closure under a derived contract".into()); }
                    let n = self.raw.len(); self.raw.push(t); let lit = proc_macro2::Literal::usize_unsuffixed(n);
                    self.log.insert("E9 closure contract".into());
                    *e = syn::parse_quote!(__V!(#lit));
                } else { self.opaque.insert("a closure without a contract".into()); }
                return;
            }
            _ => {}
        }
        self.with(false, |z| visit_mut::visit_expr_mut(z, e));
    }
}

/// `|v| v.remove(k)` -> a closure whose contract is that of the method it calls. A longer body that
/// makes one such call on its parameter gets the same contract, and is checked against it; whether
/// that is the contract its caller needs is then a guess (the second component).
fn closure_contract(c: &syn::ExprClosure, steps: bool) -> Option<(String, bool)> {
    let mut b: &Expr = &c.body;
    while let Expr::Block(x) = b { if x.block.stmts.len() == 1 { if let Stmt::Expr(e, None) = &x.block.stmts[0] { b = e; continue; } } break; }
    if c.inputs.len() == 0 {
        if steps { return None; }
        if let Expr::Path(p) = b { if p.path.is_ident("None") { return Some(("|| -> (o_: Option<_>) ensures o_ is None { None }".into(), false)); } }
        return None;
    }
    if c.inputs.len() != 1 { return None; }
    let p = closure_pat(&c.inputs[0]);
    let (v, vm) = if let Pat::Ident(i) = &p { (i.ident.to_string(), i.mutability.is_some()) } else { return None };
    let unc = |e: &Expr| -> Expr { if let Expr::Call(c) = e { if matches!(&*c.func, Expr::Path(p) if p.path.is_ident("count_")) { return c.args[0].clone(); } } e.clone() };
    // `|t| r(t)`, `|t| Ok(r(t))`: what `r` promises, handed on
    if !vm {
        let un = unc(b);
        let (inner, ok) = match &un {
            Expr::Call(c) if c.args.len() == 1 && matches!(&*c.func, Expr::Path(p) if p.path.is_ident("Ok")) => (strip_parens(&c.args[0]).clone(), true),
            e => (e.clone(), false),
        };
        if let (Expr::Call(c), false) = (&inner, ok && steps) {
            if let (Expr::Path(f), 1) = (&*c.func, c.args.len()) {
                let small = |p: &syn::Path| p.get_ident().is_some_and(|i| i.to_string().chars().next().is_some_and(|c| c.is_lowercase()));
                if small(&f.path) && matches!(strip_parens(&c.args[0]), Expr::Path(q) if q.path.is_ident(&v)) {
                    let f = f.path.get_ident().unwrap();
                    let body = crate::fmt::print(un.to_token_stream(), &[]);
                    let (ty, o) = if ok { ("Result<_, _>", format!("ok_of_({f}, {v}, o_)")) } else { ("_", format!("call_ensures({f}, ({v},), o_)")) };
                    return Some((format!("|{v}: _| -> (o_: {ty}) requires call_requires({f}, ({v},)), ensures {o} {{ {body} }}"), true));
                }
            }
        }
    }
    struct Calls<'a> { v: &'a str, found: Vec<syn::ExprMethodCall> }
    impl<'a, 'b> Visit<'b> for Calls<'a> {
        fn visit_expr_method_call(&mut self, m: &'b syn::ExprMethodCall) {
            if matches!(m.method.to_string().as_str(), "remove" | "remove_min" | "remove_max") && matches!(strip_parens(&m.receiver), Expr::Path(q) if q.path.is_ident(self.v)) { self.found.push(m.clone()); }
            syn::visit::visit_expr_method_call(self, m);
        }
    }
    let direct = matches!(&unc(b), Expr::MethodCall(m) if matches!(strip_parens(&m.receiver), Expr::Path(q) if q.path.is_ident(&v)));
    let mut k = Calls { v: &v, found: vec![] };
    k.visit_expr(b);
    if k.found.is_empty() { return None; }
    // several calls: the general removal, of which the others are special cases, is the one the caller means
    let m = k.found.iter().find(|m| m.method == "remove").unwrap_or(&k.found[0]);
    let same = |a: &syn::ExprMethodCall| a.method != "remove" && m.method == "remove" || (a.method == m.method && a.args == m.args);
    if !k.found.iter().all(same) { return None; }
    let name = m.method.to_string();
    let args: Vec<String> = m.args.iter().map(|a| crate::fmt::print(a.to_token_stream(), &[])).collect();
    let body = crate::fmt::print(b.to_token_stream(), &[]);
    let pre = if vm { format!("let mut {v} = {v};") } else { String::new() };
    if steps {
        let body = format!("{{ {pre} let mut steps_ = no_steps_(); let r_ = {body}; (r_, steps_) }}");
        let r = match (name.as_str(), args.len()) {
            ("remove", 1) => format!("|{v}: ChildTree| -> (o_: (MaybeRemoveResult<ChildTree>, Ghost<nat>)) ensures remove_cost(o_) {body}"),
            ("remove_min", 0) | ("remove_max", 0) => format!("|{v}: ChildTree| -> (o_: (RemoveResult<ChildTree>, Ghost<nat>)) ensures remove_end_cost(o_) {body}"),
            _ => return None,
        };
        return Some((r, !direct));
    }
    let r = match (name.as_str(), args.len()) {
        ("remove", 1) => format!("|{v}: ChildTree| -> (o_: MaybeRemoveResult<ChildTree>) requires remove_pre({v}), ensures remove_post({v}, *({a}).bspec(), o_) {{ {pre} {body} }}", a = args[0]),
        ("remove_min", 0) => format!("|{v}: ChildTree| -> (o_: RemoveResult<ChildTree>) requires remove_pre({v}), ensures remove_min_post({v}, o_) {{ {pre} {body} }}"),
        ("remove_max", 0) => format!("|{v}: ChildTree| -> (o_: RemoveResult<ChildTree>) requires remove_pre({v}), ensures remove_max_post({v}, o_) {{ {pre} {body} }}"),
        _ => return None,
    };
    Some((r, !direct))
}

fn has_slice(p: &Pat) -> bool {
    match p { Pat::Slice(_) => true, Pat::Tuple(t) => t.elems.iter().any(has_slice), Pat::TupleStruct(t) => t.elems.iter().any(has_slice), Pat::Paren(t) => has_slice(&t.pat), Pat::Type(t) => has_slice(&t.pat), _ => false }
}

/// `use` of a module path inside a body: the template declares those names at top level
fn drop_use(u: &syn::ItemUse) -> bool {
    match &u.tree { syn::UseTree::Path(p) => p.ident.to_string().chars().next().map_or(false, |c| c.is_lowercase()), _ => true }
}

/// `self == other` of the references in `ne` is that of what they refer to
pub struct SelfEq(pub String);
impl VisitMut for SelfEq {
    fn visit_expr_binary_mut(&mut self, b: &mut syn::ExprBinary) {
        visit_mut::visit_expr_binary_mut(self, b);
        let is = |e: &Expr, n: &str| matches!(e, Expr::Path(p) if p.path.is_ident(n));
        if matches!(b.op, syn::BinOp::Eq(_)) && is(&b.left, "self") && is(&b.right, &self.0) {
            let (l, r) = (b.left.clone(), b.right.clone());
            *b.left = syn::parse_quote!(*#l);
            *b.right = syn::parse_quote!(*#r);
        }
    }
}

struct NoAttrs;
impl VisitMut for NoAttrs { fn visit_attributes_mut(&mut self, i: &mut Vec<syn::Attribute>) { i.clear(); } }
fn stmt_attrs(s: &Stmt) -> Vec<syn::Attribute> {
    struct First(Vec<syn::Attribute>, bool);
    impl VisitMut for First { fn visit_attributes_mut(&mut self, i: &mut Vec<syn::Attribute>) { if !self.1 { self.0 = i.clone(); self.1 = true; } } }
    if s.to_token_stream().into_iter().next().is_none_or(|t| t.to_string() != "#") { return vec![]; }
    let mut f = First(vec![], false);
    f.visit_stmt_mut(&mut s.clone());
    f.0
}

/// E23 (unit `absent` only): what may panic hands back nothing when it does: `expect`, `assert!`, `panic!`
/// and their like go on exactly if the check holds.
pub struct Partial;
impl VisitMut for Partial {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let ne: Expr = match e {
            Expr::MethodCall(m) if matches!(m.method.to_string().as_str(), "expect" | "unwrap") => { let x = &m.receiver; syn::parse_quote!(#x.must_()) }
            Expr::Call(c) => match &mut *c.func {
                Expr::Path(p) if p.path.is_ident("rt_assert") => { let a = &c.args; syn::parse_quote!(must_hold_(#a)) }
                Expr::Path(p) if p.path.is_ident("vpanic") => syn::parse_quote!(diverge_()),
                _ => return,
            },
            _ => return,
        };
        *e = ne;
    }
}

/// E22 (unit `steps` only): every call of a counted operation hands back what it cost, which is added
/// to the counter `steps_`; every way out of the body hands back the counter. Operations which may
/// panic get a stub that may do so (the other units show they do not).
pub struct Steps<'a> { pub names: &'a BTreeSet<String>, pub fns: BTreeSet<String>, pub count: bool, pub is_res: bool, pub errs: Vec<String> }
impl<'a> Steps<'a> {
    /// parameters that are functions hand back their steps too
    pub fn fn_params(&mut self, sig: &mut syn::Signature) {
        let mut tys = BTreeSet::new();
        let mut fix = |name: String, bounds: &mut syn::punctuated::Punctuated<syn::TypeParamBound, syn::Token![+]>| for b in bounds.iter_mut() {
            if let syn::TypeParamBound::Trait(t) = b {
                let seg = t.path.segments.last_mut().unwrap();
                if !matches!(seg.ident.to_string().as_str(), "FnOnce" | "FnMut" | "Fn") { continue; }
                if let syn::PathArguments::Parenthesized(a) = &mut seg.arguments {
                    let t: syn::Type = match &a.output { syn::ReturnType::Type(_, t) => (**t).clone(), _ => syn::parse_quote!(()) };
                    a.output = syn::parse_quote!(-> (#t, Ghost<nat>));
                    tys.insert(name.clone());
                }
            }
        };
        for p in sig.generics.params.iter_mut() { if let syn::GenericParam::Type(t) = p { fix(t.ident.to_string(), &mut t.bounds); } }
        if let Some(w) = &mut sig.generics.where_clause { for p in w.predicates.iter_mut() { if let syn::WherePredicate::Type(t) = p { let n = t.bounded_ty.to_token_stream().to_string(); fix(n, &mut t.bounds); } } }
        for a in &sig.inputs { if let syn::FnArg::Typed(t) = a { if let (Pat::Ident(i), true) = (&*t.pat, tys.contains(&t.ty.to_token_stream().to_string())) { self.fns.insert(i.ident.to_string()); } } }
    }
    pub fn body(&mut self, body: &mut Block, out: &syn::ReturnType) {
        let ty: syn::Type = match out { syn::ReturnType::Type(_, t) => (**t).clone(), _ => syn::parse_quote!(()) };
        let unit = matches!(out, syn::ReturnType::Default) || matches!(&ty, syn::Type::Tuple(t) if t.elems.is_empty());
        // a `return` at the end is the value of the body
        if let Some(Stmt::Expr(Expr::Return(r), _)) = body.stmts.last() {
            let x: Expr = r.expr.as_deref().cloned().unwrap_or(syn::parse_quote!(()));
            *body.stmts.last_mut().unwrap() = Stmt::Expr(x, None);
        }
        self.visit_block_mut(body);
        let mut st = std::mem::take(&mut body.stmts);
        // a body without a value at the end ends before it
        let end: Expr = if unit { syn::parse_quote!(()) } else { syn::parse_quote!(vpanic()) };
        let tail = match st.pop() {
            Some(Stmt::Expr(e, None)) => e,
            Some(s) => { st.push(s); end }
            None => end,
        };
        let mut out: Vec<Stmt> = vec![syn::parse_quote!(let mut steps_ = one_step_();)];
        out.extend(st);
        out.push(syn::parse_quote!(let r_: #ty = #tail;));
        out.push(Stmt::Expr(syn::parse_quote!((r_, steps_)), None));
        body.stmts = out;
    }
    fn place_of(e: &mut Expr) { if let Expr::Index(x) = e { let (b, i) = (&x.expr, &x.index); *e = syn::parse_quote!((*(#b).at_mut_(#i))); } }
}
impl<'a> VisitMut for Steps<'a> {
    fn visit_item_mut(&mut self, _: &mut Item) {}
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Closure(_) | Expr::Macro(_) => return,
            Expr::While(_) | Expr::ForLoop(_) | Expr::Loop(_) => { self.errs.push("a loop in a counted body".into()); return; }
            Expr::Assign(a) => { if let Expr::Index(_) = &*a.left { let l = &mut *a.left; visit_mut::visit_expr_mut(self, l); } }
            _ => {}
        }
        match e {
            Expr::Assign(a) if matches!(&*a.left, Expr::Index(_)) => { Self::place_of(&mut a.left); self.visit_expr_mut(&mut a.right); return; }
            Expr::Reference(r) if r.mutability.is_some() && matches!(&*r.expr, Expr::Index(_)) => {
                visit_mut::visit_expr_mut(self, &mut r.expr);
                Self::place_of(&mut r.expr);
                return;
            }
            Expr::Binary(b) if is_assign_op(&b.op) => {
                if matches!(&*b.left, Expr::Index(_)) { visit_mut::visit_expr_mut(self, &mut b.left); Self::place_of(&mut b.left); } else { self.visit_expr_mut(&mut b.left); }
                self.visit_expr_mut(&mut b.right);
                let (l, r) = (&b.left, &b.right);
                *e = syn::parse_quote!(arith_assign_(&mut #l, #r));
                return;
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
        let ne: Expr = match e {
            Expr::Return(r) if self.count => { let x = r.expr.clone().unwrap_or(syn::parse_quote!(())); syn::parse_quote!({ let r_ = #x; return (r_, steps_) }) }
            Expr::Try(t) if self.count => { let x = &t.expr; if self.is_res { syn::parse_quote!(match #x { Ok(v_) => v_, Err(e_) => return (Err(e_), steps_) }) } else { syn::parse_quote!(match #x { Some(v_) => v_, None => return (None, steps_) }) } }
            Expr::MethodCall(m) if self.count && self.names.contains(&m.method.to_string()) => { let x = &*m; syn::parse_quote!(count_(#x, &mut steps_)) }
            Expr::MethodCall(m) if matches!(m.method.to_string().as_str(), "expect" | "unwrap") => { let x = &m.receiver; syn::parse_quote!(#x.must_()) }
            Expr::Call(c) => match &*c.func {
                _ if !self.count => return,
                Expr::Path(p) if self.names.contains(&p.path.segments.last().unwrap().ident.to_string()) || p.path.get_ident().is_some_and(|i| self.fns.contains(&i.to_string())) => { let x = &*c; syn::parse_quote!(count_(#x, &mut steps_)) }
                _ => return,
            },
            Expr::Index(x) if !matches!(&*x.index, Expr::Range(_)) => { let (b, i) = (&x.expr, &x.index); syn::parse_quote!((*(#b).at_(#i))) }
            Expr::Binary(b) if is_arith_op(&b.op) => { let (l, r) = (&b.left, &b.right); syn::parse_quote!(arith_(#l, #r)) }
            _ => return,
        };
        *e = ne;
    }
}
fn is_assign_op(o: &syn::BinOp) -> bool { use syn::BinOp::*; matches!(o, AddAssign(_) | SubAssign(_) | MulAssign(_) | DivAssign(_) | RemAssign(_) | BitXorAssign(_) | BitAndAssign(_) | BitOrAssign(_) | ShlAssign(_) | ShrAssign(_)) }
fn is_arith_op(o: &syn::BinOp) -> bool { use syn::BinOp::*; matches!(o, Add(_) | Sub(_) | Mul(_) | Div(_) | Rem(_) | Shl(_) | Shr(_)) }
