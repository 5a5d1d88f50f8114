//! The fixed list of syntactic rewrites.  Each one is either a library macro expanded per its
//! definition, or a change of spelling (an operator written as a call) that the verifier needs.
use crate::{Ctx, FnInfo};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use syn::visit_mut::{self, VisitMut};
use syn::{parse_quote, Expr, Stmt};

thread_local! {
    pub static CUR: RefCell<(String, BTreeSet<String>, HashMap<String, String>)> = RefCell::new(Default::default());
}
/// current crate / external crates / crate aliases, used for path rewriting in types
pub fn set_cur(cr: &str, ext: &BTreeSet<String>, alias: &HashMap<String, String>) {
    CUR.with(|c| *c.borrow_mut() = (cr.to_string(), ext.clone(), alias.clone()));
}

pub fn fix_path(p: &mut syn::Path) {
    if p.segments.len() < 2 { return; }
    let first = p.segments[0].ident.to_string();
    CUR.with(|c| {
        let c = c.borrow();
        if first == "crate" {
            let cr = syn::Ident::new(&c.0, proc_macro2::Span::call_site());
            if p.segments[1].ident != cr {
                let rest: Vec<syn::PathSegment> = p.segments.iter().skip(1).cloned().collect();
                *p = parse_quote!(crate::#cr);
                for r in rest { p.segments.push(r); }
            }
        } else if let Some(a) = c.2.get(&first) {
            let cr = syn::Ident::new(a, proc_macro2::Span::call_site());
            let rest: Vec<syn::PathSegment> = p.segments.iter().skip(1).cloned().collect();
            *p = parse_quote!(crate::#cr);
            for r in rest { p.segments.push(r); }
        } else if c.1.contains(&first) || matches!(first.as_str(), "std" | "core" | "alloc") {
            // keep from the first type-like (capitalised) segment, or the last segment
            let n = p.segments.len();
            let k = p.segments.iter().position(|s| s.ident.to_string().chars().next().unwrap().is_uppercase()).unwrap_or(n - 1);
            let rest: Vec<syn::PathSegment> = p.segments.iter().skip(k).cloned().collect();
            p.segments.clear();
            p.leading_colon = None;
            for r in rest { p.segments.push(r); }
        }
    });
}

pub struct Types;
impl VisitMut for Types {
    fn visit_type_mut(&mut self, t: &mut syn::Type) {
        match t {
            syn::Type::TraitObject(o) => {
                if let Some(syn::TypeParamBound::Trait(b)) = o.bounds.iter().find(|b| matches!(b, syn::TypeParamBound::Trait(_))) {
                    let p = b.path.clone();
                    *t = syn::Type::Path(syn::TypePath { qself: None, path: p });
                }
            }
            syn::Type::Paren(p) => { *t = (*p.elem).clone(); }
            syn::Type::Slice(s) => {
                let e = &s.elem;
                if quote::quote!(#e).to_string() == "u8" { *t = parse_quote!(Bytes); } else { let e = e.clone(); *t = parse_quote!(Vec<#e>); }
            }
            syn::Type::Path(p) if p.path.is_ident("str") => { *t = parse_quote!(String); }
            _ => {}
        }
        visit_mut::visit_type_mut(self, t);
    }
    fn visit_path_mut(&mut self, p: &mut syn::Path) {
        fix_path(p);
        visit_mut::visit_path_mut(self, p);
        if let Some(l) = p.segments.last_mut() {
            if ["Response", "SubMsg", "CosmosMsg", "QuerierWrapper"].contains(&l.ident.to_string().as_str()) {
                l.arguments = syn::PathArguments::None;
            }
        }
    }
}

pub struct Xf<'a> {
    ctx: &'a Ctx,
    crate_: String,
    module: String,
    path: String,
    pub counts: BTreeMap<String, usize>,
    pub inlined: BTreeSet<String>,
    pub unsupported: Vec<String>,
    pub nloops: usize,
    /// per loop: a generated invariant says all there is to say
    pub loop_own: Vec<bool>,
    /// per loop: outer variables it changes that no generated invariant speaks about
    pub loop_vars: Vec<BTreeSet<String>>,
    strict: bool,
    tmp: usize,
    depth: usize,
    locals: Vec<HashMap<String, syn::ExprClosure>>,
    ret_ok: bool, // function returns Result/Option, so `?`-style early returns are available
}

fn mac_args(m: &syn::Macro) -> Option<Vec<Expr>> {
    use syn::punctuated::Punctuated;
    m.parse_body_with(Punctuated::<Expr, syn::Token![,]>::parse_terminated).ok().map(|p| p.into_iter().collect())
}

const EVENTISH: &[&str] = &["add_event", "add_events", "add_attribute", "add_attributes"];

impl<'a> Xf<'a> {
    pub fn new(ctx: &'a Ctx, fi: &FnInfo) -> Self {
        set_cur(&fi.crate_, &ctx.ext_crates, &ctx.crate_alias);
        Xf { ctx, crate_: fi.crate_.clone(), module: fi.module.clone(), path: fi.path.clone(), counts: Default::default(), inlined: Default::default(), unsupported: vec![], nloops: 0, loop_own: vec![], loop_vars: vec![], strict: ctx.ov.fns.get(&fi.path).map(|o| o.no_abort).unwrap_or(false), tmp: 0, depth: 0, locals: vec![], ret_ok: matches!(fi.sig.output, syn::ReturnType::Type(..)) }
    }
    fn cnt(&mut self, k: &str) { *self.counts.entry(k.into()).or_default() += 1; }
    fn fresh(&mut self, b: &str) -> syn::Ident { self.tmp += 1; syn::Ident::new(&format!("__{}{}", b, self.tmp), proc_macro2::Span::call_site()) }
    fn abort(&self) -> syn::Ident { syn::Ident::new(if self.strict { "abort_x_" } else { "abort_" }, proc_macro2::Span::call_site()) }
    fn bad(&mut self, s: impl Into<String>) { let s = s.into(); if !self.unsupported.contains(&s) { self.unsupported.push(s); } }

    pub fn run(&mut self, b: &mut syn::Block) {
        let mut pre = Loops(0);
        pre.visit_block_mut(b);
        if pre.0 > 0 { *self.counts.entry("iterator adaptors as loops".into()).or_default() += pre.0; }
        let mut inl = crate::inline::Inliner::new(self.ctx, &self.crate_, &self.module, &self.path);
        inl.run(b);
        for x in inl.inlined { self.inlined.insert(x); }
        for x in inl.unsupported { self.bad(x); }
        for (k, v) in inl.counts { *self.counts.entry(k).or_default() += v; }
        let _ = self.depth; let _ = &self.locals; let _ = self.ret_ok;
        self.visit_block_mut(b);
    }

    fn expand_macro(&mut self, m: &syn::Macro) -> Option<Expr> {
        let name = m.path.segments.last().unwrap().ident.to_string();
        match name.as_str() {
            "ensure" => {
                let a = mac_args(m)?;
                let (c, e) = (&a[0], &a[1]);
                self.cnt("ensure!");
                Some(parse_quote!(if !(#c) { return Err(From::from(#e)); }))
            }
            "ensure_eq" => {
                let a = mac_args(m)?;
                let (x, y, e) = (&a[0], &a[1], &a[2]);
                self.cnt("ensure_eq!");
                Some(parse_quote!(if !(#x == #y) { return Err(From::from(#e)); }))
            }
            "ensure_ne" => {
                let a = mac_args(m)?;
                let (x, y, e) = (&a[0], &a[1], &a[2]);
                self.cnt("ensure_ne!");
                Some(parse_quote!(if (#x == #y) { return Err(From::from(#e)); }))
            }
            "format" => {
                self.cnt("format!");
                let a = mac_args(m)?;
                if a.len() == 2 {
                    if let Expr::Lit(l) = &a[0] {
                        if let syn::Lit::Str(s) = &l.lit {
                            if s.value() == "{:x}" { let e = &a[1]; return Some(parse_quote!(fmt_hex_(#e))); }
                            if s.value() == "{}" { let e = &a[1]; self.cnt("format!(\"{}\") as to_string"); return Some(parse_quote!((#e).to_string())); }
                        }
                    }
                }
                Some(parse_quote!(fmt_()))
            }
            "vec" => {
                let a = mac_args(m);
                match a {
                    Some(a) => {
                        let a: Vec<Expr> = a.into_iter().collect();
                        // keep the macro; its elements are visited separately
                        let mut v = vec![];
                        for mut e in a { self.visit_expr_mut(&mut e); v.push(e); }
                        Some(parse_quote!(__vec_!(#(#v),*)))
                    }
                    None => { self.bad("vec![x; n]"); None }
                }
            }
            "unreachable" | "panic" | "unimplemented" | "todo" => { self.cnt("abort macros"); let a = self.abort(); Some(parse_quote!(#a())) }
            "assert" => { let a = mac_args(m)?; let c = &a[0]; self.cnt("assert!"); let ab = self.abort(); Some(parse_quote!(if !(#c) { #ab() })) }
            "assert_eq" => { let a = mac_args(m)?; let (x, y) = (&a[0], &a[1]); self.cnt("assert!"); let ab = self.abort(); Some(parse_quote!(if !(#x == #y) { #ab() })) }
            "matches" => {
                use syn::parse::Parser;
                let p = |i: syn::parse::ParseStream| -> syn::Result<(Expr, syn::Pat)> {
                    let e: Expr = i.parse()?; i.parse::<syn::Token![,]>()?; let p = syn::Pat::parse_multi(i)?; let _ = i.parse::<Option<syn::Token![,]>>(); Ok((e, p))
                };
                match p.parse2(m.tokens.clone()) {
                    Ok((e, p)) => Some(parse_quote!((match #e { #p => true, _ => false }))),
                    Err(_) => { self.bad("matches! with guard"); None }
                }
            }
            "__loop_spec" | "__vec_" => None,
            "debug_assert" | "println" | "eprintln" | "debug_assert_eq" => Some(parse_quote!(())),
            o => { self.bad(format!("macro {}!", o)); None }
        }
    }
}

fn resultish_turbofish(m: &syn::ExprMethodCall) -> bool {
    m.turbofish.as_ref().map(|t| { let s = quote::quote!(#t).to_string().replace(' ', ""); s.contains("StdResult<") || s.contains("Result<") }).unwrap_or(false)
}
fn may_abort(e: &Expr) -> bool {
    struct V(bool);
    impl<'a> syn::visit::Visit<'a> for V {
        fn visit_expr_method_call(&mut self, m: &'a syn::ExprMethodCall) {
            if ["unwrap", "expect", "unwrap_err", "expect_err"].contains(&m.method.to_string().as_str()) { self.0 = true; }
            syn::visit::visit_expr_method_call(self, m);
        }
        fn visit_expr_binary(&mut self, b: &'a syn::ExprBinary) {
            if matches!(b.op, syn::BinOp::Sub(_) | syn::BinOp::Div(_) | syn::BinOp::Rem(_)) { self.0 = true; }
            syn::visit::visit_expr_binary(self, b);
        }
        fn visit_expr_index(&mut self, _: &'a syn::ExprIndex) { self.0 = true; }
        fn visit_macro(&mut self, m: &'a syn::Macro) { let n = m.path.segments.last().unwrap().ident.to_string(); if n == "panic" || n == "unreachable" { self.0 = true; } }
    }
    let mut v = V(false);
    syn::visit::Visit::visit_expr(&mut v, e);
    v.0
}
/// a comparison of places, as spec text over one element; None if the body is anything else
fn simple_cond(p: &syn::Pat, b: &Expr) -> Option<proc_macro2::TokenStream> {
    fn place(e: &Expr) -> Option<Expr> {
        match e {
            Expr::Path(_) => Some(e.clone()),
            Expr::Field(f) => { let b = place(&f.base)?; let m = &f.member; Some(parse_quote!(#b.#m)) }
            Expr::Paren(p) => place(&p.expr),
            Expr::Unary(u) if matches!(u.op, syn::UnOp::Deref(_)) => { let x = place(&u.expr)?; Some(parse_quote!(*#x)) }
            Expr::Reference(r) => { let x = place(&r.expr)?; Some(parse_quote!(&#x)) }
            Expr::MethodCall(m) if m.args.is_empty() && ["as_ref", "clone", "as_str"].contains(&m.method.to_string().as_str()) => place(&m.receiver),
            _ => None,
        }
    }
    let b = match b { Expr::Block(x) if x.block.stmts.len() == 1 => match &x.block.stmts[0] { Stmt::Expr(y, None) => y, _ => return None }, o => o };
    let Expr::Binary(x) = b else { return None };
    let (l, r) = (place(&x.left)?, place(&x.right)?);
    if !matches!(p, syn::Pat::Ident(_)) { return None; }
    match x.op {
        syn::BinOp::Eq(_) => Some(quote::quote!({ let #p = __IT__.v@[__j]; EqOp::eq_spec(&#l, &#r) })),
        syn::BinOp::Ne(_) => Some(quote::quote!({ let #p = __IT__.v@[__j]; !EqOp::eq_spec(&#l, &#r) })),
        _ => None,
    }
}

fn closure1(e: &Expr) -> Option<(&syn::Pat, &Expr)> {
    if let Expr::Closure(c) = e { if c.inputs.len() == 1 { return Some((&c.inputs[0], &c.body)); } }
    None
}
fn has_return_or_try(e: &Expr) -> bool {
    struct V(bool);
    impl<'a> syn::visit::Visit<'a> for V {
        fn visit_expr_return(&mut self, _: &'a syn::ExprReturn) { self.0 = true; }
        fn visit_expr_try(&mut self, _: &'a syn::ExprTry) { self.0 = true; }
        fn visit_expr_closure(&mut self, _: &'a syn::ExprClosure) {}
    }
    let mut v = V(false);
    syn::visit::visit_expr(&mut v, e);
    if matches!(e, Expr::Return(_) | Expr::Try(_)) { v.0 = true; }
    v.0
}
fn chain_has(e: &Expr, names: &[&str]) -> bool {
    match e {
        Expr::MethodCall(m) => names.contains(&m.method.to_string().as_str()) || chain_has(&m.receiver, names),
        _ => false,
    }
}
/// the name at the root of a method chain: `asks().idx.x.range(..)` -> asks
fn chain_root(e: &Expr) -> Option<String> {
    match e {
        Expr::MethodCall(m) => chain_root(&m.receiver),
        Expr::Field(f) => chain_root(&f.base),
        Expr::Paren(p) => chain_root(&p.expr),
        Expr::Call(c) => chain_root(&c.func),
        Expr::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()),
        _ => None,
    }
}
const RANGE: &[&str] = &["range", "prefix_range"];
const ITER: &[&str] = &["iter", "into_iter", "range", "keys", "take", "skip", "filter", "iter_mut", "it_", "into_it_", "chars", "enumerate", "rev"];

/// does the closure `|r| r.map(|(_, v)| v)` (or a spelling of it) project values / keys
fn projection(e: &Expr) -> Option<&'static str> {
    let (p, b) = closure1(e)?;
    let strip = |e: &Expr| -> Expr { match e { Expr::Block(b) if b.block.stmts.len() == 1 => match &b.block.stmts[0] { Stmt::Expr(e, None) => e.clone(), _ => e_clone(e_dummy()) }, Expr::Paren(p) => (*p.expr).clone(), o => o.clone() } };
    fn e_dummy() -> Expr { parse_quote!(()) }
    fn e_clone(e: Expr) -> Expr { e }
    let pn = if let syn::Pat::Ident(i) = p { i.ident.to_string() } else { return None };
    let b = strip(b);
    let txt = quote::quote!(#b).to_string().replace(' ', "");
    // r.map(|(_,v)|v)
    if let Expr::MethodCall(m) = &b {
        if m.method == "map" && m.args.len() == 1 {
            let rc = &m.receiver;
            if quote::quote!(#rc).to_string() == pn {
                let (ip, ib) = closure1(&m.args[0])?;
                let ibs = { let x = strip(ib); quote::quote!(#x).to_string().replace(' ', "") };
                match ip {
                    syn::Pat::Tuple(t) if t.elems.len() == 2 => {
                        if let syn::Pat::Ident(v) = &t.elems[1] { if ibs == v.ident.to_string() { return Some("values_"); } }
                        if let syn::Pat::Ident(k) = &t.elems[0] {
                            if ibs == k.ident.to_string() { return Some("keys_"); }
                            if ibs == format!("{}.0", k.ident) { return Some("keys0_"); }
                        }
                    }
                    syn::Pat::Ident(v) => {
                        if ibs == format!("{}.1", v.ident) { return Some("values_"); }
                        if ibs == format!("{}.0", v.ident) { return Some("keys_"); }
                    }
                    _ => {}
                }
            }
        }
    }
    if txt == format!("Ok({}?.1)", pn) { return Some("values_"); }
    None
}

impl<'a> VisitMut for Xf<'a> {
    fn visit_type_mut(&mut self, t: &mut syn::Type) { Types.visit_type_mut(t); }
    fn visit_path_mut(&mut self, p: &mut syn::Path) {
        fix_path(p);
        for s in p.segments.iter_mut() {
            if ["Response", "SubMsg", "CosmosMsg", "QuerierWrapper"].contains(&s.ident.to_string().as_str()) { s.arguments = syn::PathArguments::None; }
            self.visit_path_arguments_mut(&mut s.arguments);
        }
    }
    fn visit_attribute_mut(&mut self, _: &mut syn::Attribute) {}

    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        let stmts = std::mem::take(&mut b.stmts);
        let mut out: Vec<Stmt> = vec![];
        for mut s in stmts {
            match &mut s {
                Stmt::Macro(m) => {
                    let n = m.mac.path.segments.last().unwrap().ident.to_string();
                    if n == "__loop_spec" { out.push(s); continue; }
                    let semi = m.semi_token.is_some();
                    if let Some(e) = self.expand_macro(&m.mac.clone()) {
                        if let Expr::Macro(em) = &e { if em.mac.path.is_ident("__vec_") { let mut em = em.clone(); em.mac.path = parse_quote!(vec); let e = Expr::Macro(em); out.push(if semi { parse_quote!(#e;) } else { Stmt::Expr(e, None) }); continue; } }
                        let mut e = e;
                        self.visit_expr_mut(&mut e);
                        if semi { out.push(Stmt::Expr(e, Some(Default::default()))); } else { out.push(Stmt::Expr(e, None)); }
                    }
                }
                Stmt::Local(l) => {
                    l.attrs.clear();
                    if let syn::Pat::Type(pt) = &mut l.pat { Types.visit_type_mut(&mut pt.ty); }
                    // `(_, x) = f();` style is an expression; here only initialisers
                    if let Some(init) = &mut l.init {
                        self.visit_expr_mut(&mut init.expr);
                        if let Some((_, d)) = &mut init.diverge { self.visit_expr_mut(d); }
                    }
                    visit_mut::visit_pat_mut(self, &mut l.pat);
                    // let PAT = e else { d };
                    if let Some(init) = &l.init {
                        if let Some((_, d)) = &init.diverge {
                            let names = pat_idents(&l.pat);
                            let (p, e) = (&l.pat, &init.expr);
                            self.cnt("let-else");
                            let pp: syn::Pat = if names.len() == 1 { let n = &names[0]; parse_quote!(#n) } else { parse_quote!((#(#names),*)) };
                            out.push(parse_quote!(let #pp = match #e { #p => { (#(#names),*) } _ => #d };));
                            continue;
                        }
                    }
                    out.push(s);
                }
                Stmt::Item(syn::Item::Use(_)) => {}
                Stmt::Item(syn::Item::Const(_)) => out.push(s),
                Stmt::Item(_) => { self.bad("nested item"); }
                Stmt::Expr(e, semi) => {
                    // destructuring assignment  (_, x) = e;
                    if let Expr::Assign(a) = e {
                        if let Expr::Tuple(t) = &*a.left {
                            self.cnt("destructuring assignment");
                            let mut names = vec![];
                            let mut assigns: Vec<Stmt> = vec![];
                            for el in t.elems.iter() {
                                if matches!(el, Expr::Infer(_)) { let n = self.fresh("u"); names.push(n); }
                                else { let n = self.fresh("d"); assigns.push(parse_quote!(#el = #n;)); names.push(n); }
                            }
                            let mut r = (*a.right).clone();
                            self.visit_expr_mut(&mut r);
                            out.push(parse_quote!(let (#(#names),*) = #r;));
                            out.extend(assigns);
                            continue;
                        }
                    }
                    self.visit_expr_mut(e);
                    let _ = semi;
                    out.push(s);
                }
            }
        }
        b.stmts = out;
    }

    fn visit_local_mut(&mut self, _l: &mut syn::Local) { unreachable!() }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // ---- pre-order rewrites
        if let Some(x) = range_contains(e) { *e = x; self.cnt("range contains as comparisons"); }
        match e {
            Expr::Macro(m) => {
                let n = m.mac.path.segments.last().unwrap().ident.to_string();
                if n == "__vec_" { return; }
                if let Some(mut x) = self.expand_macro(&m.mac.clone()) {
                    if let Expr::Macro(em) = &mut x {
                        if em.mac.path.is_ident("__vec_") { em.mac.path = parse_quote!(vec); *e = x; return; }
                    }
                    self.visit_expr_mut(&mut x);
                    *e = x;
                }
                return;
            }
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                if EVENTISH.contains(&name.as_str()) {
                    // event contents are dropped (they carry no funds, assets or state)
                    self.cnt("event arguments dropped");
                    let mut r = (*m.receiver).clone();
                    self.visit_expr_mut(&mut r);
                    let id = syn::Ident::new(&format!("{}_", name), proc_macro2::Span::call_site());
                    // where the function must not abort, an argument that may abort is kept
                    let keep: Vec<Expr> = if self.strict { m.args.iter().filter(|a| may_abort(a)).cloned().collect() } else { vec![] };
                    if keep.is_empty() { *e = parse_quote!(#r.#id()); return; }
                    let mut binds: Vec<Stmt> = vec![];
                    for mut a in keep { self.visit_expr_mut(&mut a); let u = self.fresh("ev"); binds.push(parse_quote!(let #u = #a;)); }
                    let t = self.fresh("er");
                    *e = parse_quote!({ let #t = #r; #(#binds)* #t.#id() });
                    return;
                }
                if name == "filter" && m.args.len() == 1 && chain_has(&m.receiver, RANGE) {
                    // a condition on the stored record; its closure goes to the verifier as a specification
                    let Some((syn::Pat::Ident(pi), b)) = closure1(&m.args[0]) else { self.bad("filter over a range without a closure"); return };
                    let Some(vt) = chain_root(&m.receiver).and_then(|n| self.ctx.map_vals.get(&n)) else { self.bad("filter over a range of an unknown map"); return };
                    let vt = quote::quote!(#vt).to_string();
                    let mut bad = None;
                    let txt = crate::slots::to_spec(&b, &mut bad);
                    if let Some(b) = bad { self.bad(format!("filter over a range: {}", b)); return; }
                    let t: proc_macro2::TokenStream = match format!("Ghost(|__row: {}| {{ let {} = Ok::<_, StdError>(((), __row)); {} }})", vt, pi.ident, txt).parse() { Ok(t) => t, Err(_) => { self.bad("filter over a range"); return } };
                    self.cnt("filter over a range as a condition on the record");
                    let mut r = (*m.receiver).clone();
                    self.visit_expr_mut(&mut r);
                    let t = Expr::Verbatim(t);
                    *e = parse_quote!(#r.filter_(#t));
                    return;
                }
                if name == "map" && m.args.len() == 1 {
                    if let Some(p) = projection(&m.args[0]) {
                        self.cnt("iterator projection");
                        let mut r = (*m.receiver).clone();
                        self.visit_expr_mut(&mut r);
                        let id = syn::Ident::new(p, proc_macro2::Span::call_site());
                        *e = parse_quote!(#r.#id());
                        return;
                    }
                }
                if name == "collect" {
                    if let Expr::MethodCall(mm) = &*m.receiver {
                        if mm.method == "map" && mm.args.len() == 1 && projection(&mm.args[0]).is_none() {
                            if let Some((p, b)) = closure1(&mm.args[0]) {
                                let r = &mm.receiver;
                                let inner = match (&p, &b) { (syn::Pat::Ident(i), Expr::MethodCall(im)) if im.method == "map" && im.args.len() == 1 => { let ir = &im.receiver; if quote::quote!(#ir).to_string() == i.ident.to_string() { closure1(&im.args[0]) } else { None } } _ => None };
                                let plain = matches!(&**r, Expr::MethodCall(x) if (x.method == "iter" || x.method == "into_iter") && x.args.is_empty());
                                if let Some((ip, ib)) = inner {
                                    if !has_return_or_try(&ib) {
                                        self.cnt("map/collect as a loop");
                                        *e = parse_quote!(match #r.pairs_().collect_() { Ok(__ps) => { let mut __coll = Vec::new(); for #ip in __ps { __coll.push(#ib); } Ok(__coll) } Err(__e) => Err(__e) });
                                        self.visit_expr_mut(e);
                                        return;
                                    }
                                } else if plain && !has_return_or_try(&b) && resultish_turbofish(m) {
                                    self.cnt("map/collect as a loop");
                                    *e = parse_quote!({ let mut __coll = Vec::new(); let mut __cerr = None; for #p in #r { __auto_inv!(__cerr is None); match #b { Ok(__cv) => { __coll.push(__cv); } Err(__cx) => { __cerr = Some(__cx); break; } } } match __cerr { None => Ok(__coll), Some(__cx) => Err(__cx) } });
                                    self.visit_expr_mut(e);
                                    return;
                                } else if plain && !has_return_or_try(&b) {
                                    self.cnt("map/collect as a loop");
                                    *e = parse_quote!({ let mut __coll = Vec::new(); for #p in #r { __coll.push(#b); } __coll });
                                    self.visit_expr_mut(e);
                                    return;
                                }
                            }
                        }
                    }
                }
                if name == "branch" && m.args.is_empty() {
                    self.cnt("DepsMut::branch as a struct literal");
                    let mut r = (*m.receiver).clone();
                    self.visit_expr_mut(&mut r);
                    *e = parse_quote!(DepsMut { storage: &mut *#r.storage, api: #r.api, querier: #r.querier });
                    return;
                }
                if name == "unpack" && m.args.len() == 3 {
                    let mut c = m.args[0].clone();
                    while let Expr::Reference(r) = &c { c = (*r.expr).clone(); }
                    while let Expr::Paren(r) = &c { c = (*r.expr).clone(); }
                    if let Some((p, b)) = closure1(&c) {
                        let pn = quote::quote!(#p).to_string();
                        let bs = quote::quote!(#b).to_string().replace(' ', "");
                        let a = m.args.iter().skip(1).cloned().collect::<Vec<_>>();
                        let mut r = (*m.receiver).clone();
                        self.visit_expr_mut(&mut r);
                        if bs == format!("{}.clone()", pn) || bs == format!("{}.to_string()", pn) {
                            *e = parse_quote!(#r.unpack_id_(#(#a),*)); self.cnt("query bound closure"); return;
                        }
                        if bs == format!("({0}.amount,{0}.id.clone())", pn) {
                            *e = parse_quote!(#r.unpack_price_(#(#a),*)); self.cnt("query bound closure"); return;
                        }
                        self.bad(format!("query bound closure {}", bs));
                        return;
                    }
                }
                if m.args.len() >= 1 && !chain_has(&m.receiver, ITER) {
                    if let Some(x) = self.option_combinator(m) { *e = x; self.visit_expr_mut(e); return; }
                }
                if (name == "any" || name == "position" || name == "all") && m.args.len() == 1 {
                    if let Some((p, b)) = closure1(&m.args[0]) {
                        let recv = &m.receiver;
                        let (r, x, i) = (self.fresh("r"), self.fresh("x"), self.fresh("i"));
                        self.cnt("iterator any/all/position");
                        // while the loop runs, no element so far has decided the result
                        let q = match simple_cond(p, b) {
                            Some(c) if name == "all" => quote::quote!(, forall|__j: int| #![trigger __IT__.v@[__j]] 0 <= __j < __IT__.i@ ==> #c),
                            Some(c) => quote::quote!(, forall|__j: int| #![trigger __IT__.v@[__j]] 0 <= __j < __IT__.i@ ==> !#c),
                            None => quote::quote!(),
                        };
                        let it: Expr = match name.as_str() {
                            "any" => parse_quote!({ let mut #r = false; for #x in #recv { __auto_inv!(!#r #q); let #p = #x; if #b { #r = true; break; } } #r }),
                            "all" => parse_quote!({ let mut #r = true; for #x in #recv { __auto_inv!(#r #q); let #p = #x; if !(#b) { #r = false; break; } } #r }),
                            _ => parse_quote!({ let mut #r: Option<usize> = None; let mut #i: usize = 0; for #x in #recv { __auto_inv!(#r is None, #i as int == __IT__.i@ #q); let #p = #x; if #b { #r = Some(#i); break; } #i = #i + 1; } #r }),
                        };
                        *e = it;
                        self.visit_expr_mut(e);
                        return;
                    }
                }
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let s: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    if s.len() >= 2 && s[s.len() - 2] == "Event" && s[s.len() - 1] == "new" {
                        self.cnt("event arguments dropped");
                        *e = parse_quote!(Event::new_());
                        return;
                    }
                }
            }
            Expr::Match(m) if m.arms.iter().any(|a| a.guard.is_some()) => { if unguard(m) { self.cnt("match guards as if"); } }
            Expr::ForLoop(f) => {
                if f.label.is_some() { self.bad("labelled loop"); return; }
                if let Some(x) = unroll(f) { self.cnt("loops over a literal list written out"); *e = x; self.visit_expr_mut(e); return; }
                let mut it = (*f.expr).clone();
                let mut body = f.body.clone();
                let mut pat = (*f.pat).clone();
                let mut auto: proc_macro2::TokenStream = Default::default();
                if let Some(Stmt::Macro(m)) = body.stmts.first() { if m.mac.path.is_ident("__auto_inv") { auto = m.mac.tokens.clone(); body.stmts.remove(0); } }
                let n = self.nloops;
                self.nloops += 1;
                self.loop_own.push(auto.to_string().contains("forall"));
                let mut ch = changed(&body, &pat_idents(&pat));
                let fl: BTreeSet<String> = if auto.is_empty() { first_exit(&body, &ch) } else { let t = auto.to_string(); ch.retain(|v| !t.split_whitespace().any(|w| w == v)); Default::default() };
                ch.retain(|v| !fl.contains(v));
                self.loop_vars.push(ch);
                let mut ghost: Vec<Stmt> = vec![];
                for v in &fl {
                    let (vi, gi) = (syn::Ident::new(v, proc_macro2::Span::call_site()), syn::Ident::new(&format!("__f{}_{}", n, v), proc_macro2::Span::call_site()));
                    ghost.push(parse_quote!(__ghost_let!(#gi, #vi);));
                    auto = if auto.is_empty() { quote::quote!(#vi == #gi) } else { quote::quote!(#auto, #vi == #gi) };
                    self.cnt("variable set only on leaving a loop");
                }
                if chain_has(&it, RANGE) && !chain_has(&it, &["collect", "map", "count"]) { self.cnt("range walked by a for loop"); it = parse_quote!(#it.items_()); }
                self.visit_expr_mut(&mut it);
                self.visit_block_mut(&mut body);
                self.visit_pat_mut(&mut pat);
                let id = syn::Ident::new(&format!("__it{}", n), proc_macro2::Span::call_site());
                let nn = syn::LitInt::new(&n.to_string(), proc_macro2::Span::call_site());
                self.cnt("for loop");
                let bs = &body.stmts;
                let id2 = id.clone();
                *e = parse_quote!({ let mut #id = IntoIt::it_(#it); #(#ghost)* loop { __loop_spec!(#nn, #id2, #auto); match #id.next_() { None => { break; } Some(#pat) => { #(#bs)* } } } });
                return;
            }
            Expr::While(w) => {
                if w.label.is_some() { self.bad("labelled loop"); return; }
                let n = self.nloops;
                self.nloops += 1;
                self.loop_own.push(false);
                self.loop_vars.push(changed(&w.body, &[]));
                let nn = syn::LitInt::new(&n.to_string(), proc_macro2::Span::call_site());
                self.visit_expr_mut(&mut w.cond);
                self.visit_block_mut(&mut w.body);
                let (c, bs) = (&w.cond, &w.body.stmts);
                if let Expr::Let(l) = &**c {
                    let (p, x) = (&l.pat, &l.expr);
                    *e = parse_quote!(loop { __loop_spec!(#nn); match #x { #p => { #(#bs)* } _ => { break; } } });
                } else {
                    *e = parse_quote!(while #c { __loop_spec!(#nn); #(#bs)* });
                }
                return;
            }
            Expr::Loop(l) => {
                if l.label.is_some() { self.bad("labelled loop"); return; }
                let n = self.nloops;
                self.nloops += 1;
                self.loop_own.push(false);
                self.loop_vars.push(changed(&l.body, &[]));
                let nn = syn::LitInt::new(&n.to_string(), proc_macro2::Span::call_site());
                self.visit_block_mut(&mut l.body);
                let bs = &l.body.stmts;
                *e = parse_quote!(loop { __loop_spec!(#nn); #(#bs)* });
                return;
            }
            Expr::Closure(c) => {
                for p in c.inputs.iter_mut() { self.visit_pat_mut(p); }
                self.visit_expr_mut(&mut c.body);
                return;
            }
            _ => {}
        }
        // ---- children
        visit_mut::visit_expr_mut(self, e);
        // ---- post-order rewrites
        match e {
            Expr::Binary(b) => {
                use syn::BinOp::*;
                let (l, r) = (&b.left, &b.right);
                let strict = self.strict;
                let by_val = |n: &str| { let i = syn::Ident::new(n, proc_macro2::Span::call_site()); i };
                let tr = |s: &str| syn::Ident::new(s, proc_macro2::Span::call_site());
                let x: Option<Expr> = match b.op {
                    Add(_) => { let (t, f) = (tr("AddOp"), by_val("add_op")); Some(parse_quote!(#t::#f(#l, #r))) }
                    Sub(_) => { let (t, f) = (tr("SubOp"), by_val(if strict { "sub_x" } else { "sub_op" })); Some(parse_quote!(#t::#f(#l, #r))) }
                    Mul(_) => { let (t, f) = (tr("MulOp"), by_val("mul_op")); Some(parse_quote!(#t::#f(#l, #r))) }
                    Div(_) => { let (t, f) = (tr("DivOp"), by_val(if strict { "div_x" } else { "div_op" })); Some(parse_quote!(#t::#f(#l, #r))) }
                    Rem(_) => { let (t, f) = (tr("RemOp"), by_val(if strict { "rem_x" } else { "rem_op" })); Some(parse_quote!(#t::#f(#l, #r))) }
                    Eq(_) => Some(parse_quote!(EqOp::eq_op(&#l, &#r))),
                    Ne(_) => Some(parse_quote!(!EqOp::eq_op(&#l, &#r))),
                    Lt(_) => Some(parse_quote!(OrdOp::lt_op(&#l, &#r))),
                    Le(_) => Some(parse_quote!(OrdOp::le_op(&#l, &#r))),
                    Gt(_) => Some(parse_quote!(OrdOp::gt_op(&#l, &#r))),
                    Ge(_) => Some(parse_quote!(OrdOp::ge_op(&#l, &#r))),
                    AddAssign(_) => Some(parse_quote!(#l = AddOp::add_op(#l, #r))),
                    SubAssign(_) => { let f = by_val(if strict { "sub_x" } else { "sub_op" }); Some(parse_quote!(#l = SubOp::#f(#l, #r))) }
                    MulAssign(_) => Some(parse_quote!(#l = MulOp::mul_op(#l, #r))),
                    DivAssign(_) => { let f = by_val(if strict { "div_x" } else { "div_op" }); Some(parse_quote!(#l = DivOp::#f(#l, #r))) }
                    And(_) | Or(_) => None,
                    BitXor(_) | BitAnd(_) | BitOr(_) | Shl(_) | Shr(_) => None,
                    _ => { None }
                };
                if let Some(x) = x { self.cnt("operators as calls"); *e = x; }
            }
            Expr::MethodCall(m) if m.method == "into" && m.args.is_empty() => {
                let r = &m.receiver;
                self.cnt(".into() -> From::from");
                *e = parse_quote!(From::from(#r));
            }
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                let nn = match n.as_str() {
                    "clone" => "dup",
                    "to_owned" => "dup",
                    "to_string" => "to_string_",
                    "to_be_bytes" => "to_be_bytes_",
                    "unwrap" => if self.strict { "unwrap_x" } else { "unwrap_a" },
                    "iter" | "into_iter" => if n == "iter" { "iter_" } else { "into_iter_" },
                    "collect" => "collect_",
                    "join" => "join_",
                    "is_err" | "is_ok" => &n,
                    "wrapping_add" => "wrapping_add_",
                    "wrapping_sub" => "wrapping_sub_",
                    "saturating_sub" => "saturating_sub_",
                    "saturating_add" => "saturating_add_",
                    "checked_add" => "checked_add_",
                    "checked_sub" => "checked_sub_",
                    "checked_mul" => "checked_mul_",
                    "parse" => "parse_",
                    "sort" => "sort_",
                    "dedup" => "dedup_",
                    "transpose" => "transpose_",
                    "max" => "max_",
                    "min" => "min_",
                    "expect" => if self.strict { "unwrap_x" } else { "expect_" },
                    "contains" => "contains_",
                    "append" => match m.args.first() { Some(Expr::Reference(r)) if r.mutability.is_some() && !matches!(&*r.expr, Expr::Path(_)) => { let x = (*r.expr).clone(); m.args[0] = x; "append_v_" } _ => "append_" },
                    "first" => "first_",
                    "last" => "last_",
                    "unwrap_or_default" => "unwrap_or_default_",
                    "unwrap_err" => if self.strict { "unwrap_err_x" } else { "unwrap_err_" },
                    "cmp" => "cmp_",
                    "extend" => "extend_",
                    _ => &n,
                };
                if nn != n {
                    m.method = syn::Ident::new(nn, proc_macro2::Span::call_site());
                    if nn == "collect_" || nn == "parse_" { m.turbofish = None; }
                    if n == "expect" { m.args.clear(); }
                    let k = format!(".{}() -> .{}()", n, nn);
                    self.cnt(&k);
                }
            }
            Expr::Lit(l) => {
                if matches!(l.lit, syn::Lit::Str(_)) { let x = l.clone(); *e = parse_quote!(S_(#x)); self.cnt("string literal"); }
            }
            Expr::Path(p) => {
                let last = p.path.segments.last().unwrap().ident.to_string();
                if self.ctx.str_consts.contains(&last) { let x = p.clone(); *e = parse_quote!(S_(#x)); }
            }
            Expr::Cast(c) => {
                let mut v = None;
                if let Expr::Path(p) = &*c.expr {
                    let n = p.path.segments.len();
                    if n >= 2 { v = self.ctx.discr.get(&(p.path.segments[n - 2].ident.to_string(), p.path.segments[n - 1].ident.to_string())).cloned(); }
                }
                if let Some(v) = v {
                    let t = &c.ty;
                    let l = syn::LitInt::new(&format!("{}{}", v, quote::quote!(#t)), proc_macro2::Span::call_site());
                    self.cnt("enum value as a number");
                    *e = parse_quote!(#l);
                }
            }
            Expr::Async(_) | Expr::Await(_) | Expr::Unsafe(_) | Expr::Yield(_) => self.bad("async/unsafe"),
            _ => {}
        }
    }
}

/// `for P in [a, b] { body }` as `{ let P = a; body } { let P = b; body }`
fn unroll(f: &syn::ExprForLoop) -> Option<Expr> {
    let mut it = &*f.expr;
    loop {
        it = match it {
            Expr::Paren(p) => &p.expr,
            Expr::MethodCall(m) if m.method == "into_iter" && m.args.is_empty() => &m.receiver,
            Expr::Reference(r) => &r.expr,
            _ => break,
        }
    }
    let Expr::Array(a) = it else { return None };
    if a.elems.len() > 6 { return None; }
    struct V { ok: bool, cont: bool, ret: bool }
    impl<'b> syn::visit::Visit<'b> for V {
        fn visit_expr_break(&mut self, _: &'b syn::ExprBreak) { self.ok = false; }
        fn visit_expr_continue(&mut self, _: &'b syn::ExprContinue) { self.cont = true; }
        fn visit_expr_return(&mut self, r: &'b syn::ExprReturn) { if !matches!(r.expr.as_deref(), Some(Expr::Call(c)) if matches!(&*c.func, Expr::Path(p) if p.path.is_ident("Err"))) { self.ret = true; } }
        fn visit_expr_for_loop(&mut self, _: &'b syn::ExprForLoop) { self.ok = false; }
        fn visit_expr_while(&mut self, _: &'b syn::ExprWhile) { self.ok = false; }
        fn visit_expr_loop(&mut self, _: &'b syn::ExprLoop) { self.ok = false; }
        fn visit_expr_closure(&mut self, _: &'b syn::ExprClosure) {}
    }
    let mut v = V { ok: true, cont: false, ret: false };
    syn::visit::Visit::visit_block(&mut v, &f.body);
    if !v.ok || (v.cont && v.ret) { return None; }
    let mut body = f.body.clone();
    if v.cont {
        struct C;
        impl VisitMut for C { fn visit_expr_mut(&mut self, e: &mut Expr) { if let Expr::Continue(_) = e { *e = parse_quote!(return); } else { visit_mut::visit_expr_mut(self, e); } } fn visit_expr_closure_mut(&mut self, _: &mut syn::ExprClosure) {} }
        C.visit_block_mut(&mut body);
        if !crate::returns::eliminate(&mut body, true, None) { return None; }
    }
    let p = &f.pat;
    let mut names = vec![];
    let mut binds: Vec<Stmt> = vec![];
    for (i, x) in a.elems.iter().enumerate() { let n = syn::Ident::new(&format!("__ar{}", i), proc_macro2::Span::call_site()); binds.push(parse_quote!(let #n = #x;)); names.push(n); }
    let bs = &body.stmts;
    let runs: Vec<Stmt> = names.iter().map(|n| -> Stmt { Stmt::Expr(parse_quote!({ let #p = #n; #(#bs)* }), Some(Default::default())) }).collect();
    Some(parse_quote!({ #(#binds)* #(#runs)* }))
}

/// `P if G => A, .., Q => B`, where Q is the arm a failed guard falls to, as `P => if G { A } else { B }`
fn unguard(m: &mut syn::ExprMatch) -> bool {
    fn ctor(p: &syn::Pat) -> Option<String> {
        match p {
            syn::Pat::TupleStruct(t) => Some(t.path.segments.last()?.ident.to_string()),
            syn::Pat::Struct(t) => Some(t.path.segments.last()?.ident.to_string()),
            syn::Pat::Path(t) => Some(t.path.segments.last()?.ident.to_string()),
            syn::Pat::Ident(i) if i.ident.to_string().starts_with(|c: char| c.is_uppercase()) => Some(i.ident.to_string()),
            _ => None,
        }
    }
    let mut done = false;
    for i in (0..m.arms.len()).rev() {
        if m.arms[i].guard.is_none() { continue; }
        let p = m.arms[i].pat.clone();
        let pt = quote::quote!(#p).to_string();
        let mut fall = None;
        for a in &m.arms[i + 1..] {
            let q = &a.pat;
            let any = matches!(q, syn::Pat::Wild(_)) || matches!((q, &p), (syn::Pat::TupleStruct(t), _) if ctor(&p) == ctor(q) && t.elems.iter().all(|x| matches!(x, syn::Pat::Wild(_) | syn::Pat::Rest(_))));
            if quote::quote!(#q).to_string() == pt || any {
                if a.guard.is_some() { break; }
                fall = Some((any, (*a.body).clone()));
                break;
            }
            match (ctor(q), ctor(&p)) { (Some(x), Some(y)) if x != y => continue, _ => break }
        }
        let Some((any, b)) = fall else { continue };
        if any {
            let names: Vec<String> = pat_idents(&p).iter().map(|x| x.to_string()).collect();
            fn toks(t: proc_macro2::TokenStream, n: &[String]) -> bool { t.into_iter().any(|x| match x { proc_macro2::TokenTree::Ident(i) => n.contains(&i.to_string()), proc_macro2::TokenTree::Group(g) => toks(g.stream(), n), _ => false }) }
            if toks(quote::quote!(#b), &names) { continue; }
        }
        let a = &mut m.arms[i];
        let (g, x) = (a.guard.take().unwrap().1, &a.body);
        a.body = Box::new(parse_quote!({ if #g { #x } else { #b } }));
        a.comma = Some(Default::default());
        done = true;
    }
    done
}

pub fn pat_idents(p: &syn::Pat) -> Vec<syn::Ident> {
    struct V(Vec<syn::Ident>);
    impl<'a> syn::visit::Visit<'a> for V {
        fn visit_pat_ident(&mut self, p: &'a syn::PatIdent) { self.0.push(p.ident.clone()); }
    }
    let mut v = V(vec![]);
    syn::visit::Visit::visit_pat(&mut v, p);
    v.0
}

impl<'a> Xf<'a> {
    /// is the expression known to be a Result (by the callee's signature, or by a method that only yields Results)
    fn is_result(&self, e: &Expr) -> bool {
        let ret = |name: &str, method: bool| -> bool {
            let c: Vec<&FnInfo> = self.ctx.fns.values().filter(|f| f.crate_ == self.crate_ && f.sig.ident == name && f.sig.receiver().is_some() == method).collect();
            !c.is_empty() && c.iter().all(|f| match &f.sig.output { syn::ReturnType::Type(_, t) => { let n = crate::type_name(t); n == "StdResult" || n.starts_with("Result<") || n.starts_with("StdResult<") } _ => false })
        };
        match e {
            Expr::Paren(p) => self.is_result(&p.expr),
            Expr::Match(m) => m.arms.iter().any(|a| matches!(&*a.body, Expr::Call(c) if matches!(&*c.func, Expr::Path(p) if p.path.is_ident("Ok") || p.path.is_ident("Err")))),
            Expr::Call(c) => match &*c.func {
                Expr::Path(p) => { let l = p.path.segments.last().unwrap().ident.to_string(); l == "Ok" || l == "Err" || (p.path.segments.len() == 1 && ret(&l, false)) || ["must_pay", "may_pay", "nonpayable", "maybe_addr", "to_json_binary"].contains(&l.as_str()) }
                _ => false,
            },
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                if ["map_err", "ok_or", "ok_or_else", "may_load", "addr_validate", "query_wasm_smart", "query_wasm_raw", "query_balance"].contains(&n.as_str()) { return true; }
                if n == "load" { return true; }
                if ["owner_of", "approval", "approvals", "all_operators"].contains(&n.as_str()) { return true; }
                ret(&n, true)
            }
            Expr::Block(b) => {
                let Some(Stmt::Expr(Expr::Path(p), None)) = b.block.stmts.last() else { return false };
                let Some(i) = p.path.get_ident() else { return false };
                b.block.stmts.iter().any(|s| matches!(s, Stmt::Local(l) if matches!(&l.pat, syn::Pat::Type(t) if matches!(&*t.pat, syn::Pat::Ident(x) if &x.ident == i) && { let n = crate::type_name(&t.ty); n == "StdResult" || n.starts_with("Result<") || n.starts_with("StdResult<") })))
            }
            _ => false,
        }
    }
    /// Option / Result combinators with a literal closure, written as `match`
    fn option_combinator(&mut self, m: &syn::ExprMethodCall) -> Option<Expr> {
        let r = &m.receiver;
        let n = m.method.to_string();
        let a: Vec<&Expr> = m.args.iter().collect();
        let app = |f: &Expr| -> Option<(syn::Pat, Expr)> {
            match f {
                Expr::Closure(c) if c.inputs.len() == 1 => Some((c.inputs[0].clone(), (*c.body).clone())),
                Expr::Path(p) => { let q = p.clone(); Some((parse_quote!(__v), parse_quote!(#q(__v)))) }
                _ => None,
            }
        };
        if self.is_result(r) {
            let x: Option<Expr> = match (n.as_str(), a.len()) {
                ("map", 1) => { let (p, b) = app(a[0])?; if has_return_or_try(&b) { return None; } let t = self.fresh("s"); Some(parse_quote!(match #r { Ok(#p) => Ok(#b), Err(#t) => Err(#t) })) }
                ("and_then", 1) => { let (p, b) = app(a[0])?; if has_return_or_try(&b) { return None; } let t = self.fresh("s"); Some(parse_quote!(match #r { Ok(#p) => #b, Err(#t) => Err(#t) })) }
                ("map_or", 2) => { let (p, b) = app(a[1])?; let d = a[0]; let t = self.fresh("o"); Some(parse_quote!({ let #t = #d; match #r { Ok(#p) => #b, Err(_) => #t } })) }
                ("is_ok_and", 1) => { let (p, b) = app(a[0])?; Some(parse_quote!((match #r { Ok(#p) => #b, Err(_) => false }))) }
                ("unwrap_or", 1) => { let d = a[0]; let (t, s) = (self.fresh("d"), self.fresh("s")); Some(parse_quote!({ let #t = #d; match #r { Ok(#s) => #s, Err(_) => #t } })) }
                ("unwrap_or_else", 1) => { let (p, b) = app(a[0])?; if has_return_or_try(&b) { return None; } let s = self.fresh("s"); Some(parse_quote!(match #r { Ok(#s) => #s, Err(#p) => #b })) }
                ("or_else", 1) => { let (p, b) = app(a[0])?; if has_return_or_try(&b) { return None; } let s = self.fresh("s"); Some(parse_quote!(match #r { Ok(#s) => Ok(#s), Err(#p) => #b })) }
                ("filter", _) | ("ok_or", _) | ("ok_or_else", _) | ("is_some_and", _) | ("is_none_or", _) => return None,
                _ => None,
            };
            if let Some(x) = x { self.cnt("Option/Result combinators as match"); return Some(x); }
        }
        let x: Expr = match (n.as_str(), a.len()) {
            ("map_or", 2) => { let (p, b) = app(a[1])?; let d = a[0]; let t = self.fresh("o"); parse_quote!({ let #t = #d; match #r { Some(#p) => #b, None => #t } }) }
            ("map_or_else", 2) => { let (p, b) = app(a[1])?; let Expr::Closure(d) = a[0] else { return None }; let d = &d.body; parse_quote!(match #r { Some(#p) => #b, None => #d }) }
            ("map", 1) => { let (p, b) = app(a[0])?; if has_return_or_try(&b) { return None; } parse_quote!(match #r { Some(#p) => Some(#b), None => None }) }
            ("and_then", 1) => { let (p, b) = app(a[0])?; if has_return_or_try(&b) { return None; } parse_quote!(match #r { Some(#p) => #b, None => None }) }
            ("filter", 1) => { let (p, b) = app(a[0])?; if has_return_or_try(&b) { return None; } let t = self.fresh("f"); parse_quote!(match #r { Some(#t) => { let __k = { let #p = &#t; #b }; if __k { Some(#t) } else { None } } None => None }) }
            ("is_some_and", 1) => { let (p, b) = app(a[0])?; parse_quote!((match #r { Some(#p) => #b, None => false })) }
            ("unwrap_or_else", 1) => { let Expr::Closure(c) = a[0] else { return None }; if !c.inputs.is_empty() { return None; } let b = &c.body; let t = self.fresh("s"); parse_quote!(match #r { Some(#t) => #t, None => #b }) }
            ("ok_or", 1) => { let d = a[0]; let t = self.fresh("s"); parse_quote!(match #r { Some(#t) => Ok(#t), None => Err(#d) }) }
            ("ok_or_else", 1) => { let Expr::Closure(c) = a[0] else { return None }; let b = &c.body; let t = self.fresh("s"); parse_quote!(match #r { Some(#t) => Ok(#t), None => Err(#b) }) }
            ("unwrap_or", 1) => { let d = a[0]; let (t, s) = (self.fresh("d"), self.fresh("s")); parse_quote!({ let #t = #d; match #r { Some(#s) => #s, None => #t } }) }
            ("or", 1) => { let d = a[0]; let (t, s) = (self.fresh("s"), self.fresh("d")); parse_quote!({ let #s = #d; match #r { Some(#t) => Some(#t), None => #s } }) }
            ("or_else", 1) => { let Expr::Closure(c) = a[0] else { return None }; if !c.inputs.is_empty() || has_return_or_try(&c.body) { return None; } let b = &c.body; let t = self.fresh("s"); parse_quote!(match #r { Some(#t) => Some(#t), None => #b }) }
            ("is_none_or", 1) => { let (p, b) = app(a[0])?; parse_quote!((match #r { Some(#p) => #b, None => true })) }
            ("map_err", 1) => { let (p, b) = app(a[0])?; if matches!(a[0], Expr::Path(_)) { return None; } let s = self.fresh("s"); parse_quote!(match #r { Ok(#s) => Ok(#s), Err(#p) => Err(#b) }) }
            _ => return None,
        };
        self.cnt("Option/Result combinators as match");
        Some(x)
    }
}

fn root_ident(e: &Expr) -> Option<String> {
    match e {
        Expr::Path(p) => p.path.get_ident().map(|i| i.to_string()),
        Expr::Field(f) => root_ident(&f.base),
        Expr::Index(f) => root_ident(&f.expr),
        Expr::Unary(u) => root_ident(&u.expr),
        Expr::Paren(u) => root_ident(&u.expr),
        _ => None,
    }
}
/// outer variables a loop body may change
fn changed(b: &syn::Block, pats: &[syn::Ident]) -> BTreeSet<String> {
    struct V { out: BTreeSet<String>, bound: BTreeSet<String> }
    const MUT: &[&str] = &["push", "insert", "remove", "extend", "append", "retain", "clear", "truncate", "pop", "push_str", "update"];
    impl<'b> syn::visit::Visit<'b> for V {
        fn visit_expr_assign(&mut self, a: &'b syn::ExprAssign) { if let Some(r) = root_ident(&a.left) { self.out.insert(r); } syn::visit::visit_expr_assign(self, a); }
        fn visit_expr_binary(&mut self, a: &'b syn::ExprBinary) {
            use syn::BinOp::*;
            if matches!(a.op, AddAssign(_) | SubAssign(_) | MulAssign(_) | DivAssign(_) | RemAssign(_) | BitOrAssign(_) | BitAndAssign(_) | BitXorAssign(_)) { if let Some(r) = root_ident(&a.left) { self.out.insert(r); } }
            syn::visit::visit_expr_binary(self, a);
        }
        fn visit_expr_reference(&mut self, a: &'b syn::ExprReference) { if a.mutability.is_some() { if let Some(r) = root_ident(&a.expr) { self.out.insert(r); } } syn::visit::visit_expr_reference(self, a); }
        fn visit_expr_method_call(&mut self, m: &'b syn::ExprMethodCall) { if MUT.contains(&m.method.to_string().as_str()) { if let Some(r) = root_ident(&m.receiver) { self.out.insert(r); } } syn::visit::visit_expr_method_call(self, m); }
        fn visit_pat_ident(&mut self, p: &'b syn::PatIdent) { self.bound.insert(p.ident.to_string()); }
    }
    let mut v = V { out: Default::default(), bound: pats.iter().map(|i| i.to_string()).collect() };
    syn::visit::Visit::visit_block(&mut v, b);
    v.out.difference(&v.bound).cloned().collect()
}
/// of those, the ones assigned only in a run of plain assignments ended by `break`
fn first_exit(b: &syn::Block, ch: &BTreeSet<String>) -> BTreeSet<String> {
    struct V { ok: BTreeMap<String, usize>, brk: bool }
    impl<'b> syn::visit::Visit<'b> for V {
        fn visit_block(&mut self, b: &'b syn::Block) {
            let n = b.stmts.len();
            if n >= 2 && matches!(&b.stmts[n - 1], Stmt::Expr(Expr::Break(_), _)) {
                for s in b.stmts[..n - 1].iter().rev() {
                    match s { Stmt::Expr(Expr::Assign(a), _) => { if let Expr::Path(p) = &*a.left { if let Some(i) = p.path.get_ident() { *self.ok.entry(i.to_string()).or_default() += 1; continue; } } break; } _ => break }
                }
            }
            syn::visit::visit_block(self, b);
        }
        fn visit_expr_for_loop(&mut self, _: &'b syn::ExprForLoop) { self.brk = true; }
        fn visit_expr_while(&mut self, _: &'b syn::ExprWhile) { self.brk = true; }
        fn visit_expr_loop(&mut self, _: &'b syn::ExprLoop) { self.brk = true; }
    }
    let mut v = V { ok: Default::default(), brk: false };
    syn::visit::Visit::visit_block(&mut v, b);
    if v.brk { return Default::default(); }
    struct N { all: BTreeMap<String, usize> }
    impl<'b> syn::visit::Visit<'b> for N {
        fn visit_expr_assign(&mut self, a: &'b syn::ExprAssign) { if let Some(r) = root_ident(&a.left) { *self.all.entry(r).or_default() += 1; } syn::visit::visit_expr_assign(self, a); }
        fn visit_expr_binary(&mut self, a: &'b syn::ExprBinary) { use syn::BinOp::*; if matches!(a.op, AddAssign(_) | SubAssign(_) | MulAssign(_) | DivAssign(_)) { if let Some(r) = root_ident(&a.left) { *self.all.entry(r).or_default() += 100; } } syn::visit::visit_expr_binary(self, a); }
        fn visit_expr_reference(&mut self, a: &'b syn::ExprReference) { if a.mutability.is_some() { if let Some(r) = root_ident(&a.expr) { *self.all.entry(r).or_default() += 100; } } syn::visit::visit_expr_reference(self, a); }
        fn visit_expr_method_call(&mut self, m: &'b syn::ExprMethodCall) { if ["push", "insert", "remove", "extend", "append", "retain", "clear", "truncate", "pop"].contains(&m.method.to_string().as_str()) { if let Some(r) = root_ident(&m.receiver) { *self.all.entry(r).or_default() += 100; } } syn::visit::visit_expr_method_call(self, m); }
    }
    let mut n = N { all: Default::default() };
    syn::visit::Visit::visit_block(&mut n, b);
    ch.iter().filter(|x| v.ok.get(*x).is_some() && v.ok.get(*x) == n.all.get(*x)).cloned().collect()
}
fn has_return(b: &Expr, tries: bool) -> bool {
    struct V(bool, bool);
    impl<'b> syn::visit::Visit<'b> for V {
        fn visit_expr_return(&mut self, _: &'b syn::ExprReturn) { self.0 = true; }
        fn visit_expr_try(&mut self, t: &'b syn::ExprTry) { if self.1 { self.0 = true; } syn::visit::visit_expr_try(self, t); }
        fn visit_expr_closure(&mut self, _: &'b syn::ExprClosure) {}
    }
    let mut v = V(false, tries);
    syn::visit::Visit::visit_expr(&mut v, b);
    v.0
}
fn plain_ident(p: &syn::Pat) -> Option<syn::Ident> { match p { syn::Pat::Ident(i) if i.by_ref.is_none() && i.subpat.is_none() => Some(i.ident.clone()), syn::Pat::Type(t) => plain_ident(&t.pat), _ => None } }
/// `it.for_each(|x| b)`, `it.fold(i, |acc, x| b)`, `it.try_fold(i, |acc, x| b)?` written as loops
fn as_loop(e: &Expr) -> Option<Expr> {
    let (m, tried) = match e {
        Expr::MethodCall(m) => (m, false),
        Expr::Try(t) => match &*t.expr { Expr::MethodCall(m) => (m, true), _ => return None },
        _ => return None,
    };
    let it = &m.receiver;
    let cl = |x: &Expr| match x { Expr::Closure(c) => Some(c.clone()), _ => None };
    match (m.method.to_string().as_str(), m.args.len(), tried) {
        ("for_each", 1, false) => {
            let c = cl(&m.args[0])?;
            if c.inputs.len() != 1 || has_return(&c.body, true) { return None; }
            let (p, b) = (&c.inputs[0], &c.body);
            Some(parse_quote!(for #p in #it { #b; }))
        }
        ("fold", 2, false) | ("try_fold", 2, true) => {
            let c = cl(&m.args[1])?;
            if c.inputs.len() != 2 || has_return(&c.body, true) { return None; }
            let (a, p, b, i) = (plain_ident(&c.inputs[0])?, &c.inputs[1], &c.body, &m.args[0]);
            if tried { Some(parse_quote!({ let mut #a = #i; for #p in #it { #a = (#b)?; } #a })) } else { Some(parse_quote!({ let mut #a = #i; for #p in #it { #a = #b; } #a })) }
        }
        _ => None,
    }
}
fn range_contains(e: &Expr) -> Option<Expr> {
    let Expr::MethodCall(m) = e else { return None };
    if m.method != "contains" || m.args.len() != 1 { return None; }
    let mut r = &*m.receiver;
    while let Expr::Paren(p) = r { r = &p.expr; }
    let (Expr::Range(r), Expr::Reference(x)) = (r, &m.args[0]) else { return None };
    let (a, b, x) = (r.start.as_ref()?, r.end.as_ref()?, &x.expr);
    Some(match r.limits { syn::RangeLimits::Closed(_) => parse_quote!((#a <= #x && #x <= #b)), _ => parse_quote!((#a <= #x && #x < #b)) })
}
/// `for p in it.filter(|q| c) { b }` and `for p in it.map(|q| x) { b }`
fn unfilter(f: &mut syn::ExprForLoop) -> bool {
    let Expr::MethodCall(m) = &*f.expr else { return false };
    if m.args.len() != 1 { return false; }
    let Expr::Closure(c) = &m.args[0] else { return false };
    if c.inputs.len() != 1 || has_return(&c.body, true) || matches!(&*c.body, Expr::Path(_)) { return false; }
    let (q, x, it, p, b) = (c.inputs[0].clone(), c.body.clone(), m.receiver.clone(), f.pat.clone(), f.body.clone());
    match m.method.to_string().as_str() {
        "filter" => {
            let (qi, pi) = match (plain_ident(&q), plain_ident(&p)) { (Some(a), Some(b)) => (a, b), _ => return false };
            f.body = parse_quote!({ if { let #qi = &#pi; #x } #b });
        }
        "map" => {
            let t = match plain_ident(&q) { Some(t) => t, None => return false };
            f.pat = Box::new(syn::Pat::Ident(syn::PatIdent { attrs: vec![], by_ref: None, mutability: None, ident: t, subpat: None }));
            f.body = parse_quote!({ let #p = #x; #b });
        }
        _ => return false,
    }
    f.expr = it;
    true
}

/// iterator adaptors with a loop of the same meaning, written as that loop
struct Loops(usize);
impl VisitMut for Loops {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Some(x) = as_loop(e).or_else(|| range_contains(e)) { *e = x; self.0 += 1; }
        if let Expr::ForLoop(f) = e { while unfilter(f) { self.0 += 1; } }
    }
}
