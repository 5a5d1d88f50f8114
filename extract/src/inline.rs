//! Beta-inlining of (a) storage `update` closures, (b) local closures, (c) helper functions that
//! carry no contract.  Inlining a call is a source-to-source step: arguments are bound in order to
//! the parameters, and the body is placed where the call was.
use crate::returns::eliminate;
use crate::{Ctx, FnInfo};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use syn::visit_mut::{self, VisitMut};
use syn::{parse_quote, Expr, Stmt};

pub struct Inliner<'a> {
    ctx: &'a Ctx,
    crate_: String,
    module: String,
    stack: Vec<String>,
    pub inlined: BTreeSet<String>,
    pub unsupported: Vec<String>,
    pub counts: BTreeMap<String, usize>,
    tmp: usize,
    tail_ok: bool, // `return CALL(..)` leaves the function being read
    locals: HashMap<String, syn::ExprClosure>,
}

impl<'a> Inliner<'a> {
    pub fn new(ctx: &'a Ctx, c: &str, m: &str, path: &str) -> Self {
        Inliner { ctx, crate_: c.into(), module: m.into(), stack: vec![path.into()], inlined: Default::default(), unsupported: vec![], counts: Default::default(), tmp: 0, tail_ok: true, locals: Default::default() }
    }
    fn fresh(&mut self, b: &str) -> syn::Ident { self.tmp += 1; syn::Ident::new(&format!("__{}{}", b, self.tmp), proc_macro2::Span::call_site()) }
    pub fn run(&mut self, b: &mut syn::Block) {
        self.tail_block(b);
        self.visit_block_mut(b);
    }
    /// a call of a Result-returning helper in tail position keeps its `?` and returns
    fn tail_block(&mut self, b: &mut syn::Block) {
        if let Some(Stmt::Expr(e, semi)) = b.stmts.last_mut() {
            if let Expr::Return(r) = e {
                if let Some(x) = r.expr.as_deref_mut() { self.tail_expr(x); }
            } else if semi.is_none() { self.tail_expr(e); }
        }
    }
    fn tail_expr(&mut self, e: &mut Expr) {
        match e {
            Expr::Call(_) | Expr::MethodCall(_) => {
                let c = e.clone();
                if let Expr::MethodCall(m) = &c {
                    if m.method == "prepare_hooks" && m.args.len() == 2 {
                        if let Expr::Closure(cl) = &m.args[1] { let x = self.hooks_loop(m, cl); *e = parse_quote!(Ok(#x)); return; }
                    }
                }
                if let Some(p) = self.callee(&c) {
                    let fi = &self.ctx.fns[&p];
                    let rt: Option<syn::Type> = match &fi.sig.output { syn::ReturnType::Type(_, t) => Some((**t).clone()), _ => None };
                    if is_resultish(rt.as_ref()) {
                        if let Some(x) = self.try_inline(&c, Mode::Tail) { *e = x; }
                    }
                }
            }
            Expr::If(i) => { self.tail_block(&mut i.then_branch); if let Some((_, x)) = &mut i.else_branch { self.tail_expr(x); } }
            Expr::Block(bb) => self.tail_block(&mut bb.block),
            Expr::Match(m) => for a in m.arms.iter_mut() { self.tail_expr(&mut a.body); },
            Expr::Return(r) => if let Some(x) = r.expr.as_deref_mut() { self.tail_expr(x); },
            Expr::Paren(p) => self.tail_expr(&mut p.expr),
            _ => {}
        }
    }
    fn callee(&self, e: &Expr) -> Option<String> {
        match e {
            Expr::Call(c) => { let Expr::Path(p) = &*c.func else { return None }; let path = self.lookup(&p.path)?; if self.inlinable(&path) { Some(path) } else { None } }
            Expr::MethodCall(m) => { let path = self.lookup_method(&m.method.to_string())?; if self.inlinable(&path) { Some(path) } else { None } }
            _ => None,
        }
    }
    fn lookup(&self, p: &syn::Path) -> Option<String> {
        let segs: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
        let name = segs.last().unwrap().clone();
        if segs.len() == 1 {
            let own = format!("{}::{}::{}", self.crate_, self.module, name);
            if self.ctx.fns.contains_key(&own) { return Some(own); }
        }
        if segs.len() >= 2 {
            let ty = &segs[segs.len() - 2];
            if name == "from" {
                let inf = format!("::{}::From<", ty);
                let c: Vec<&String> = self.ctx.fns.keys().filter(|k| k.starts_with(&format!("{}::", self.crate_)) && k.contains(&inf) && k.ends_with("::from")).collect();
                if c.len() == 1 { return Some(c[0].clone()); }
            }
            let suf = format!("::{}::{}", ty, name);
            let c: Vec<&String> = self.ctx.fns.keys().filter(|k| k.starts_with(&format!("{}::", self.crate_)) && k.ends_with(&suf)).collect();
            if c.len() == 1 { return Some(c[0].clone()); }
            if segs.len() == 2 && segs[0].chars().next().unwrap().is_uppercase() { return None; }
        }
        // by unique free-function name in the same crate, then anywhere
        for pre in [format!("{}::", self.crate_), String::new()] {
            let c: Vec<&String> = self.ctx.fns.iter().filter(|(k, f)| k.starts_with(&pre) && f.self_ty.is_none() && f.sig.ident == name).map(|(k, _)| k).collect();
            if c.len() == 1 { return Some(c[0].clone()); }
        }
        None
    }
    fn lookup_method(&self, name: &str) -> Option<String> {
        let c: Vec<(&String, &FnInfo)> = self.ctx.fns.iter().filter(|(_, f)| f.crate_ == self.crate_ && f.self_ty.is_some() && f.sig.ident == name && f.sig.receiver().is_some()).collect();
        if c.len() == 1 && !self.ctx.ov.fns.contains_key(c[0].0) { return Some(c[0].0.clone()); }
        None
    }
    /// a helper is inlined only when no contract names it
    fn inlinable(&self, path: &str) -> bool {
        !self.ctx.ov.fns.contains_key(path) && !self.stack.contains(&path.to_string())
            && !self.ctx.ov.no_inline.contains(path)
            && !matches!(&self.ctx.fns[path].sig.output, syn::ReturnType::Type(_, t) if crate::type_name(t).starts_with("IndexedMap"))
    }

    /// build the inlined body; `tail` tells whether the call is the tail of a function with the same return type
    fn build(&mut self, path: &str, recv: Option<Expr>, args: Vec<Expr>, mode: Mode) -> Option<Expr> {
        if self.stack.len() > 6 { self.unsupported.push(format!("inlining too deep at {}", path)); return None; }
        let fi = &self.ctx.fns[path];
        let mut body = fi.block.clone();
        let generics: Vec<String> = fi.sig.generics.type_params().map(|t| t.ident.to_string()).collect();
        let mut binds: Vec<Stmt> = vec![];
        let mut temps: Vec<(syn::Ident, Expr)> = vec![];
        let mut params: Vec<Stmt> = vec![];
        let mut it = args.into_iter();
        for inp in fi.sig.inputs.iter() {
            match inp {
                syn::FnArg::Receiver(r) => {
                    let rv = recv.clone()?;
                    let t = self.fresh("self_");
                    let ty = fi.self_ty.clone().unwrap();
                    let ty: syn::Type = syn::parse_str(&ty).ok()?;
                    let e: Expr = if r.reference.is_some() { if r.mutability.is_some() { parse_quote!(&mut #rv) } else { parse_quote!(&#rv) } } else { rv };
                    // a receiver that is already a reference is reborrowed
                    let _ = ty;
                    params.push(parse_quote!(let #t = #e;));
                    RenameSelf(t).visit_block_mut(&mut body);
                }
                syn::FnArg::Typed(pt) => {
                    let a = it.next()?;
                    let (p, ty) = (&pt.pat, &pt.ty);
                    // a closure (or function name) passed to a function parameter takes the parameter's place
                    if let syn::Pat::Ident(pi) = &**p {
                        if let Some(f) = fn_arg(&a) {
                            let free = free_names(&f);
                            if bound_names(&body).iter().any(|n| free.contains(n)) { self.unsupported.push(format!("closure passed to {} uses a name bound there", path)); return None; }
                            SubstFn(pi.ident.to_string(), f).visit_block_mut(&mut body);
                            *self.counts.entry("closure arguments inlined".into()).or_default() += 1;
                            continue;
                        }
                    }
                    let t = self.fresh("a");
                    let a: Expr = match &**ty {
                        syn::Type::Reference(r) if r.mutability.is_some() => parse_quote!(&mut *#a),
                        syn::Type::Reference(_) => match a { Expr::Lit(_) => a, Expr::Reference(ref rr) if matches!(&*rr.expr, Expr::Reference(_)) => a, _ => parse_quote!(&*(#a)) },
                        _ => a,
                    };
                    temps.push((t.clone(), a));
                    let simple = matches!(&**ty, syn::Type::Reference(_) | syn::Type::Path(_) | syn::Type::Tuple(_));
                    let has_impl = { let x = quote::quote!(#ty).to_string(); x.contains("impl ") || x.contains("dyn ") || mentions(&x, &generics) };
                    if simple && !has_impl { params.push(parse_quote!(let #p: #ty = #t;)); } else { params.push(parse_quote!(let #p = #t;)); }
                }
            }
        }
        for (t, a) in temps { binds.push(parse_quote!(let #t = #a;)); }
        // parameters may be named like caller variables used by later arguments: arguments are all bound first
        binds.extend(params);
        self.stack.push(path.to_string());
        let (oc, om) = (self.crate_.clone(), self.module.clone());
        self.crate_ = fi.crate_.clone();
        self.module = fi.module.clone();
        let ot = self.tail_ok;
        self.tail_ok = mode != Mode::Value;
        if mode != Mode::Value { self.tail_block(&mut body); }
        self.visit_block_mut(&mut body);
        self.tail_ok = ot;
        self.crate_ = oc; self.module = om;
        self.stack.pop();
        let ret_ty: Option<syn::Type> = match &fi.sig.output { syn::ReturnType::Type(_, t) => Some((**t).clone()), _ => None };
        let mut tried = false;
        match mode {
            Mode::Tail => {
                // the helper's own error type is named where `?` could convert to several
                TryConv(ret_ty.as_ref().and_then(|t| err_ty(t))).visit_block_mut(&mut body);
            }
            Mode::Try => {
                // body's `?`/return Err leave the caller; error goes through the helper's error type
                let ety = ret_ty.as_ref().and_then(|t| err_ty(t));
                if !is_resultish(ret_ty.as_ref()) { return None; }
                if !eliminate(&mut body, true, ret_ty.as_ref()) { self.unsupported.push(format!("early return in helper {}", path)); return None; }
                TryConv(ety).visit_block_mut(&mut body);
            }
            Mode::Value => {
                let mut h = HasTry(false, false);
                syn::visit::Visit::visit_block(&mut h, &body);
                tried = h.0;
                if !eliminate(&mut body, false, ret_ty.as_ref()) { self.unsupported.push(format!("early return in helper {}", path)); return None; }
            }
        }
        self.inlined.insert(path.to_string());
        *self.counts.entry("helper calls inlined".into()).or_default() += 1;
        if mode == Mode::Try || (mode == Mode::Value && (tried || is_resultish(ret_ty.as_ref()))) {
            if let Some(t) = &ret_ty {
                let txt = quote::quote!(#t).to_string();
                if !txt.contains("impl ") && !mentions(&txt, &generics) && !txt.contains("Self") && !txt.contains('\'') {
                    let (r, st) = (self.fresh("r"), &body.stmts);
                    binds.push(parse_quote!(let #r: #t = { #(#st)* };));
                    binds.push(Stmt::Expr(parse_quote!(#r), None));
                    return Some(parse_quote!({ #(#binds)* }));
                }
            }
        }
        binds.extend(body.stmts);
        Some(parse_quote!({ #(#binds)* }))
    }
}

fn mentions(ty: &str, gs: &[String]) -> bool { ty.split(|c: char| !c.is_alphanumeric() && c != '_').any(|w| gs.iter().any(|g| g == w)) }
/// the closure or function name in `|x| ..`, `Box::new(|x| ..)`, `Box::new(path)`
fn fn_arg(a: &Expr) -> Option<Expr> {
    match a {
        Expr::Closure(_) => Some(a.clone()),
        Expr::Reference(r) => match fn_arg(&r.expr) { Some(x @ Expr::Closure(_)) => Some(x), _ => None },
        Expr::Call(c) => {
            let f = &c.func;
            if quote::quote!(#f).to_string().replace(' ', "") != "Box::new" { return None; }
            match &c.args[0] { Expr::Closure(_) => Some(c.args[0].clone()), Expr::Path(p) if p.path.segments.len() > 1 => Some(c.args[0].clone()), _ => None }
        }
        _ => None,
    }
}
struct SubstFn(String, Expr);
impl VisitMut for SubstFn {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Call(c) = e {
            if let Expr::Path(p) = &*c.func {
                if p.path.is_ident(&self.0) {
                    for a in c.args.iter_mut() { self.visit_expr_mut(a); }
                    match &self.1 {
                        Expr::Closure(cl) => {
                            let mut binds: Vec<Stmt> = vec![];
                            for (pp, a) in cl.inputs.iter().zip(c.args.iter()) { binds.push(parse_quote!(let #pp = #a;)); }
                            let body = &cl.body;
                            *e = parse_quote!({ #(#binds)* #body });
                        }
                        f => { let args = &c.args; *e = parse_quote!(#f(#args)); }
                    }
                    return;
                }
            }
        }
        if let Expr::Path(p) = e { if p.path.is_ident(&self.0) { *e = self.1.clone(); return; } }
        visit_mut::visit_expr_mut(self, e);
    }
}
fn free_names(f: &Expr) -> BTreeSet<String> {
    struct V(BTreeSet<String>);
    impl<'b> syn::visit::Visit<'b> for V { fn visit_expr_path(&mut self, p: &'b syn::ExprPath) { if let Some(i) = p.path.get_ident() { self.0.insert(i.to_string()); } } }
    let mut v = V(Default::default());
    syn::visit::Visit::visit_expr(&mut v, f);
    if let Expr::Closure(c) = f { struct P<'x>(&'x mut BTreeSet<String>); impl<'b, 'x> syn::visit::Visit<'b> for P<'x> { fn visit_pat_ident(&mut self, p: &'b syn::PatIdent) { self.0.remove(&p.ident.to_string()); } } for i in c.inputs.iter() { syn::visit::Visit::visit_pat(&mut P(&mut v.0), i); } }
    v.0
}
fn bound_names(b: &syn::Block) -> BTreeSet<String> {
    struct V(BTreeSet<String>);
    impl<'b> syn::visit::Visit<'b> for V { fn visit_pat_ident(&mut self, p: &'b syn::PatIdent) { self.0.insert(p.ident.to_string()); } }
    let mut v = V(Default::default());
    syn::visit::Visit::visit_block(&mut v, b);
    v.0
}
#[derive(Clone, Copy, PartialEq)]
enum Mode { Tail, Try, Value }

fn err_ty(t: &syn::Type) -> Option<syn::Type> {
    if let syn::Type::Path(p) = t {
        let s = p.path.segments.last()?;
        if s.ident == "Result" {
            if let syn::PathArguments::AngleBracketed(a) = &s.arguments {
                if let Some(syn::GenericArgument::Type(t)) = a.args.iter().nth(1) { return Some(t.clone()); }
            }
        }
        if s.ident == "StdResult" { return Some(parse_quote!(StdError)); }
    }
    None
}
fn is_resultish(t: Option<&syn::Type>) -> bool {
    if let Some(syn::Type::Path(p)) = t { let n = p.path.segments.last().unwrap().ident.to_string(); return n == "Result" || n == "StdResult"; }
    false
}
struct HasTry(bool, bool);
impl<'b> syn::visit::Visit<'b> for HasTry {
    fn visit_expr_try(&mut self, _: &'b syn::ExprTry) { self.0 = true; }
    fn visit_expr_return(&mut self, _: &'b syn::ExprReturn) { self.1 = true; }
    fn visit_expr_closure(&mut self, _: &'b syn::ExprClosure) {}
    fn visit_macro(&mut self, m: &'b syn::Macro) { if m.path.segments.last().unwrap().ident.to_string().starts_with("ensure") { self.0 = true; self.1 = true; } }
}

/// `x?` inside an inlined helper: X -> helper error -> caller error
struct TryConv(Option<syn::Type>);
impl VisitMut for TryConv {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let Some(t) = &self.0 else { return };
        if let Expr::Return(r) = e {
            if let Some(Expr::Call(c)) = r.expr.as_deref() {
                let f = &c.func;
                if quote::quote!(#f).to_string() == "Err" {
                    let a = &c.args[0];
                    *e = parse_quote!({ let __e: #t = #a; return Err(From::from(__e)) });
                    return;
                }
            }
        }
        if let Expr::Try(x) = e {
            let i = &x.expr;
            *e = parse_quote!(match #i { Ok(__v) => __v, Err(__x) => { let __e: #t = From::from(__x); return Err(From::from(__e)); } });
        }
    }
    fn visit_expr_closure_mut(&mut self, _: &mut syn::ExprClosure) {}
}
struct RenameSelf(syn::Ident);
impl VisitMut for RenameSelf {
    fn visit_expr_path_mut(&mut self, p: &mut syn::ExprPath) {
        if p.path.is_ident("self") { let i = &self.0; p.path = parse_quote!(#i); }
    }
}

impl<'a> VisitMut for Inliner<'a> {
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        // local closures:  let f = |x| body;   (called, never passed on)
        let stmts = std::mem::take(&mut b.stmts);
        let mut out = vec![];
        for mut s in stmts {
            if let Stmt::Local(l) = &s {
                if let (syn::Pat::Ident(i), Some(init)) = (&l.pat, &l.init) {
                    if let Expr::Closure(c) = &*init.expr {
                        self.locals.insert(i.ident.to_string(), c.clone());
                        *self.counts.entry("local closures inlined".into()).or_default() += 1;
                        continue;
                    }
                }
            }
            self.visit_stmt_mut(&mut s);
            out.push(s);
        }
        b.stmts = out;
    }
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        // macro arguments are inlined too
        visit_mut::visit_stmt_mut(self, s);
    }
    fn visit_macro_mut(&mut self, m: &mut syn::Macro) {
        use syn::punctuated::Punctuated;
        let n = m.path.segments.last().unwrap().ident.to_string();
        if ["ensure", "ensure_eq", "ensure_ne", "vec"].contains(&n.as_str()) {
            if let Ok(mut p) = m.parse_body_with(Punctuated::<Expr, syn::Token![,]>::parse_terminated) {
                for e in p.iter_mut() { self.visit_expr_mut(e); }
                m.tokens = quote::quote!(#p);
            }
        }
    }
    fn visit_expr_closure_mut(&mut self, c: &mut syn::ExprClosure) {
        let ot = self.tail_ok;
        self.tail_ok = false;
        visit_mut::visit_expr_closure_mut(self, c);
        self.tail_ok = ot;
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let (Expr::Return(r), true) = (&mut *e, self.tail_ok) { if let Some(x) = r.expr.as_deref_mut() { self.tail_expr(x); } }
        // X.update(store, key, |p| body)?   and  ITEM.update(store, |p| body)?
        if let Expr::Try(t) = e {
            if let Expr::MethodCall(m) = &*t.expr {
                if m.method == "update" && m.args.len() >= 2 {
                    if let Expr::Closure(c) = m.args.last().unwrap() {
                        if c.inputs.len() == 1 {
                            let c = c.clone();
                            let recv = &m.receiver;
                            let st = &m.args[0];
                            let p = &c.inputs[0];
                            let (k, v, f) = (self.fresh("k"), self.fresh("v"), self.fresh("f"));
                            let mut body = (*c.body).clone();
                            // returns inside the closure would leave the caller
                            let mut h = HasTry(false, false);
                            syn::visit::Visit::visit_expr(&mut h, &body);
                            if h.1 {
                                if let Expr::Block(bb) = &mut body { if !eliminate(&mut bb.block, true, None) { self.unsupported.push("return inside update closure".into()); } }
                            }
                            *self.counts.entry("update closures inlined".into()).or_default() += 1;
                            let mut x: Expr = if m.args.len() == 3 {
                                let key = &m.args[1];
                                parse_quote!({ let #k = #key; let #p = #recv.may_load(#st, #k.clone())?; let #f: Result<_, _> = #body; let #v = #f?; #recv.save(#st, #k, &#v)?; #v })
                            } else {
                                parse_quote!({ let #p = #recv.load(#st)?; let #f: Result<_, _> = #body; let #v = #f?; #recv.save(#st, &#v)?; #v })
                            };
                            visit_mut::visit_expr_mut(self, &mut x);
                            *e = x;
                            return;
                        }
                    }
                }
                if m.method == "prepare_hooks" && m.args.len() == 2 {
                    if let Expr::Closure(c) = &m.args[1] {
                        let mut r = self.hooks_loop(m, c);
                        visit_mut::visit_expr_mut(self, &mut r);
                        *e = r;
                        return;
                    }
                }
            }
            // local_closure(args)?
            if let Expr::Call(c) = &*t.expr {
                if let Some(x) = self.local_try(c) { *e = parse_quote!((#x)?); return; }
            }
            // helper(args)?
            let call = (*t.expr).clone();
            if let Some(x) = self.try_inline(&call, Mode::Try) { *e = parse_quote!((#x)?); if let Expr::Try(_) = e { } return; }
        }
        if let Expr::Call(c) = e {
            if let Expr::Path(p) = &*c.func {
                if let Some(id) = p.path.get_ident() {
                    if let Some(cl) = self.locals.get(&id.to_string()).cloned() {
                        let mut binds: Vec<Stmt> = vec![];
                        for (pp, a) in cl.inputs.iter().zip(c.args.iter()) { binds.push(parse_quote!(let #pp = #a;)); }
                        let body = &cl.body;
                        let ty: Option<syn::Type> = match &cl.output { syn::ReturnType::Type(_, t) => Some((**t).clone()), _ => None };
                        let r = self.fresh("lc");
                        let mut h = HasTry(false, false);
                        syn::visit::Visit::visit_expr(&mut h, body);
                        if h.0 || h.1 { self.unsupported.push(format!("`?`/return in local closure {}", id)); }
                        let mut x: Expr = match ty { Some(t) => parse_quote!({ #(#binds)* let #r: #t = #body; #r }), None => parse_quote!({ #(#binds)* #body }) };
                        visit_mut::visit_expr_mut(self, &mut x);
                        *e = x;
                        return;
                    }
                }
            }
        }
        if matches!(e, Expr::Call(_) | Expr::MethodCall(_)) {
            let c = e.clone();
            if let Some(x) = self.try_inline(&c, Mode::Value) { *e = x; return; }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

impl<'a> Inliner<'a> {
    /// `X.prepare_hooks(st, |h| body)`: the library's loop over the registered hooks
    fn hooks_loop(&mut self, m: &syn::ExprMethodCall, c: &syn::ExprClosure) -> Expr {
        let recv = &m.receiver; let st = &m.args[0]; let p = &c.inputs[0]; let body = &c.body;
        let x = self.fresh("hx");
        *self.counts.entry("prepare_hooks inlined".into()).or_default() += 1;
        parse_quote!({ let mut __hooks: Vec<SubMsg> = vec![]; for #x in #recv.hooks_(#st)? { let #p = #x; let __r: StdResult<SubMsg> = #body; __hooks.push(__r?); } __hooks })
    }
    /// a call of a local closure whose body uses `?`, itself under `?`
    fn local_try(&mut self, c: &syn::ExprCall) -> Option<Expr> {
        let Expr::Path(p) = &*c.func else { return None };
        let cl = self.locals.get(&p.path.get_ident()?.to_string())?.clone();
        let mut h = HasTry(false, false);
        syn::visit::Visit::visit_expr(&mut h, &cl.body);
        if !h.0 && !h.1 { return None; }
        let ety = match &cl.output { syn::ReturnType::Type(_, t) => err_ty(t), _ => None }?;
        let mut binds: Vec<Stmt> = vec![];
        for (pp, a) in cl.inputs.iter().zip(c.args.iter()) {
            let mut a = a.clone();
            if self.is_storage(&a) { a = parse_quote!(&mut *#a); }
            binds.push(parse_quote!(let #pp = #a;));
        }
        let mut body = match &*cl.body { Expr::Block(b) => b.block.clone(), x => { let x = x.clone(); syn::Block { brace_token: Default::default(), stmts: vec![Stmt::Expr(x, None)] } } };
        let ot = self.tail_ok;
        self.tail_ok = false;
        self.visit_block_mut(&mut body);
        self.tail_ok = ot;
        if !eliminate(&mut body, true, None) { self.unsupported.push("early return in local closure".into()); return None; }
        TryConv(Some(ety)).visit_block_mut(&mut body);
        let r = self.fresh("lc");
        let st = &body.stmts;
        let syn::ReturnType::Type(_, t) = &cl.output else { return None };
        binds.push(parse_quote!(let #r: #t = { #(#st)* };));
        Some(parse_quote!({ #(#binds)* #r }))
    }
    /// `deps.storage` where deps is a DepsMut parameter of a function being read
    fn is_storage(&self, a: &Expr) -> bool {
        let Expr::Field(f) = a else { return false };
        let (Expr::Path(b), syn::Member::Named(n)) = (&*f.base, &f.member) else { return false };
        if n != "storage" { return false; }
        let Some(b) = b.path.get_ident() else { return false };
        self.stack.iter().filter_map(|s| self.ctx.fns.get(s)).any(|fi| fi.sig.inputs.iter().any(|i| match i {
            syn::FnArg::Typed(pt) => { let (p, t) = (&pt.pat, &pt.ty); quote::quote!(#p).to_string().trim_start_matches("mut ") == b.to_string() && quote::quote!(#t).to_string().starts_with("DepsMut") }
            _ => false,
        }))
    }
    fn try_inline(&mut self, call: &Expr, mode: Mode) -> Option<Expr> {
        match call {
            Expr::Call(c) => {
                let Expr::Path(p) = &*c.func else { return None };
                let path = self.lookup(&p.path)?;
                if !self.inlinable(&path) { return None; }
                if self.ctx.fns[&path].sig.receiver().is_some() { return None; }
                let mut args: Vec<Expr> = c.args.iter().cloned().collect();
                for a in args.iter_mut() { self.visit_expr_mut(a); }
                self.build(&path, None, args, mode)
            }
            Expr::MethodCall(m) => {
                let path = self.lookup_method(&m.method.to_string())?;
                if !self.inlinable(&path) { return None; }
                let mut r = (*m.receiver).clone();
                self.visit_expr_mut(&mut r);
                let mut args: Vec<Expr> = m.args.iter().cloned().collect();
                for a in args.iter_mut() { self.visit_expr_mut(a); }
                self.build(&path, Some(r), args, mode)
            }
            _ => None,
        }
    }
    #[allow(dead_code)]
    fn tail_mode() -> Mode { Mode::Tail }
}
