//! Single-exit form of an inlined helper body: early returns (and, where the call is not under `?`,
//! the body's own `?`) become nested branches, the statements that follow being moved into the
//! branches that fall through.
use std::collections::BTreeSet;
use syn::visit_mut::{self, VisitMut};
use syn::{parse_quote, Expr, Stmt};

pub struct El {
    try_: bool,       // `return Err(..)` and `?` may stay: they leave the caller as well
    opt: bool,        // the helper returns an Option
    ret: Option<syn::Type>,
    moved: usize,     // statements duplicated so far
    tmp: usize,
}

/// names a statement list mentions (a superset of its free names)
fn mentioned(ss: &[Stmt]) -> BTreeSet<String> {
    fn toks(t: proc_macro2::TokenStream, out: &mut BTreeSet<String>) {
        for x in t {
            match x {
                proc_macro2::TokenTree::Ident(i) => { out.insert(i.to_string()); }
                proc_macro2::TokenTree::Group(g) => toks(g.stream(), out),
                _ => {}
            }
        }
    }
    let mut o = BTreeSet::new();
    toks(quote::quote!(#(#ss)*), &mut o);
    o
}
fn pat_names(p: &syn::Pat) -> BTreeSet<String> { crate::xform::pat_idents(p).iter().map(|i| i.to_string()).collect() }

fn is_err_call(e: &Expr) -> bool {
    match e { Expr::Call(c) => { let f = &c.func; quote::quote!(#f).to_string() == "Err" } _ => false }
}
fn is_ensure(m: &syn::Macro) -> bool { m.path.segments.last().unwrap().ident.to_string().starts_with("ensure") }

struct Bad<'x>(&'x El, bool);
impl<'b, 'x> syn::visit::Visit<'b> for Bad<'x> {
    fn visit_expr_return(&mut self, r: &'b syn::ExprReturn) {
        let ok = self.0.try_ && r.expr.as_deref().map(is_err_call).unwrap_or(false);
        if !ok { self.1 = true; } else { syn::visit::visit_expr_return(self, r); }
    }
    fn visit_expr_try(&mut self, t: &'b syn::ExprTry) { if !self.0.try_ { self.1 = true; } else { syn::visit::visit_expr_try(self, t); } }
    fn visit_macro(&mut self, m: &'b syn::Macro) { if is_ensure(m) && !self.0.try_ { self.1 = true; } }
    fn visit_expr_closure(&mut self, _: &'b syn::ExprClosure) {}
}

enum Flow { Clean, Effect, Found(Expr) }

impl El {
    fn bad_e(&self, e: &Expr) -> bool { let mut v = Bad(self, false); syn::visit::Visit::visit_expr(&mut v, e); v.1 }
    fn bad_s(&self, s: &Stmt) -> bool { let mut v = Bad(self, false); syn::visit::Visit::visit_stmt(&mut v, s); v.1 }
    fn fresh(&mut self, b: &str) -> syn::Ident { self.tmp += 1; syn::Ident::new(&format!("__{}_el{}", b, self.tmp), proc_macro2::Span::call_site()) }

    /// the first offending subexpression in evaluation order, replaced by `id`; `Effect` when
    /// something evaluated before it may have an effect of its own
    fn first(&self, e: &mut Expr, id: &syn::Ident) -> Flow {
        if !self.bad_e(e) {
            return match e {
                Expr::Path(_) | Expr::Lit(_) | Expr::Closure(_) => Flow::Clean,
                Expr::Field(f) => self.first(&mut f.base, id),
                Expr::Reference(f) => self.first(&mut f.expr, id),
                Expr::Paren(f) => self.first(&mut f.expr, id),
                Expr::Call(c) if matches!(&*c.func, Expr::Path(p) if p.path.segments.len() == 1 && ["Some", "Ok", "Err"].contains(&p.path.segments[0].ident.to_string().as_str())) => { for a in c.args.iter_mut() { match self.first(a, id) { Flow::Clean => {} f => return f } } Flow::Clean }
                Expr::MethodCall(m) if m.args.is_empty() && ["clone", "as_ref", "to_string", "as_str", "len", "is_some", "is_none", "is_empty", "storage", "unwrap_or_default"].contains(&m.method.to_string().as_str()) => self.first(&mut m.receiver, id),
                _ => Flow::Effect,
            };
        }
        macro_rules! go { ($($x:expr),*) => {{ $( match self.first($x, id) { Flow::Clean => {} f => return f } )* }} }
        match e {
            Expr::Try(t) => {
                if self.bad_e(&t.expr) { return self.first(&mut t.expr, id); }
                let x = e.clone();
                *e = parse_quote!(#id);
                Flow::Found(x)
            }
            Expr::If(i) => {
                if self.bad_e(&i.cond) { if !matches!(&*i.cond, Expr::Let(_)) { return self.first(&mut i.cond, id); } if let Expr::Let(l) = &mut *i.cond { return self.first(&mut l.expr, id); } }
                let x = e.clone(); *e = parse_quote!(#id); Flow::Found(x)
            }
            Expr::Match(m) => {
                if self.bad_e(&m.expr) { return self.first(&mut m.expr, id); }
                let x = e.clone(); *e = parse_quote!(#id); Flow::Found(x)
            }
            Expr::Block(_) => { let x = e.clone(); *e = parse_quote!(#id); Flow::Found(x) }
            Expr::Call(c) => { for a in c.args.iter_mut() { match self.first(a, id) { Flow::Clean => {} f => return f } } Flow::Effect }
            Expr::MethodCall(m) => { go!(&mut m.receiver); for a in m.args.iter_mut() { match self.first(a, id) { Flow::Clean => {} f => return f } } Flow::Effect }
            Expr::Struct(s) => { for f in s.fields.iter_mut() { match self.first(&mut f.expr, id) { Flow::Clean => {} f => return f } } Flow::Effect }
            Expr::Tuple(t) => { for x in t.elems.iter_mut() { match self.first(x, id) { Flow::Clean => {} f => return f } } Flow::Effect }
            Expr::Field(f) => { go!(&mut f.base); Flow::Effect }
            Expr::Reference(f) => { go!(&mut f.expr); Flow::Effect }
            Expr::Paren(f) => { go!(&mut f.expr); Flow::Effect }
            Expr::Unary(f) => { go!(&mut f.expr); Flow::Effect }
            Expr::Cast(f) => { go!(&mut f.expr); Flow::Effect }
            Expr::Binary(b) => {
                go!(&mut b.left);
                if matches!(b.op, syn::BinOp::And(_) | syn::BinOp::Or(_)) { return Flow::Effect; }
                go!(&mut b.right);
                Flow::Effect
            }
            Expr::Assign(a) => { go!(&mut a.right); Flow::Effect }
            Expr::Return(r) => { if let Some(x) = r.expr.as_deref_mut() { return self.first(x, id); } Flow::Effect }
            _ => Flow::Effect,
        }
    }

    pub fn block(&mut self, mut ss: Vec<Stmt>) -> Option<Vec<Stmt>> {
        let mut i = 0;
        while i < ss.len() {
            // a return cuts what follows
            if let Stmt::Expr(Expr::Return(r), _) = &ss[i] {
                let keep = self.try_ && r.expr.as_deref().map(is_err_call).unwrap_or(false);
                if !keep || !r.expr.as_deref().map(|x| self.bad_e(x)).unwrap_or(false) {
                    let x = r.expr.clone().map(|e| *e).unwrap_or(parse_quote!(()));
                    ss.truncate(i);
                    ss.push(Stmt::Expr(x, None));
                    if !self.bad_s(&ss[i]) { return Some(ss); }
                }
            }
            if !self.bad_s(&ss[i]) { i += 1; continue; }
            let rest: Vec<Stmt> = ss[i + 1..].to_vec();
            let tail = rest.is_empty();
            let st = ss[i].clone();
            ss.truncate(i);
            match st {
                Stmt::Macro(m) if is_ensure(&m.mac) => {
                    use syn::punctuated::Punctuated;
                    let a: Vec<Expr> = m.mac.parse_body_with(Punctuated::<Expr, syn::Token![,]>::parse_terminated).ok()?.into_iter().collect();
                    let n = m.mac.path.segments.last().unwrap().ident.to_string();
                    let (c, e): (Expr, &Expr) = match n.as_str() {
                        "ensure" => { let c = &a[0]; (parse_quote!(!(#c)), &a[1]) }
                        "ensure_eq" => { let (x, y) = (&a[0], &a[1]); (parse_quote!(!(#x == #y)), &a[2]) }
                        "ensure_ne" => { let (x, y) = (&a[0], &a[1]); (parse_quote!((#x == #y)), &a[2]) }
                        _ => return None,
                    };
                    ss.push(Stmt::Expr(parse_quote!(if #c { return Err(From::from(#e)); }), None));
                    ss.extend(rest);
                    continue;
                }
                Stmt::Local(l) => {
                    let init = l.init.clone()?;
                    if let Some((_, d)) = &init.diverge {
                        if self.bad_e(&init.expr) {
                            let t = self.fresh("h");
                            let mut l2 = l.clone();
                            l2.init.as_mut().unwrap().expr = Box::new(parse_quote!(#t));
                            let x = &init.expr;
                            ss.push(parse_quote!(let #t = #x;));
                            ss.push(Stmt::Local(l2));
                            ss.extend(rest);
                            continue;
                        }
                        let p = match &l.pat { syn::Pat::Type(t) => (*t.pat).clone(), p => p.clone() };
                        let x = &init.expr;
                        let d = match &**d { Expr::Block(b) => b.block.stmts.clone(), o => vec![Stmt::Expr(o.clone(), None)] };
                        let (r, d) = (self.block(rest)?, self.block(d)?);
                        ss.push(Stmt::Expr(parse_quote!(match #x { #p => { #(#r)* } _ => { #(#d)* } }), None));
                        return Some(ss);
                    }
                    if self.branchy(&init.expr) {
                        let x = self.branch(*init.expr.clone(), Some(&rest), Some(&l))?;
                        ss.push(Stmt::Expr(x, None));
                        return Some(ss);
                    }
                    let t = self.fresh("h");
                    let mut x = (*init.expr).clone();
                    let Flow::Found(f) = self.first(&mut x, &t) else { return None };
                    let mut l2 = l.clone();
                    l2.init.as_mut().unwrap().expr = Box::new(x);
                    let mut after = vec![Stmt::Local(l2)];
                    after.extend(rest);
                    return self.hoisted(ss, f, t, after);
                }
                Stmt::Expr(e, semi) => {
                    if let Expr::ForLoop(f) = &e {
                        let r = self.looped(f.clone(), &rest)?;
                        ss.extend(r);
                        return Some(ss);
                    }
                    if matches!(e, Expr::While(_) | Expr::Loop(_)) { return None; }
                    if self.branchy(&e) {
                        let value = tail && semi.is_none();
                        let x = self.branch(e, if value { None } else { Some(&rest) }, None)?;
                        ss.push(Stmt::Expr(x, None));
                        return Some(ss);
                    }
                    let t = self.fresh("h");
                    let mut x = e.clone();
                    let Flow::Found(f) = self.first(&mut x, &t) else { return None };
                    let mut after = vec![Stmt::Expr(x, semi)];
                    after.extend(rest);
                    return self.hoisted(ss, f, t, after);
                }
                _ => return None,
            }
        }
        Some(ss)
    }
    fn hoisted(&mut self, mut ss: Vec<Stmt>, f: Expr, t: syn::Ident, after: Vec<Stmt>) -> Option<Vec<Stmt>> {
        if let Expr::Try(x) = &f {
            let x = &x.expr;
            let r = self.block(after)?;
            if self.opt {
                ss.push(Stmt::Expr(parse_quote!(match #x { Some(#t) => { #(#r)* } None => None }), None));
            } else {
                ss.push(Stmt::Expr(parse_quote!(match #x { Ok(#t) => { #(#r)* } Err(__x) => Err(From::from(__x)) }), None));
            }
            return Some(ss);
        }
        ss.push(parse_quote!(let #t = #f;));
        let at = ss.len() - 1;
        ss.extend(after);
        let head: Vec<Stmt> = ss.drain(..at).collect();
        let r = self.block(ss)?;
        Some(head.into_iter().chain(r).collect())
    }
    /// an expression whose returns are inside its branches
    fn branchy(&self, e: &Expr) -> bool {
        match e {
            Expr::If(i) => !self.bad_e(&i.cond),
            Expr::Match(m) => !self.bad_e(&m.expr) && m.arms.iter().all(|a| a.guard.as_ref().map(|g| !self.bad_e(&g.1)).unwrap_or(true)),
            Expr::Block(b) => b.label.is_none(),
            Expr::Paren(p) => self.branchy(&p.expr),
            _ => false,
        }
    }
    fn branch(&mut self, e: Expr, rest: Option<&[Stmt]>, bind: Option<&syn::Local>) -> Option<Expr> {
        match e {
            Expr::Paren(p) => self.branch(*p.expr, rest, bind),
            Expr::If(i) => {
                let mut bound = BTreeSet::new();
                lets(&i.cond, &mut bound);
                let t = self.arm(i.then_branch.stmts, rest, bind, bound)?;
                let el = match i.else_branch { Some((_, x)) => self.branch(*x, rest, bind)?, None => { let b = self.arm(vec![], rest, bind, BTreeSet::new())?; parse_quote!({ #(#b)* }) } };
                let c = &i.cond;
                Some(parse_quote!(if #c { #(#t)* } else #el))
            }
            Expr::Match(mut m) => {
                for a in m.arms.iter_mut() {
                    let b = match &*a.body { Expr::Block(b) => b.block.stmts.clone(), o => vec![Stmt::Expr(o.clone(), None)] };
                    let b = self.arm(b, rest, bind, pat_names(&a.pat))?;
                    a.body = Box::new(parse_quote!({ #(#b)* }));
                    a.comma = Some(Default::default());
                }
                Some(Expr::Match(m))
            }
            Expr::Block(b) => { let x = self.arm(b.block.stmts, rest, bind, BTreeSet::new())?; Some(parse_quote!({ #(#x)* })) }
            o => { let x = self.arm(vec![Stmt::Expr(o, None)], rest, bind, BTreeSet::new())?; Some(parse_quote!({ #(#x)* })) }
        }
    }
    fn arm(&mut self, mut ss: Vec<Stmt>, rest: Option<&[Stmt]>, bind: Option<&syn::Local>, mut bound: BTreeSet<String>) -> Option<Vec<Stmt>> {
        if diverges(&ss) { return self.block(ss); }
        let Some(rest) = rest else { return self.block(ss) };
        for s in &ss { if let Stmt::Local(l) = s { bound.extend(pat_names(&l.pat)); } }
        let mut free = mentioned(rest);
        if let Some(l) = bind { for n in pat_names(&l.pat) { free.remove(&n); } }
        if bound.iter().any(|n| free.contains(n)) { return None; }
        let val: Expr = match ss.last() { Some(Stmt::Expr(e, None)) => { let e = e.clone(); ss.pop(); e } _ => parse_quote!(()) };
        match bind {
            Some(l) => { let mut l = l.clone(); l.init.as_mut().unwrap().expr = Box::new(val); ss.push(Stmt::Local(l)); }
            None => if !matches!(&val, Expr::Tuple(t) if t.elems.is_empty()) { ss.push(Stmt::Expr(val, Some(Default::default()))); },
        }
        self.moved += rest.len();
        if self.moved > 200 { return None; }
        ss.extend(rest.iter().cloned());
        self.block(ss)
    }
    /// `for .. { .. return e; .. } rest`
    fn looped(&mut self, mut f: syn::ExprForLoop, rest: &[Stmt]) -> Option<Vec<Stmt>> {
        if f.label.is_some() || self.bad_e(&f.expr) { return None; }
        let t = self.fresh("ret");
        struct V<'x> { el: &'x El, t: syn::Ident, ok: bool, n: usize }
        impl<'x> VisitMut for V<'x> {
            fn visit_expr_mut(&mut self, e: &mut Expr) {
                match e {
                    Expr::Return(r) => {
                        if self.el.try_ && r.expr.as_deref().map(is_err_call).unwrap_or(false) { return; }
                        let x = r.expr.clone().map(|e| *e).unwrap_or(parse_quote!(()));
                        if self.el.bad_e(&x) { self.ok = false; return; }
                        let t = &self.t;
                        self.n += 1;
                        *e = parse_quote!({ #t = Some(#x); break; });
                    }
                    Expr::Try(x) if !self.el.try_ => {
                        visit_mut::visit_expr_mut(self, &mut x.expr);
                        if self.el.opt { self.ok = false; return; }
                        let (i, t) = (&x.expr, &self.t);
                        *e = parse_quote!(match #i { Ok(__v) => __v, Err(__x) => { #t = Some(Err(From::from(__x))); break; } });
                    }
                    Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_) => { if self.el.bad_e(e) { self.ok = false; } }
                    Expr::Closure(_) => {}
                    Expr::Macro(m) if is_ensure(&m.mac) && !self.el.try_ => { self.ok = false; }
                    _ => visit_mut::visit_expr_mut(self, e),
                }
            }
            fn visit_stmt_mut(&mut self, s: &mut Stmt) {
                if let Stmt::Macro(m) = s { if is_ensure(&m.mac) && !self.el.try_ { self.ok = false; return; } }
                visit_mut::visit_stmt_mut(self, s);
            }
        }
        let mut v = V { el: self, t: t.clone(), ok: true, n: 0 };
        v.visit_block_mut(&mut f.body);
        if !v.ok { return None; }
        let first: Stmt = parse_quote!(__auto_inv!(#t is None););
        f.body.stmts.insert(0, first);
        let r = self.block(rest.to_vec())?;
        let d: Stmt = match &self.ret {
            Some(ty) => parse_quote!(let mut #t: Option<#ty> = None;),
            None => parse_quote!(let mut #t: Option<()> = None;),
        };
        Some(vec![d, Stmt::Expr(Expr::ForLoop(f), None), Stmt::Expr(parse_quote!(match #t { Some(__v) => __v, None => { #(#r)* } }), None)])
    }
}
fn lets(c: &Expr, out: &mut BTreeSet<String>) {
    match c {
        Expr::Let(l) => out.extend(pat_names(&l.pat)),
        Expr::Binary(b) => { lets(&b.left, out); lets(&b.right, out); }
        Expr::Paren(p) => lets(&p.expr, out),
        _ => {}
    }
}
fn diverges(ss: &[Stmt]) -> bool {
    match ss.last() {
        Some(Stmt::Expr(e, _)) => div_e(e),
        Some(Stmt::Macro(m)) => ["unreachable", "panic", "unimplemented", "todo"].contains(&m.mac.path.segments.last().unwrap().ident.to_string().as_str()),
        _ => false,
    }
}
fn div_e(e: &Expr) -> bool {
    match e {
        Expr::Return(_) | Expr::Break(_) | Expr::Continue(_) => true,
        Expr::If(i) => diverges(&i.then_branch.stmts) && i.else_branch.as_ref().map(|x| div_e(&x.1)).unwrap_or(false),
        Expr::Match(m) => !m.arms.is_empty() && m.arms.iter().all(|a| div_e(&a.body)),
        Expr::Block(b) => diverges(&b.block.stmts),
        Expr::Macro(m) => ["unreachable", "panic"].contains(&m.mac.path.segments.last().unwrap().ident.to_string().as_str()),
        _ => false,
    }
}

/// With `try_`, `return Err(..)` and `?` may stay (they leave the caller as well).
pub fn eliminate(b: &mut syn::Block, try_: bool, ret: Option<&syn::Type>) -> bool {
    let opt = matches!(ret, Some(syn::Type::Path(p)) if p.path.segments.last().unwrap().ident == "Option");
    let mut el = El { try_, opt, ret: ret.cloned(), moved: 0, tmp: 0 };
    if !b.stmts.iter().any(|s| el.bad_s(s)) {
        // a closing `return e` (under `?`: of an error) is the value
        if let Some(Stmt::Expr(Expr::Return(r), _)) = b.stmts.last() {
            let e = r.expr.clone().map(|e| *e).unwrap_or(parse_quote!(()));
            *b.stmts.last_mut().unwrap() = Stmt::Expr(e, None);
        }
        return true;
    }
    match el.block(b.stmts.clone()) { Some(s) => { b.stmts = s; true } None => false }
}
