//! Storage slots: `Item`, `Map` and `IndexedMap` declarations become ghost fields of the
//! generated `Storage` struct plus accessors with the library's (assumed) contracts.
//! The index-key closures are converted mechanically to spec functions.
use crate::{print::tt, Report};
use std::collections::BTreeSet;
use syn::visit_mut::VisitMut;

fn generic_args(t: &syn::Type) -> Option<(String, Vec<syn::Type>)> {
    if let syn::Type::Path(p) = t {
        let s = p.path.segments.last()?;
        let mut v = vec![];
        if let syn::PathArguments::AngleBracketed(a) = &s.arguments {
            for x in &a.args { if let syn::GenericArgument::Type(t) = x { v.push(t.clone()); } }
        }
        return Some((s.ident.to_string(), v));
    }
    None
}

pub fn strip_ref(t: &syn::Type) -> syn::Type {
    match t {
        syn::Type::Reference(r) => strip_ref(&r.elem),
        syn::Type::Tuple(tp) => { let mut tp = tp.clone(); for e in tp.elems.iter_mut() { *e = strip_ref(e); } syn::Type::Tuple(tp) }
        syn::Type::Group(g) => strip_ref(&g.elem),
        syn::Type::Paren(g) => strip_ref(&g.elem),
        _ => t.clone(),
    }
}

fn ty(t: &syn::Type) -> String {
    let mut t = strip_ref(t);
    crate::xform::Types.visit_type_mut(&mut t);
    tt(&quote::quote!(#t)).trim().to_string()
}

thread_local! { pub static STR_VALS: std::cell::RefCell<std::collections::HashMap<String, String>> = Default::default(); }
/// the string literals in an expression, named constants included
fn first_lit(e: &syn::Expr) -> Vec<String> {
    struct V(Vec<String>);
    impl<'a> syn::visit::Visit<'a> for V {
        fn visit_lit_str(&mut self, l: &'a syn::LitStr) { self.0.push(l.value()); }
        fn visit_expr_path(&mut self, p: &'a syn::ExprPath) {
            let n = p.path.segments.last().unwrap().ident.to_string();
            if let Some(v) = STR_VALS.with(|m| m.borrow().get(&n).cloned()) { self.0.push(v); }
        }
    }
    let mut v = V(vec![]);
    syn::visit::visit_expr(&mut v, e);
    v.0
}

fn claim(ns: &mut BTreeSet<String>, rep: &mut Report, cr: &str, n: &str, what: &str) {
    if n == "?" { rep.unsupported.push(format!("storage namespace of {} is not a string constant", what)); return; }
    if !ns.insert(format!("{}:{}", cr, n)) {
        rep.namespace_clash.push(format!("storage namespace `{}` of {} is used twice ({})", n, cr, what));
    }
}

fn map_api(sname: &str, fld: &str, k: &str, v: &str) -> String {
    format!(r#"
impl {sname} {{
    #[verifier::external_body]
    pub fn load<Q: IntoKey<{k}>>(&self, st: &Storage, k: Q) -> (r: Result<{v}, StdError>)
        ensures match r {{ Ok(v) => st.{fld}@.dom().contains(k.key()) && st.{fld}@[k.key()] == v, Err(_) => !st.{fld}@.dom().contains(k.key()) }}
    {{ unimplemented!() }}
    #[verifier::external_body]
    pub fn may_load<Q: IntoKey<{k}>>(&self, st: &Storage, k: Q) -> (r: Result<Option<{v}>, StdError>)
        ensures r is Ok, (match r->Ok_0 {{ Some(v) => st.{fld}@.dom().contains(k.key()) && st.{fld}@[k.key()] == v, None => !st.{fld}@.dom().contains(k.key()) }})
    {{ unimplemented!() }}
    #[verifier::external_body]
    pub fn has<Q: IntoKey<{k}>>(&self, st: &Storage, k: Q) -> (r: bool)
        ensures r == st.{fld}@.dom().contains(k.key())
    {{ unimplemented!() }}
    #[verifier::external_body]
    pub fn save<Q: IntoKey<{k}>>(&self, st: &mut Storage, k: Q, v: &{v}) -> (r: Result<(), StdError>)
        ensures r is Ok, *final(st) == (Storage {{ {fld}: Ghost(old(st).{fld}@.insert(k.key(), *v)), ..*old(st) }})
    {{ unimplemented!() }}
"#)
}

pub fn const_slot(c: &syn::ItemConst, fields: &mut Vec<(String, String)>, ns: &mut BTreeSet<String>, rep: &mut Report, modpath: &str) -> Option<String> {
    let (n, a) = generic_args(&c.ty)?;
    let name = c.ident.to_string();
    let cr = modpath.split("::").next().unwrap().to_string();
    let fld = format!("{}_{}", cr, name);
    let lits = first_lit(&c.expr);
    match n.as_str() {
        "Item" => {
            let v = ty(&a[0]);
            claim(ns, rep, &cr, lits.first().map(|s| s.as_str()).unwrap_or("?"), &name);
            fields.push((fld.clone(), format!("Option<{}>", v)));
            rep.slots.push(format!("{} Item<{}>", fld, v));
            Some(format!(r#"
pub struct {name}_S {{ pub u: u8 }}
pub const {name}: {name}_S = {name}_S {{ u: 0 }};
impl {name}_S {{
    #[verifier::external_body]
    pub fn load(&self, st: &Storage) -> (r: Result<{v}, StdError>)
        ensures match r {{ Ok(v) => st.{fld}@ == Some(v), Err(_) => st.{fld}@ is None }}
    {{ unimplemented!() }}
    #[verifier::external_body]
    pub fn may_load(&self, st: &Storage) -> (r: Result<Option<{v}>, StdError>)
        ensures r is Ok, r->Ok_0 == st.{fld}@
    {{ unimplemented!() }}
    #[verifier::external_body]
    pub fn save(&self, st: &mut Storage, v: &{v}) -> (r: Result<(), StdError>)
        ensures r is Ok, *final(st) == (Storage {{ {fld}: Ghost(Some(*v)), ..*old(st) }})
    {{ unimplemented!() }}
    #[verifier::external_body]
    pub fn remove(&self, st: &mut Storage)
        ensures *final(st) == (Storage {{ {fld}: Ghost(None), ..*old(st) }})
    {{ unimplemented!() }}
}}
"#))
        }
        "Map" => {
            let (k, v) = (ty(&a[0]), ty(&a[1]));
            claim(ns, rep, &cr, lits.first().map(|s| s.as_str()).unwrap_or("?"), &name);
            fields.push((fld.clone(), format!("Map<{}, {}>", k, v)));
            rep.slots.push(format!("{} Map<{}, {}>", fld, k, v));
            let mut s = format!("\npub struct {name}_S {{ pub u: u8 }}\npub const {name}: {name}_S = {name}_S {{ u: 0 }};\n");
            s.push_str(&map_api(&format!("{}_S", name), &fld, &k, &v));
            s.push_str(&format!(r#"
    #[verifier::external_body]
    pub fn remove<Q: IntoKey<{k}>>(&self, st: &mut Storage, k: Q)
        ensures *final(st) == (Storage {{ {fld}: Ghost(old(st).{fld}@.remove(k.key())), ..*old(st) }})
    {{ unimplemented!() }}
    #[verifier::external_body]
    pub fn range(&self, st: &Storage, min: Option<Bound<{k}>>, max: Option<Bound<{k}>>, order: crate::shim::Order) -> (r: RangeIter<{k}, {k}, {v}>)
        ensures r.m@ == st.{fld}@, r.min@ == bound_of(min), r.max@ == bound_of(max), r.order == order, r.limit@ is None,
            forall|k: {k}, v: {v}| #[trigger] (r.key@)(k, v) == k, forall|v: {v}| #[trigger] (r.keep@)(v)
    {{ unimplemented!() }}
}}
"#));
            Some(s)
        }
        // sg-controllers 2.4.0: one item holding the list of registered addresses (absent = empty), at most 5
        "Hooks" => {
            claim(ns, rep, &cr, lits.first().map(|s| s.as_str()).unwrap_or("?"), &name);
            fields.push((fld.clone(), "Seq<Addr>".into()));
            rep.slots.push(format!("{} Hooks", fld));
            Some(format!(r#"
pub struct {name}_S {{ pub u: u8 }}
pub const {name}: {name}_S = {name}_S {{ u: 0 }};
impl {name}_S {{
    #[verifier::external_body]
    pub fn add_hook(&self, st: &mut Storage, addr: Addr) -> (r: Result<(), HookError>)
        ensures r is Ok <==> (old(st).{fld}@.len() < 5 && !old(st).{fld}@.contains(addr)),
            *final(st) == (if r is Ok {{ Storage {{ {fld}: Ghost(old(st).{fld}@.push(addr)), ..*old(st) }} }} else {{ *old(st) }})
    {{ unimplemented!() }}
    #[verifier::external_body]
    pub fn remove_hook(&self, st: &mut Storage, addr: Addr) -> (r: Result<(), HookError>)
        ensures r is Ok <==> old(st).{fld}@.contains(addr),
            *final(st) == (if r is Ok {{ Storage {{ {fld}: Ghost(old(st).{fld}@.remove(old(st).{fld}@.index_of(addr))), ..*old(st) }} }} else {{ *old(st) }})
    {{ unimplemented!() }}
    #[verifier::external_body]
    pub fn hooks_(&self, st: &Storage) -> (r: Result<Vec<Addr>, StdError>)
        ensures r is Ok, r->Ok_0@ == st.{fld}@
    {{ unimplemented!() }}
    #[verifier::external_body]
    pub fn query_hooks(&self, deps: Deps) -> (r: Result<HooksResponse, StdError>)
        ensures r is Ok, r->Ok_0.hooks@.len() == deps.storage.{fld}@.len(), forall|i: int| 0 <= i < deps.storage.{fld}@.len() ==> (#[trigger] r->Ok_0.hooks@[i]).g == deps.storage.{fld}@[i].g,
            str_texts(r->Ok_0.hooks@) == addr_texts(deps.storage.{fld}@)
    {{ unimplemented!() }}
}}
"#))
        }
        "SnapshotMap" | "SnapshotItem" | "Deque" => { rep.unsupported.push(format!("{}: storage type {}", fld, n)); None }
        _ => None,
    }
}

/// `expr` over one record variable, to spec text
pub fn to_spec(e: &syn::Expr, bad: &mut Option<String>) -> String {
    match e {
        syn::Expr::Path(p) => tt(&quote::quote!(#p)).trim().to_string(),
        syn::Expr::Field(f) => { let m = &f.member; format!("{}.{}", to_spec(&f.base, bad), quote::quote!(#m)) }
        syn::Expr::Reference(r) => to_spec(&r.expr, bad),
        syn::Expr::Paren(r) => format!("({})", to_spec(&r.expr, bad)),
        syn::Expr::Group(r) => to_spec(&r.expr, bad),
        syn::Expr::Unary(u) if matches!(u.op, syn::UnOp::Deref(_)) => to_spec(&u.expr, bad),
        syn::Expr::Tuple(t) => format!("({})", t.elems.iter().map(|x| to_spec(x, bad)).collect::<Vec<_>>().join(", ")),
        syn::Expr::Lit(l) => tt(&quote::quote!(#l)).trim().to_string(),
        syn::Expr::MethodCall(m) => {
            let r = to_spec(&m.receiver, bad);
            match m.method.to_string().as_str() {
                "map_or" if m.args.len() == 2 => match &m.args[1] {
                    syn::Expr::Closure(c) if c.inputs.len() == 1 => {
                        let p = &c.inputs[0];
                        format!("(match {} {{ Some({}) => {}, None => {} }})", r, tt(&quote::quote!(#p)).trim(), to_spec(&c.body, bad), to_spec(&m.args[0], bad))
                    }
                    _ => { *bad = Some("map_or without a closure in an index".into()); "arbitrary()".into() }
                },
                "to_string" => format!("String {{ g: Ghost({}.str_sp()) }}", r),
                "unwrap_or" if m.args.len() == 1 => format!("(match {} {{ Some(__u) => __u, None => {} }})", r, to_spec(&m.args[0], bad)),
                "is_some" => format!("({} is Some)", r),
                "is_none" => format!("({} is None)", r),
                "is_ok" => format!("({} is Ok)", r),
                "is_err" => format!("({} is Err)", r),
                "clone" | "as_ref" | "into" | "to_owned" | "as_str" => r,
                x => format!("{}.{}_sp({})", r, x, m.args.iter().map(|x| to_spec(x, bad)).collect::<Vec<_>>().join(", ")),
            }
        }
        syn::Expr::Call(c) => {
            let f = &c.func;
            let ctor = matches!(&**f, syn::Expr::Path(p) if p.path.segments.last().map(|s| s.ident.to_string().starts_with(|c: char| c.is_uppercase())).unwrap_or(false));
            format!("{}{}({})", tt(&quote::quote!(#f)).trim(), if ctor { "" } else { "_sp" }, c.args.iter().map(|x| to_spec(x, bad)).collect::<Vec<_>>().join(", "))
        }
        syn::Expr::Block(b) if b.block.stmts.len() == 1 => match &b.block.stmts[0] {
            syn::Stmt::Expr(e, None) => to_spec(e, bad),
            _ => { *bad = Some("block in index closure".into()); "arbitrary()".into() }
        },
        syn::Expr::Unary(u) if matches!(u.op, syn::UnOp::Not(_)) => format!("!({})", to_spec(&u.expr, bad)),
        syn::Expr::Binary(b) if matches!(b.op, syn::BinOp::And(_) | syn::BinOp::Or(_) | syn::BinOp::Eq(_) | syn::BinOp::Ne(_) | syn::BinOp::Lt(_) | syn::BinOp::Le(_) | syn::BinOp::Gt(_) | syn::BinOp::Ge(_) | syn::BinOp::Add(_) | syn::BinOp::Sub(_) | syn::BinOp::Mul(_) | syn::BinOp::Div(_) | syn::BinOp::Rem(_)) => { let o = &b.op; format!("({}) {} ({})", to_spec(&b.left, bad), quote::quote!(#o), to_spec(&b.right, bad)) }
        syn::Expr::If(i) if i.else_branch.is_some() && !matches!(&*i.cond, syn::Expr::Let(_)) => {
            let (c, e) = (to_spec(&i.cond, bad), to_spec(&i.else_branch.as_ref().unwrap().1, bad));
            let t = syn::Expr::Block(syn::ExprBlock { attrs: vec![], label: None, block: i.then_branch.clone() });
            format!("(if {} {{ {} }} else {{ {} }})", c, to_spec(&t, bad), e)
        }
        syn::Expr::Match(m) => {
            let mut r = format!("(match {} {{ ", to_spec(&m.expr, bad));
            for a in &m.arms {
                let p = &a.pat;
                let g = a.guard.as_ref().map(|(_, g)| format!(" if {}", to_spec(g, bad))).unwrap_or_default();
                r.push_str(&format!("{}{} => {}, ", tt(&quote::quote!(#p)).trim(), g, to_spec(&a.body, bad)));
            }
            r + "})"
        }
        o => { *bad = Some(format!("index closure expression {}", quote::quote!(#o))); "arbitrary()".into() }
    }
}

/// as `to_spec`, machine arithmetic cast back to the key's type (a value that does not fit aborts the save, so any value stands for it)
fn to_spec_as(e: &syn::Expr, t: &syn::Type, bad: &mut Option<String>) -> String {
    match (e, strip_ref(t)) {
        (syn::Expr::Tuple(x), syn::Type::Tuple(y)) if x.elems.len() == y.elems.len() => format!("({})", x.elems.iter().zip(&y.elems).map(|(x, y)| to_spec_as(x, y, bad)).collect::<Vec<_>>().join(", ")),
        (syn::Expr::Paren(p), _) => to_spec_as(&p.expr, t, bad),
        (syn::Expr::Block(b), _) if b.block.stmts.len() == 1 => match &b.block.stmts[0] {
            syn::Stmt::Expr(e, None) => to_spec_as(e, t, bad),
            _ => to_spec(e, bad),
        },
        (syn::Expr::Binary(b), t) if matches!(b.op, syn::BinOp::Add(_) | syn::BinOp::Sub(_) | syn::BinOp::Mul(_) | syn::BinOp::Div(_) | syn::BinOp::Rem(_)) => format!("(({}) as {})", to_spec(e, bad), ty(&t)),
        _ => to_spec(e, bad),
    }
}

/// fn NAME<'a>() -> IndexedMap<'a, PK, T, Indices<'a>>
pub fn indexed_map(f: &syn::ItemFn, fields: &mut Vec<(String, String)>, ns: &mut BTreeSet<String>, rep: &mut Report, modpath: &str) -> Option<String> {
    let syn::ReturnType::Type(_, rt) = &f.sig.output else { return None };
    let (n, a) = generic_args(rt)?;
    if n != "IndexedMap" { return None; }
    let name = f.sig.ident.to_string();
    let cr = modpath.split("::").next().unwrap().to_string();
    let fld = format!("{}_{}", cr, name);
    let (k, v) = (ty(&a[0]), ty(&a[1]));
    fields.push((fld.clone(), format!("Map<{}, {}>", k, v)));
    rep.slots.push(format!("{} IndexedMap<{}, {}>", fld, k, v));
    // find index constructors
    struct Find { idx: Vec<(String, syn::ExprCall)>, main: Vec<String> }
    impl<'a> syn::visit::Visit<'a> for Find {
        fn visit_field_value(&mut self, f: &'a syn::FieldValue) {
            if let syn::Expr::Call(c) = &f.expr {
                let fs = { let x = &c.func; quote::quote!(#x).to_string().replace(' ', "") };
                if fs.starts_with("MultiIndex::") || fs.starts_with("UniqueIndex::") {
                    if let syn::Member::Named(n) = &f.member { self.idx.push((n.to_string(), c.clone())); }
                    return;
                }
            }
            syn::visit::visit_field_value(self, f);
        }
        fn visit_expr_call(&mut self, c: &'a syn::ExprCall) {
            let fs = { let x = &c.func; quote::quote!(#x).to_string().replace(' ', "") };
            if fs.starts_with("IndexedMap::") { self.main.extend(first_lit(&syn::Expr::Call(c.clone())).into_iter().take(1)); }
            syn::visit::visit_expr_call(self, c);
        }
    }
    let mut fd = Find { idx: vec![], main: vec![] };
    syn::visit::visit_block(&mut fd, &f.block);
    for m in &fd.main { claim(ns, rep, &cr, m, &name); }
    let sname = format!("{}_M", name);
    let mut s = String::new();
    let mut idx_fields = String::new();
    let mut idx_vals = String::new();
    let mut unique_pre = String::new();
    for (iname, c) in &fd.idx {
        let fs = { let x = &c.func; quote::quote!(#x).to_string().replace(' ', "") };
        let unique = fs.starts_with("UniqueIndex");
        let args: Vec<&syn::Expr> = c.args.iter().collect();
        let lits: Vec<String> = args.iter().skip(1).flat_map(|a| first_lit(a)).collect();
        let own = if unique { lits.first() } else { lits.get(1) };
        // an index that the map does not maintain, or that points back at another map's namespace, promises nothing
        let listed = rep.index_lists.get(&format!("{}::{}", cr, iname_key(&a[2], iname).split("::").next().unwrap_or("")));
        let kept = listed.map_or(false, |l| l.contains(iname)) && (unique || lits.first() == fd.main.first());
        if !kept { rep.notes.push(format!("index {}.{} is not maintained", name, iname)); }
        let start = s.len();
        claim(ns, rep, &cr, own.map(|x| x.as_str()).unwrap_or("?"), iname);
        let Some(syn::Expr::Closure(cl)) = args.first() else { rep.unsupported.push(format!("{}::{} index without closure", name, iname)); continue };
        let rec = cl.inputs.last().unwrap();
        let (mut rv, mut rty) = ("d".to_string(), None);
        match rec {
            syn::Pat::Type(pt) => { if let syn::Pat::Ident(i) = &*pt.pat { rv = i.ident.to_string(); } rty = Some(ty(&pt.ty)); }
            syn::Pat::Ident(i) => rv = i.ident.to_string(),
            _ => {}
        }
        let _ = rty;
        let mut bad = None;
        // type of the index key, from the Indices struct, recorded in main
        let Some(ikt) = rep.index_types.get(&format!("{}::{}", cr, iname_key(&a[2], iname))).cloned() else { rep.unsupported.push(format!("{}::{}: index key type not found", name, iname)); continue };
        let ik = ty(&ikt);
        let body = to_spec_as(&cl.body, &ikt, &mut bad);
        if let Some(b) = bad { rep.unsupported.push(format!("{}::{}: {}", name, iname, b)); continue; }
        let st = format!("{}_{}_I", name, iname);
        let elems: Vec<String> = if let syn::Type::Tuple(tp) = strip_ref(&ikt) { tp.elems.iter().map(ty).collect() } else { vec![] };
        s.push_str(&format!("pub open spec fn {name}_{iname}_key({rv}: {v}) -> {ik} {{ {body} }}\npub struct {st} {{ pub u: u8 }}\nimpl {st} {{\n"));
        if unique {
            unique_pre.push_str(&format!("forall|q: {k}| #[trigger] old(st).{fld}@.dom().contains(q) && q != k.key() ==> {name}_{iname}_key(old(st).{fld}@[q]) != {name}_{iname}_key(*v),\n"));
        }
        // full prefix
        s.push_str(&format!(r#"
    #[verifier::external_body]
    pub fn prefix<Q: IntoKey<{ik}>>(&self, p: Q) -> (r: Pfx_{name}<{k}>)
        ensures forall|v: {v}| #[trigger] (r.keep@)(v) == ({name}_{iname}_key(v) == p.key()),
            forall|k: {k}, v: {v}| #[trigger] (r.key@)(k, v) == k
    {{ unimplemented!() }}
    #[verifier::external_body]
    pub fn range(&self, st: &Storage, min: Option<Bound<({ik}, {k})>>, max: Option<Bound<({ik}, {k})>>, order: crate::shim::Order) -> (r: RangeIter<({ik}, {k}), {k}, {v}>)
        ensures r.m@ == st.{fld}@, r.min@ == bound_of(min), r.max@ == bound_of(max), r.order == order, r.limit@ is None,
            forall|k: {k}, v: {v}| #[trigger] (r.key@)(k, v) == ({name}_{iname}_key(v), k), forall|v: {v}| #[trigger] (r.keep@)(v)
    {{ unimplemented!() }}
"#));
        if elems.len() >= 2 {
            let sub = if elems.len() == 2 { elems[0].clone() } else { format!("({})", elems[..elems.len() - 1].join(", ")) };
            let last = elems.last().unwrap();
            let cond = if elems.len() == 2 { format!("{name}_{iname}_key(v).0 == p.key()") } else { (0..elems.len() - 1).map(|i| format!("{name}_{iname}_key(v).{i} == p.key().{i}")).collect::<Vec<_>>().join(" && ") };
            s.push_str(&format!(r#"
    #[verifier::external_body]
    pub fn sub_prefix<Q: IntoKey<{sub}>>(&self, p: Q) -> (r: Pfx_{name}<({last}, {k})>)
        ensures forall|v: {v}| #[trigger] (r.keep@)(v) == ({cond}),
            forall|k: {k}, v: {v}| #[trigger] (r.key@)(k, v) == ({name}_{iname}_key(v).{li}, k)
    {{ unimplemented!() }}
"#, li = elems.len() - 1));
        }
        s.push_str("}\n");
        if !kept {
            let text = s.split_off(start);
            let mut skip = false;
            for l in text.lines() {
                if l.trim_start().starts_with("ensures ") { skip = true; }
                if l.trim_start().starts_with("{ unimplemented!()") { skip = false; }
                if !skip { s.push_str(l); s.push('\n'); }
            }
        }
        idx_fields.push_str(&format!("pub {iname}: {st}, "));
        idx_vals.push_str(&format!("{iname}: {st} {{ u: 0 }}, "));
    }
    s.push_str(&format!(r#"
#[verifier::reject_recursive_types(SK)]
pub struct Pfx_{name}<SK> {{ pub keep: Ghost<spec_fn({v}) -> bool>, pub key: Ghost<spec_fn({k}, {v}) -> SK> }}
impl<SK> Pfx_{name}<SK> {{
    #[verifier::external_body]
    pub fn range(&self, st: &Storage, min: Option<Bound<SK>>, max: Option<Bound<SK>>, order: crate::shim::Order) -> (r: RangeIter<SK, {k}, {v}>)
        ensures r.m@ == st.{fld}@, r.min@ == bound_of(min), r.max@ == bound_of(max), r.order == order, r.limit@ is None, r.keep == self.keep, r.key == self.key
    {{ unimplemented!() }}
    #[verifier::external_body]
    pub fn keys_raw(&self, st: &Storage, min: Option<Bound<SK>>, max: Option<Bound<SK>>, order: crate::shim::Order) -> (r: RangeIter<SK, {k}, {v}>)
        ensures r.m@ == st.{fld}@, r.min@ == bound_of(min), r.max@ == bound_of(max), r.order == order, r.limit@ is None, r.keep == self.keep, r.key == self.key
    {{ unimplemented!() }}
}}
pub struct {name}_Idx {{ {idx_fields} pub u: u8 }}
pub struct {sname} {{ pub idx: {name}_Idx }}
pub fn {name}() -> (r: {sname}) {{ {sname} {{ idx: {name}_Idx {{ {idx_vals} u: 0 }} }} }}
"#));
    let mut api = map_api(&sname, &fld, &k, &v);
    if !unique_pre.is_empty() {
        // saving under a violated unique index is an error
        api = api.replace("ensures r is Ok, *final(st) ==", &format!("ensures r is Ok ==> ({}), r is Err ==> *final(st) == *old(st), r is Ok ==> *final(st) ==", unique_pre.trim_end().trim_end_matches(',')));
    }
    s.push_str(&api);
    s.push_str(&format!(r#"
    #[verifier::external_body]
    pub fn remove<Q: IntoKey<{k}>>(&self, st: &mut Storage, k: Q) -> (r: Result<(), StdError>)
        ensures r is Ok, *final(st) == (Storage {{ {fld}: Ghost(old(st).{fld}@.remove(k.key())), ..*old(st) }})
    {{ unimplemented!() }}
    #[verifier::external_body]
    pub fn range(&self, st: &Storage, min: Option<Bound<{k}>>, max: Option<Bound<{k}>>, order: crate::shim::Order) -> (r: RangeIter<{k}, {k}, {v}>)
        ensures r.m@ == st.{fld}@, r.min@ == bound_of(min), r.max@ == bound_of(max), r.order == order, r.limit@ is None,
            forall|k: {k}, v: {v}| #[trigger] (r.key@)(k, v) == k, forall|v: {v}| #[trigger] (r.keep@)(v)
    {{ unimplemented!() }}
"#));
    let kt = match strip_ref(&a[0]) {
        syn::Type::Path(p) if p.path.get_ident().is_some() => rep.aliases.get(&p.path.get_ident().unwrap().to_string()).cloned().unwrap_or_else(|| a[0].clone()),
        t => t.clone(),
    };
    if let syn::Type::Tuple(tp) = strip_ref(&kt) {
        if tp.elems.len() == 2 {
            // prefix_range: the first component within the bounds
            let k0 = ty(&tp.elems[0]);
            s.push_str(&format!(r#"
    #[verifier::external_body]
    pub fn prefix_range(&self, st: &Storage, min: Option<PrefixBound<{k0}>>, max: Option<PrefixBound<{k0}>>, order: crate::shim::Order) -> (r: RangeIter<{k}, {k}, {v}>)
        ensures forall|k: {k}| #[trigger] r.m@.dom().contains(k) <==> st.{fld}@.dom().contains(k) && in_pmin(k.0, min) && in_pmax(k.0, max),
            forall|k: {k}| #[trigger] r.m@.dom().contains(k) ==> r.m@[k] == st.{fld}@[k], r.min@ is None, r.max@ is None, r.order == order, r.limit@ is None,
            forall|k: {k}, v: {v}| #[trigger] (r.key@)(k, v) == k, forall|v: {v}| #[trigger] (r.keep@)(v)
    {{ unimplemented!() }}
"#));
        }
    }
    s.push_str("}\n");
    Some(s)
}

fn iname_key(indices_ty: &syn::Type, iname: &str) -> String {
    let n = if let syn::Type::Path(p) = indices_ty { p.path.segments.last().unwrap().ident.to_string() } else { "?".into() };
    format!("{}::{}", n, iname)
}

/// the indexes a map maintains: the fields its IndexList names
pub fn index_list(im: &syn::ItemImpl) -> Vec<String> {
    struct F(Vec<String>);
    impl<'a> syn::visit::Visit<'a> for F {
        fn visit_expr_field(&mut self, f: &'a syn::ExprField) {
            if let (syn::Expr::Path(p), syn::Member::Named(n)) = (&*f.base, &f.member) { if p.path.is_ident("self") { self.0.push(n.to_string()); } }
            syn::visit::visit_expr_field(self, f);
        }
        fn visit_macro(&mut self, m: &'a syn::Macro) {
            if let Ok(es) = m.parse_body_with(syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated) {
                let mut g = F(vec![]);
                for e in &es { syn::visit::Visit::visit_expr(&mut g, e); }
                self.0.extend(g.0);
            }
        }
    }
    let mut v = F(vec![]);
    for i in &im.items { if let syn::ImplItem::Fn(f) = i { syn::visit::visit_block(&mut v, &f.block); } }
    v.0
}

/// record index key types of an Indices struct (first type argument of MultiIndex / UniqueIndex)
pub fn index_struct(s: &syn::ItemStruct, rep: &mut Report, cr: &str) -> bool {
    let mut any = false;
    for f in s.fields.iter() {
        if let Some((n, a)) = generic_args(&f.ty) {
            if (n == "MultiIndex" || n == "UniqueIndex") && !a.is_empty() {
                rep.index_types.insert(format!("{}::{}::{}", cr, s.ident, f.ident.as_ref().unwrap()), a[0].clone());
                any = true;
            }
        }
    }
    any
}

/// the type of the values of a storage map
pub fn map_value(rt: &syn::ReturnType) -> Option<syn::Type> {
    let syn::ReturnType::Type(_, t) = rt else { return None };
    let (n, a) = generic_args(t)?;
    if (n == "IndexedMap" || n == "Map") && a.len() >= 2 { Some(a[1].clone()) } else { None }
}
