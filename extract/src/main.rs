//! Mechanical extractor: reads the current Rust sources of the contracts, applies a fixed list of
//! syntactic rewrites (see ../README.md), injects the contracts of the overlay files, and prints
//! one self-contained Verus file.  Nothing here knows what the code is supposed to do.
mod inline;
mod ov;
mod print;
mod returns;
mod slots;
mod xform;

use std::collections::{BTreeMap, BTreeSet, HashMap};
use syn::visit_mut::VisitMut;

pub struct FnInfo {
    pub path: String,   // v2::orders::Ask::new
    pub crate_: String, // v2
    pub module: String, // orders
    pub self_ty: Option<String>,
    pub sig: syn::Signature,
    pub block: syn::Block,
    pub file: String,
    pub line: usize,
}

pub struct Ctx {
    pub fns: BTreeMap<String, FnInfo>,
    pub ov: ov::Overlay,
    pub ext_crates: BTreeSet<String>,
    pub crate_alias: HashMap<String, String>, // sg_marketplace_common -> common
    pub struct_fields: HashMap<String, Vec<String>>,
    pub map_vals: HashMap<String, syn::Type>, // storage map -> type of its values
    pub str_consts: BTreeSet<String>,
    pub discr: BTreeMap<(String, String), i128>, // values of field-less enum variants
    pub variants: BTreeMap<(String, String), Vec<String>>, // of enums with data, by crate
    pub broadcasts: Vec<String>,
    pub modules: Vec<(String, String)>,
    pub ignored: BTreeSet<String>, // modules dropped as a whole (event construction)
    pub params: BTreeMap<String, Vec<(String, String)>>, // parameter names (and types) the overlay text was written for
}

#[derive(Default)]
pub struct Report {
    pub functions: Vec<serde_json::Value>,
    pub unsupported: Vec<String>,
    pub inlined: BTreeSet<String>,
    pub not_under_contract: Vec<String>,
    pub lost: Vec<String>,
    /// functions whose loops have another shape than the invariants were written for
    pub loose: Vec<serde_json::Value>,
    pub slots: Vec<String>,
    pub rewrites: BTreeMap<String, usize>,
    pub namespace_clash: Vec<String>,
    pub index_types: HashMap<String, syn::Type>,
    pub aliases: HashMap<String, syn::Type>,
    pub index_lists: HashMap<String, Vec<String>>,
    pub notes: Vec<String>,
    pub params: BTreeMap<String, Vec<(String, String)>>,
}

fn has_attr(attrs: &[syn::Attribute], name: &str) -> bool {
    attrs.iter().any(|a| a.path().is_ident(name))
}
fn is_test(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| {
        a.path().is_ident("cfg") && quote::quote!(#a).to_string().replace(' ', "").contains("cfg(test)")
    })
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() != 4 {
        eprintln!("usage: extract unit.json out.rs report.json");
        std::process::exit(2);
    }
    let unit: serde_json::Value =
        serde_json::from_str(&std::fs::read_to_string(&args[1]).expect("unit")).expect("unit json");
    let base = std::path::Path::new(&args[1]).parent().unwrap().to_path_buf();
    let rd = |p: &str| -> String {
        let q = if p.starts_with('/') { p.into() } else { base.join(p) };
        std::fs::read_to_string(&q).unwrap_or_else(|e| panic!("{}: {}", q.display(), e))
    };
    let mut ov = ov::Overlay::default();
    for o in unit["overlays"].as_array().unwrap() {
        ov.parse(&rd(o.as_str().unwrap()));
    }
    let mut ctx = Ctx {
        fns: BTreeMap::new(),
        ov,
        ext_crates: unit["ext_crates"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect(),
        crate_alias: unit["crate_alias"].as_object().unwrap().iter().map(|(k, v)| (k.clone(), v.as_str().unwrap().to_string())).collect(),
        struct_fields: HashMap::new(),
        map_vals: HashMap::new(),
        str_consts: unit["str_consts"].as_array().into_iter().flatten().map(|x| x.as_str().unwrap().to_string()).collect(),
        discr: BTreeMap::new(),
        variants: BTreeMap::new(),
        modules: vec![],
        params: std::fs::read_to_string(base.join("params.json")).ok().map(|t| serde_json::from_str(&t).expect("params.json")).unwrap_or_default(),
        ignored: BTreeSet::new(),
        broadcasts: unit["broadcasts"].as_array().into_iter().flatten().map(|x| x.as_str().unwrap().to_string()).collect(),
    };
    let mut rep = Report::default();
    let mut files: Vec<(String, String, String, syn::File)> = vec![];
    let mut pkgs: Vec<(String, CargoEnv)> = vec![];
    for s in unit["sources"].as_array().unwrap() {
        let cr = s["crate"].as_str().unwrap().to_string();
        let mut root = s["root"].as_str().unwrap().to_string();
        if let Ok(r) = std::env::var("VERIF_REPO") {
            if let Some(rest) = root.strip_prefix("/repo/") {
                root = format!("{}/{}", r, rest);
            }
        }
        if let Some(rest) = root.strip_prefix("@registry/") {
            root = registry_dir(rest).unwrap_or(root);
        }
        let mut pkg = CargoEnv::read(&root);
        pkgs.push((cr.clone(), CargoEnv { name: pkg.name.clone(), version: pkg.version.clone() }));
        for f in s["files"].as_array().unwrap() {
            let f = f.as_str().unwrap();
            let p = format!("{}/{}.rs", root, f);
            let txt = match std::fs::read_to_string(&p) {
                Ok(t) => t,
                Err(_) => { rep.lost.push(format!("file {}", p)); continue; }
            };
            let file = match syn::parse_file(&txt) {
                Ok(mut f) => { pkg.visit_file_mut(&mut f); f }
                Err(e) => { rep.unsupported.push(format!("parse {}: {}", p, e)); continue; }
            };
            files.push((cr.clone(), f.to_string(), p, file));
        }
        // modules of the crate that the unit does not list (a refactoring may add one)
        let listed: BTreeSet<String> = s["files"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect();
        let ignored: BTreeSet<String> = s["ignore"].as_array().map(|a| a.iter().map(|x| x.as_str().unwrap().to_string()).collect()).unwrap_or_default();
        for i in &ignored { ctx.ignored.insert(format!("{}::{}", cr, i)); }
        let only = s["only_listed"].as_bool().unwrap_or(false);
        if let Ok(rdir) = std::fs::read_dir(&root) {
            if only { continue; }
            for e in rdir.flatten() {
                let n = e.file_name().to_string_lossy().to_string();
                if let Some(stem) = n.strip_suffix(".rs") {
                    if stem != "lib" && !listed.contains(stem) && !ignored.contains(stem) {
                        let p = format!("{}/{}.rs", root, stem);
                        if let Ok(mut file) = syn::parse_file(&std::fs::read_to_string(&p).unwrap_or_default()) {
                            pkg.visit_file_mut(&mut file);
                            files.push((cr.clone(), stem.to_string(), p, file));
                        }
                    }
                }
            }
        }
    }
    ctx.modules = files.iter().map(|f| (f.0.clone(), f.1.clone())).collect();
    // pass 1: collect
    for (cr, m, p, file) in &files {
        for it in &file.items {
            match it {
                syn::Item::Fn(f) if !is_test(&f.attrs) => {
                    if let Some(v) = slots::map_value(&f.sig.output) { ctx.map_vals.insert(f.sig.ident.to_string(), v); }
                    add_fn(&mut ctx, cr, m, None, &f.sig, &f.block, p);
                }
                syn::Item::Impl(im) if !is_test(&im.attrs) => {
                    let st = type_name(&im.self_ty);
                    let tr = im.trait_.as_ref().map(|t| t.1.segments.last().unwrap().ident.to_string());
                    if tr.as_deref() == Some("IndexList") { rep.index_lists.insert(format!("{}::{}", cr, st), slots::index_list(im)); }
                    if matches!(tr.as_deref(), Some("IndexList") | Some("Display")) { continue; }
                    for ii in &im.items {
                        if let syn::ImplItem::Fn(f) = ii {
                            let mut name = st.clone();
                            if tr.as_deref() == Some("From") {
                                let t = im.trait_.as_ref().unwrap().1.segments.last().unwrap();
                                let tt = quote::quote!(#t).to_string().replace(' ', "");
                                name = format!("{}::{}", st, tt);
                            }
                            add_fn(&mut ctx, cr, m, Some(name), &f.sig, &f.block, p);
                        }
                    }
                }
                syn::Item::Trait(t) => {
                    for ti in &t.items {
                        if let syn::TraitItem::Fn(f) = ti {
                            if let Some(b) = &f.default {
                                add_fn(&mut ctx, cr, m, Some(t.ident.to_string()), &f.sig, b, p);
                            }
                        }
                    }
                }
                syn::Item::Type(t) => { rep.aliases.insert(t.ident.to_string(), (*t.ty).clone()); }
                syn::Item::Const(c) => {
                    if let syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(l), .. }) = &*c.expr { slots::STR_VALS.with(|m| m.borrow_mut().insert(c.ident.to_string(), l.value())); }
                    if let Some(v) = slots::map_value(&syn::ReturnType::Type(Default::default(), c.ty.clone())) { ctx.map_vals.insert(c.ident.to_string(), v); }
                    let ty = &c.ty;
                    if quote::quote!(#ty).to_string().contains("str") { ctx.str_consts.insert(c.ident.to_string()); }
                }
                syn::Item::Enum(en) if !en.variants.iter().all(|v| matches!(v.fields, syn::Fields::Unit)) => {
                    ctx.variants.insert((cr.clone(), en.ident.to_string()), en.variants.iter().map(|v| v.ident.to_string()).collect());
                }
                syn::Item::Enum(en) if en.variants.iter().all(|v| matches!(v.fields, syn::Fields::Unit)) => {
                    let mut n: i128 = 0;
                    for v in &en.variants {
                        if let Some((_, syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Int(l), .. }))) = &v.discriminant { n = l.base10_parse().unwrap_or(n); }
                        ctx.discr.insert((en.ident.to_string(), v.ident.to_string()), n);
                        n += 1;
                    }
                }
                syn::Item::Struct(s) => {
                    slots::index_struct(s, &mut rep, cr);
                    // cw-storage-macro's #[index_list] names every field
                    if s.attrs.iter().any(|a| a.path().segments.last().map_or(false, |x| x.ident == "index_list")) {
                        rep.index_lists.insert(format!("{}::{}", cr, s.ident), s.fields.iter().filter_map(|f| f.ident.as_ref().map(|i| i.to_string())).collect());
                    }
                    if let syn::Fields::Named(n) = &s.fields {
                        ctx.struct_fields.insert(s.ident.to_string(), n.named.iter().map(|f| f.ident.as_ref().unwrap().to_string()).collect());
                    }
                }
                _ => {}
            }
        }
    }
    // anchors
    for k in ctx.ov.fns.keys() {
        if !ctx.fns.contains_key(k) && !ctx.ov.fns[k].optional {
            rep.lost.push(format!("fn {}", k));
        }
    }
    // pass 2: emit
    let mut out = print::Out::new();
    out.raw("#![allow(unused_imports, dead_code, unused_variables, unused_mut, unused_assignments, unreachable_code, non_snake_case, non_camel_case_types, unused_parens, unused_braces, unused_must_use, unreachable_patterns, private_interfaces)]\n");
    out.raw("#![allow(clippy::all)]\n#![verifier::loop_isolation(false)]\n");
    out.raw("use vstd::prelude::*;\nverus! {\n");
    out.raw("pub mod shim {\nuse vstd::prelude::*;\nuse crate::store::*;\n");
    for s in unit["shims"].as_array().unwrap() {
        out.raw(&format!("//@file {}\n", s.as_str().unwrap()));
        out.raw(&rd(s.as_str().unwrap()));
        out.raw("\n");
    }
    out.raw("}\n");
    let mut storage_fields: Vec<(String, String)> = vec![];
    let mut crates: Vec<String> = vec![];
    for f in &files { if !crates.contains(&f.0) { crates.push(f.0.clone()); } }
    let mut ns: BTreeSet<String> = BTreeSet::new();
    for cr in &crates {
        out.raw(&format!("pub mod {} {{\n", cr));
        for (c, m, p, file) in &files {
            if c != cr { continue; }
            emit_module(&ctx, &mut rep, &mut out, cr, m, p, file, &mut storage_fields, &mut ns);
        }
        if let Some(u) = unit["root_uses"].get(cr) {
            for x in u.as_array().unwrap() { out.raw(x.as_str().unwrap()); out.raw("\n"); }
        }
        out.raw("}\n");
    }
    out.raw("pub mod store {\nuse vstd::prelude::*;\nuse crate::shim::*;\nuse crate::shim::{String, Decimal};\n");
    for u in unit["store_uses"].as_array().into_iter().flatten() { out.raw(&format!("use {};\n", u.as_str().unwrap())); }
    out.raw("pub struct Storage {\n    pub other: Ghost<int>,\n    pub cw2: Ghost<Option<(Seq<char>, Seq<char>)>>,\n");
    for (n, t) in &storage_fields {
        out.raw(&format!("    pub {}: Ghost<{}>,\n", n, t));
    }
    out.raw("}\n");
    for (c, e) in &pkgs { out.raw(&format!("pub open spec fn pkg_version_{}() -> Seq<char> {{ {:?}@ }}\npub open spec fn pkg_name_{}() -> Seq<char> {{ {:?}@ }}\n", c, e.version, c, e.name)); }
    out.raw("}\n");
    out.raw("pub mod sp {\nuse vstd::prelude::*;\nuse crate::shim::*;\nuse crate::shim::{String, Decimal};\nuse crate::store::*;\n");
    for s in unit["specs"].as_array().unwrap() {
        out.raw(&format!("//@file {}\n", s.as_str().unwrap()));
        out.raw(&rd(s.as_str().unwrap()));
        out.raw("\n");
    }
    out.raw("}\n} // verus!\nfn main() {}\n");
    std::fs::write(&args[2], &out.s).unwrap();
    let r = serde_json::json!({
        "functions": rep.functions,
        "unsupported": rep.unsupported,
        "inlined": rep.inlined.iter().cloned().collect::<Vec<_>>(),
        "not_under_contract": rep.not_under_contract,
        "lost": rep.lost,
        "loose": rep.loose,
        "slots": rep.slots,
        "rewrites": rep.rewrites,
        "namespace_clash": rep.namespace_clash,
        "notes": rep.notes,
    });
    if let Ok(p) = std::env::var("VERIF_PARAMS_OUT") { std::fs::write(p, serde_json::to_string_pretty(&rep.params).unwrap()).unwrap(); }
    std::fs::write(&args[3], serde_json::to_string_pretty(&r).unwrap()).unwrap();
}

/// name and version in the crate's Cargo.toml: what env!("CARGO_PKG_NAME") and env!("CARGO_PKG_VERSION") stand for
#[derive(Default)]
struct CargoEnv { name: String, version: String }
impl CargoEnv {
    fn read(src: &str) -> CargoEnv {
        let get = |file: String, section: &str, key: &str| -> Option<String> {
            let t = std::fs::read_to_string(file).ok()?;
            let mut on = false;
            for l in t.lines() {
                let l = l.trim();
                if l.starts_with('[') { on = l == section; continue; }
                if !on { continue; }
                if let Some((k, v)) = l.split_once('=') { if k.trim() == key { return v.split('"').nth(1).map(|x| x.to_string()); } }
            }
            None
        };
        let f = |key: &str| get(format!("{}/../Cargo.toml", src), "[package]", key).or_else(|| get(format!("{}/../../../Cargo.toml", src), "[workspace.package]", key)).unwrap_or_default();
        CargoEnv { name: f("name"), version: f("version") }
    }
}
impl VisitMut for CargoEnv {
    fn visit_expr_mut(&mut self, e: &mut syn::Expr) {
        if let syn::Expr::Macro(m) = e {
            if m.mac.path.is_ident("env") {
                let a = m.mac.tokens.to_string();
                let v = match a.as_str() { "\"CARGO_PKG_NAME\"" => &self.name, "\"CARGO_PKG_VERSION\"" => &self.version, _ => return };
                *e = syn::parse_quote!(#v);
                return;
            }
        }
        syn::visit_mut::visit_expr_mut(self, e);
    }
}

/// the source a dependency is built from: $CARGO_HOME/registry/src/*/NAME-VERSION
fn registry_dir(rest: &str) -> Option<String> {
    let home = std::env::var("CARGO_HOME").unwrap_or_else(|_| format!("{}/.cargo", std::env::var("HOME").unwrap_or_else(|_| "/root".into())));
    for h in [home, "/root/.cargo".to_string()] {
        for e in std::fs::read_dir(format!("{}/registry/src", h)).into_iter().flatten().flatten() {
            let d = format!("{}/{}", e.path().display(), rest);
            if std::path::Path::new(&d).is_dir() { return Some(d); }
        }
    }
    None
}

pub fn type_name(t: &syn::Type) -> String {
    match t {
        syn::Type::Path(p) => {
            let s = p.path.segments.last().unwrap();
            let mut n = s.ident.to_string();
            if let syn::PathArguments::AngleBracketed(a) = &s.arguments {
                let ts: Vec<String> = a.args.iter().filter_map(|x| if let syn::GenericArgument::Type(t) = x { Some(type_name(t)) } else { None }).collect();
                if !ts.is_empty() { n = format!("{}<{}>", n, ts.join(",")); }
            }
            n
        }
        _ => quote::quote!(#t).to_string(),
    }
}

fn add_fn(ctx: &mut Ctx, cr: &str, m: &str, st: Option<String>, sig: &syn::Signature, b: &syn::Block, file: &str) {
    let path = match &st {
        Some(s) => format!("{}::{}::{}::{}", cr, m, s, sig.ident),
        None => format!("{}::{}::{}", cr, m, sig.ident),
    };
    let line = sig.ident.span().start().line;
    ctx.fns.insert(path.clone(), FnInfo {
        path, crate_: cr.into(), module: m.into(), self_ty: st, sig: sig.clone(), block: b.clone(),
        file: file.into(), line,
    });
}

fn emit_use(ctx: &Ctx, cr: &str, t: &syn::UseTree, prefix: &str, out: &mut Vec<String>) {
    match t {
        syn::UseTree::Path(p) => {
            let id = p.ident.to_string();
            let np = if prefix.is_empty() {
                if id == "crate" { format!("crate::{}", cr) }
                else if let Some(a) = ctx.crate_alias.get(&id) { format!("crate::{}", a) }
                else { "EXT".to_string() }
            } else if prefix == "EXT" { "EXT".into() } else { format!("{}::{}", prefix, id) };
            emit_use(ctx, cr, &p.tree, &np, out);
        }
        syn::UseTree::Name(n) => {
            if prefix != "EXT" && !prefix.is_empty() { out.push(format!("use {}::{};", prefix, n.ident)); }
        }
        syn::UseTree::Rename(n) => {
            if prefix != "EXT" && !prefix.is_empty() { out.push(format!("use {}::{} as {};", prefix, n.ident, n.rename)); }
        }
        syn::UseTree::Glob(_) => {
            if prefix != "EXT" && !prefix.is_empty() { out.push(format!("use {}::*;", prefix)); }
        }
        syn::UseTree::Group(g) => for x in &g.items { emit_use(ctx, cr, x, prefix, out); },
    }
}

fn pub_fields(f: &mut syn::Fields) {
    for x in f.iter_mut() { x.vis = syn::parse_quote!(pub); x.attrs.clear(); }
}

#[allow(clippy::too_many_arguments)]
fn emit_module(ctx: &Ctx, rep: &mut Report, out: &mut print::Out, cr: &str, m: &str, p: &str, file: &syn::File,
               storage_fields: &mut Vec<(String, String)>, ns: &mut BTreeSet<String>) {
    xform::set_cur(cr, &ctx.ext_crates, &ctx.crate_alias);
    out.raw(&format!("pub mod {} {{\nuse vstd::prelude::*;\nuse crate::shim::*;\nuse crate::shim::{{String, Decimal}};\nuse crate::store::*;\nuse crate::sp::*;\n", m));
    let modpath = format!("{}::{}", cr, m);
    if !ctx.broadcasts.is_empty() { out.raw(&format!("broadcast use {{{}}};\n", ctx.broadcasts.join(", "))); }
    // names used by an inlined helper of a sibling module
    for o in ctx.modules.iter().filter(|o| o.0 == cr && o.1 != m) { out.raw(&format!("use crate::{}::{}::*;\n", o.0, o.1)); }
    if let Some(t) = ctx.ov.mods.get(&modpath) { out.raw(t); }
    for it in &file.items {
        if let syn::Item::Use(u) = it {
            if is_test(&u.attrs) { continue; }
            let mut v = vec![];
            emit_use(ctx, cr, &u.tree, "", &mut v);
            let vis = "pub ";
            for x in v {
                if ctx.ov.drop_uses.iter().any(|d| x.contains(d.as_str())) || ctx.ignored.iter().any(|d| x.contains(&format!("crate::{}::", d))) { continue; }
                // a helper that is inlined is not emitted
                let tgt = x.trim_start_matches("use crate::").trim_end_matches(';').split(" as ").next().unwrap().to_string();
                if ctx.fns.contains_key(&tgt) && !ctx.ov.fns.contains_key(&tgt) { continue; }
                out.raw(&format!("{}{}\n", vis, x));
            }
        }
    }
    // glue: bring names that `use crate::X` re-exports at the crate root would give
    for it in &file.items {
        match it {
            syn::Item::Struct(s) if !is_test(&s.attrs) => {
                let full = format!("{}::{}", modpath, s.ident);
                if ctx.ov.skip.contains(&full) { continue; }
                let dflt = s.attrs.iter().any(|a| a.path().is_ident("derive") && quote::quote!(#a).to_string().contains("Default"));
                let mut s = s.clone();
                s.attrs.clear(); s.vis = syn::parse_quote!(pub); pub_fields(&mut s.fields);
                if slots::index_struct(&s, &mut Report::default(), cr) { continue; }
                xform::Types.visit_item_struct_mut(&mut s);
                out.tokens(&quote::quote!(#s)); out.raw("\n");
                if dflt {
                    if let syn::Fields::Named(fs) = &s.fields {
                        let (ig, tg, _) = s.generics.split_for_impl();
                        let id = &s.ident;
                        let (mut a, mut b) = (String::new(), String::new());
                        for f in &fs.named {
                            let (n, t) = (f.ident.as_ref().unwrap(), &f.ty);
                            let t = quote::quote!(#t);
                            a.push_str(&format!("{n}: <{t} as Dflt>::dflt(), "));
                            b.push_str(&format!("{n}: <{t} as Dflt>::dflt_(), "));
                        }
                        out.raw(&format!("impl{} Dflt for {}{} {{ open spec fn dflt() -> Self {{ {} {{ {} }} }} fn dflt_() -> (r: Self) {{ {} {{ {} }} }} }}\n", quote::quote!(#ig), id, quote::quote!(#tg), id, a, id, b));
                    }
                }
            }
            syn::Item::Enum(e) if !is_test(&e.attrs) => {
                let full = format!("{}::{}", modpath, e.ident);
                if ctx.ov.skip.contains(&full) { continue; }
                let mut froms = String::new();
                for v in &e.variants {
                    if let syn::Fields::Unnamed(u) = &v.fields {
                        if let Some(f) = u.unnamed.first() {
                            if has_attr(&f.attrs, "from") {
                                let (t, n, en) = (&f.ty, &v.ident, &e.ident);
                                let ts = quote::quote!(#t).to_string();
                                froms.push_str(&format!("impl From<{ts}> for {en} {{ #[verifier::external_body] fn from(e: {ts}) -> (r: {en}) {{ {en}::{n}(e) }} }}\n"));
                            }
                        }
                    }
                }
                let mut e = e.clone();
                e.attrs.clear(); e.vis = syn::parse_quote!(pub);
                for v in e.variants.iter_mut() { v.attrs.clear(); v.discriminant = None; for f in v.fields.iter_mut() { f.attrs.clear(); } }
                xform::Types.visit_item_enum_mut(&mut e);
                if e.variants.iter().all(|v| matches!(v.fields, syn::Fields::Unit)) {
                    out.raw(&format!("impl EqOp<{0}> for {0} {{ open spec fn eq_spec(&self, r: &{0}) -> bool {{ *self == *r }} #[verifier::external_body] fn eq_op(&self, r: &{0}) -> (b: bool) {{ unimplemented!() }} }}\n", e.ident));
                }
                out.tokens(&quote::quote!(#e)); out.raw("\n"); out.raw(&froms);
            }
            syn::Item::Type(t) => {
                let mut t = t.clone(); t.attrs.clear(); t.vis = syn::parse_quote!(pub);
                xform::Types.visit_item_type_mut(&mut t);
                out.tokens(&quote::quote!(#t)); out.raw("\n");
            }
            syn::Item::Const(c) => {
                if let Some(s) = slots::const_slot(c, storage_fields, ns, rep, &modpath) {
                    out.raw(&s);
                } else {
                    let name = c.ident.to_string();
                    let ty = &c.ty; let e = &c.expr;
                    let tys = quote::quote!(#ty).to_string();
                    if tys.contains("str") {
                        let es = quote::quote!(#e).to_string();
                        let es = if es.starts_with('"') { es } else { "\"\"".into() };
                        out.raw(&format!("pub const {}: &'static str = {};\n", name, es));
                    } else {
                        out.raw(&format!("pub const {}: {} = {};\n", name, tys, quote::quote!(#e)));
                    }
                }
            }
            syn::Item::Trait(t) => {
                let full = format!("{}::{}", modpath, t.ident);
                if ctx.ov.skip.contains(&full) { continue; }
                emit_trait(ctx, rep, out, &full, t);
            }
            syn::Item::Fn(f) if !is_test(&f.attrs) => {
                if let Some(s) = slots::indexed_map(f, storage_fields, ns, rep, &modpath) {
                    out.raw(&s); continue;
                }
                let path = format!("{}::{}", modpath, f.sig.ident);
                emit_fn(ctx, rep, out, &path, "");
            }
            syn::Item::Impl(im) if !is_test(&im.attrs) => {
                let st = type_name(&im.self_ty);
                let trn = im.trait_.as_ref().map(|t| t.1.segments.last().unwrap().ident.to_string());
                if matches!(trn.as_deref(), Some("IndexList") | Some("Display")) { continue; }
                let mut name = st.clone();
                if trn.as_deref() == Some("From") {
                    let t = im.trait_.as_ref().unwrap().1.segments.last().unwrap();
                    name = format!("{}::{}", st, quote::quote!(#t).to_string().replace(' ', ""));
                }
                let any = im.items.iter().any(|ii| matches!(ii, syn::ImplItem::Fn(f) if ctx.ov.fns.contains_key(&format!("{}::{}::{}", modpath, name, f.sig.ident))));
                let mut fnpaths = vec![];
                for ii in &im.items {
                    if let syn::ImplItem::Fn(f) = ii {
                        fnpaths.push(format!("{}::{}::{}", modpath, name, f.sig.ident));
                    }
                }
                if !any {
                    rep.not_under_contract.extend(fnpaths);
                    continue;
                }
                let g = &im.generics; let ty = &im.self_ty; let wc = &im.generics.where_clause;
                let tr = im.trait_.as_ref().map(|(b, p, f)| { let _ = b; quote::quote!(#p #f).to_string() }).unwrap_or_default();
                out.raw(&format!("impl {} {} {} {} {{\n", quote::quote!(#g), tr, quote::quote!(#ty), quote::quote!(#wc)));
                if let Some(t) = ctx.ov.impls.get(&format!("{}::{}", modpath, name)) { out.raw(t); }
                for path in fnpaths {
                    emit_fn(ctx, rep, out, &path, if trn.is_some() { "trait" } else { "" });
                }
                out.raw("}\n");
            }
            _ => {}
        }
    }
    if let Some(t) = ctx.ov.mod_ends.get(&modpath) { out.raw(t); }
    out.raw("}\n");
    let _ = p;
}

fn emit_trait(ctx: &Ctx, rep: &mut Report, out: &mut print::Out, full: &str, t: &syn::ItemTrait) {
    if let Some(tx) = ctx.ov.impls.get(full) {
        out.raw(&format!("pub trait {} : Sized {{\n", t.ident));
        out.raw(tx);
        for ti in &t.items {
            if let syn::TraitItem::Fn(f) = ti {
                let p = format!("{}::{}", full, f.sig.ident);
                if f.default.is_some() {
                    emit_fn(ctx, rep, out, &p, "trait");
                } else {
                    let s = &f.sig;
                    out.raw(&ctx.ov.decls.get(&p).cloned().unwrap_or(format!("{};", quote::quote!(#s))));
                    out.raw("\n");
                }
            }
        }
        out.raw("}\n");
    }
}

fn params_of(sig: &syn::Signature) -> Vec<(String, String)> {
    sig.inputs.iter().filter_map(|i| match i {
        syn::FnArg::Typed(pt) => match pt.pat.as_ref() { syn::Pat::Ident(pi) => Some((pi.ident.to_string(), { let t = &pt.ty; quote::quote!(#t).to_string() })), _ => None },
        _ => None,
    }).collect()
}
// overlay text names the parameters as they were when it was written; where the source renamed one, the
// text follows (same type, the only one or the same position among those renamed)
fn renames(old: &[(String, String)], cur: &[(String, String)]) -> Vec<(String, String)> {
    let mut gone: Vec<_> = old.iter().filter(|o| !cur.iter().any(|c| c.0 == o.0)).collect();
    let mut new: Vec<_> = cur.iter().filter(|c| !old.iter().any(|o| o.0 == c.0)).collect();
    let mut out = vec![];
    while !gone.is_empty() {
        let g = gone.remove(0);
        if let Some(i) = new.iter().position(|c| c.1 == g.1) { let c = new.remove(i); out.push((g.0.clone(), c.0.clone())); }
    }
    out
}
fn rename_text(t: &str, rn: &[(String, String)]) -> String {
    if rn.is_empty() { return t.to_string(); }
    let b: Vec<char> = t.chars().collect();
    let mut out = String::new();
    let mut i = 0;
    while i < b.len() {
        if b[i].is_alphabetic() || b[i] == '_' {
            let s = i;
            while i < b.len() && (b[i].is_alphanumeric() || b[i] == '_') { i += 1; }
            let w: String = b[s..i].iter().collect();
            let mut p = s; while p > 0 && b[p - 1] == ' ' { p -= 1; }
            let field = p > 0 && b[p - 1] == '.' && !(p > 1 && b[p - 2] == '.');
            let mut n = i; while n < b.len() && b[n] == ' ' { n += 1; }
            let colon = n < b.len() && b[n] == ':' && !(n + 1 < b.len() && b[n + 1] == ':');
            match rn.iter().find(|r| r.0 == w) { Some(r) if !field && !colon => out.push_str(&r.1), _ => out.push_str(&w) }
        } else { out.push(b[i]); i += 1; }
    }
    out
}
/// a closure is left in the code (those of ghost arguments are specifications)
fn has_closure(b: &syn::Block) -> bool {
    struct V(bool);
    impl<'a> syn::visit::Visit<'a> for V {
        fn visit_expr_call(&mut self, c: &'a syn::ExprCall) {
            if let syn::Expr::Path(p) = &*c.func { if p.path.segments.last().map_or(false, |s| s.ident == "Ghost") { return; } }
            syn::visit::visit_expr_call(self, c);
        }
        fn visit_expr_closure(&mut self, _: &'a syn::ExprClosure) { self.0 = true; }
    }
    let mut v = V(false);
    syn::visit::Visit::visit_block(&mut v, b);
    v.0
}
fn emit_fn(ctx: &Ctx, rep: &mut Report, out: &mut print::Out, path: &str, kind: &str) {
    let Some(o) = ctx.ov.fns.get(path) else {
        rep.not_under_contract.push(path.to_string());
        return;
    };
    let fi = &ctx.fns[path];
    let cur = params_of(&fi.sig);
    let rn = ctx.params.get(path).map(|old| renames(old, &cur)).unwrap_or_default();
    if !rn.is_empty() { *rep.rewrites.entry("parameters renamed in contracts".into()).or_default() += rn.len(); }
    rep.params.insert(path.to_string(), cur);
    let o = &ov::FnOv { spec: rename_text(&o.spec, &rn), entry: rename_text(&o.entry, &rn), loops: o.loops.iter().map(|l| rename_text(l, &rn)).collect(), ..o.clone() };
    let mut sig = fi.sig.clone();
    let mut block = fi.block.clone();
    let mut x = xform::Xf::new(ctx, fi);
    x.run(&mut block);
    for (k, v) in x.counts.iter() { *rep.rewrites.entry(k.clone()).or_default() += v; }
    rep.inlined.extend(x.inlined.iter().cloned());
    let mut bad = false;
    if !o.external {
        for u in &x.unsupported { rep.unsupported.push(format!("{}: {}", path, u)); bad = true; }
        if o.loops.len() != x.nloops && !o.any_loops {
            rep.unsupported.push(format!("{}: expected {} loops with invariants, found {}", path, o.loops.len(), x.nloops));
        }
    }
    let _ = bad;
    if o.any_loops && !o.external && x.loop_own.iter().skip(o.loops.len()).any(|own| !own) {
        rep.loose.push(serde_json::json!({"function": path, "reason": "it has a loop without an invariant"}));
    }
    if !o.external && has_closure(&block) {
        rep.loose.push(serde_json::json!({"function": path, "reason": "it has a closure without a contract"}));
    }
    if !o.any_loops && !o.external {
        for (i, vs) in x.loop_vars.iter().enumerate() {
            let t = o.loops.get(i).cloned().unwrap_or_default();
            let words: BTreeSet<&str> = t.split(|c: char| !(c.is_alphanumeric() || c == '_')).collect();
            for v in vs { if v.chars().any(|c| c.is_lowercase()) && !words.contains(v.as_str()) { rep.loose.push(serde_json::json!({"function": path, "reason": format!("loop {} changes `{}`, which its invariants do not mention", i, v)})); } }
        }
    }
    xform::Types.visit_signature_mut(&mut sig);
    sig.generics = fi.sig.generics.clone();
    let ret = match &sig.output {
        syn::ReturnType::Default => String::new(),
        syn::ReturnType::Type(_, t) => format!(" -> ({}: {})", o.ret, print::tt(&quote::quote!(#t))),
    };
    let g = &sig.generics; let id = &sig.ident; let wc = &sig.generics.where_clause;
    // `mut` parameters become a let-rebinding so that contracts name the initial value
    let mut pre = String::new();
    let mut ins: Vec<String> = vec![];
    for i in sig.inputs.iter() {
        match i {
            syn::FnArg::Typed(pt) => {
                let mut pt = pt.clone();
                if let syn::Pat::Ident(pi) = pt.pat.as_mut() {
                    if pi.mutability.is_some() {
                        pi.mutability = None;
                        pre.push_str(&format!("let mut {0} = {0};\n", pi.ident));
                    }
                }
                ins.push(print::tt(&quote::quote!(#pt)));
            }
            syn::FnArg::Receiver(r) => {
                if r.mutability.is_some() && r.reference.is_none() { pre.push_str("let mut self_ = self;\n"); ins.push("self".into()); }
                else { ins.push(print::tt(&quote::quote!(#r))); }
            }
        }
    }
    // a function whose body is a dispatch on one parameter is verified once per variant
    let mut cases: Vec<Option<String>> = vec![None];
    if let (Some(p), false) = (&o.split, kind == "trait" || o.external) {
        let p = rename_text(p, &rn);
        let ty = sig.inputs.iter().find_map(|a| match a { syn::FnArg::Typed(t) if matches!(&*t.pat, syn::Pat::Ident(i) if i.ident == p) => Some(type_name(&t.ty)), _ => None });
        let module_cr = fi.crate_.clone();
        if let Some(vs) = ty.and_then(|t| ctx.variants.get(&(module_cr, t.clone())).map(|v| (t, v))) {
            let (t, vs) = vs;
            cases = vs.iter().map(|v| Some(v.clone())).collect();
            let all: Vec<String> = vs.iter().map(|v| format!("{} is {}", p, v)).collect();
            out.raw(&format!("proof fn {}__cases({}: {}) ensures {} {{}}\n", id, p, t, all.join(" || ")));
            out.raw("#[verifier::external_body] // proved case by case below\n");
            out.raw(&format!("pub fn {}{}({}){} {}\n{}{{ unimplemented!() }}\n", id, quote::quote!(#g), ins.join(", "), ret, quote::quote!(#wc), o.spec));
        }
    }
    let split_on = o.split.as_ref().map(|p| rename_text(p, &rn));
    for case in &cases {
        if o.external { out.raw("#[verifier::external_body]\n"); }
        if case.is_some() { out.raw("#[verifier::spinoff_prover]\n"); }
        if let Some(r) = &o.rlimit { out.raw(&format!("#[verifier::rlimit({})]\n", r)); }
        for a in &o.attrs { out.raw(&format!("{}\n", a)); }
        let start = out.line();
        let name = match case { Some(v) => format!("{}__{}", id, v), None => id.to_string() };
        out.raw(&format!("{}fn {}{}({}){} {}\n", if kind == "trait" { "" } else { "pub " }, name, quote::quote!(#g), ins.join(", "), ret, quote::quote!(#wc)));
        let spec_start = out.line();
        match (case, &split_on) {
            (Some(v), Some(p)) => {
                let c = format!("requires {} is {},", p, v);
                if o.spec.trim_start().starts_with("requires") { out.raw(&o.spec.replacen("requires", &c, 1)); } else { out.raw(&format!("    {}\n{}", c, o.spec)); }
            }
            _ => out.raw(&o.spec),
        }
        let spec_end = out.line();
        if o.external {
            out.raw("{ unimplemented!() }\n");
        } else {
            out.raw("{\n");
            out.raw(&o.entry);
            if std::env::var("VERIF_VACUITY").map(|v| v == path || v == "all").unwrap_or(false) && kind != "trait" { out.raw("\nassert(false); // VACUITY\n"); }
            out.raw(&pre);
            let toks = { let stmts = &block.stmts; quote::quote!(#(#stmts)*) };
            out.body(&toks, &o.loops);
            out.raw("\n}\n");
        }
        rep.functions.push(serde_json::json!({
            "path": match case { Some(v) => format!("{} [{}]", path, v), None => path.to_string() }, "external": o.external, "file": fi.file, "line": fi.line, "start": start,
            "spec_start": spec_start, "spec_end": spec_end, "end": out.line(), "tags": o.tags, "noabort": o.abort_tags, "mode": if o.external {"assumed"} else {"verified"},
        }));
    }
}
