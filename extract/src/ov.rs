//! Overlay files: contracts keyed by function path.
//!   @fn PATH [external] [optional] [ret NAME] [rlimit N] [anyloops] [noabort=TAGS] [split PARAM]
//!   <spec text: requires/ensures/decreases>
//!   @loop            (one per loop, in source order; text = invariant ... decreases ...)
//!   @entry           (proof text placed at the start of the body)
//!   @attr TEXT
//!   @mod PATH / @modend PATH / @impl PATH / @decl PATH (raw text placed in a module / impl / trait method declaration)
//!   @skip PATH       (type not emitted: the shim provides it)
//!   @dropuse SUBSTR
//! Lines starting with `//` between sections are comments of the overlay.
use std::collections::{BTreeMap, BTreeSet};

#[derive(Default, Clone)]
pub struct FnOv {
    pub spec: String,
    pub entry: String,
    pub loops: Vec<String>,
    pub external: bool,
    pub optional: bool,
    pub any_loops: bool,
    pub no_abort: bool,
    pub abort_tags: Vec<String>,
    pub ret: String,
    pub rlimit: Option<String>,
    pub split: Option<String>,
    pub attrs: Vec<String>,
    pub tags: Vec<String>,
}

#[derive(Default)]
pub struct Overlay {
    pub fns: BTreeMap<String, FnOv>,
    pub mods: BTreeMap<String, String>,
    pub mod_ends: BTreeMap<String, String>,
    pub impls: BTreeMap<String, String>,
    pub decls: BTreeMap<String, String>,
    pub skip: BTreeSet<String>,
    pub drop_uses: Vec<String>,
    pub no_inline: BTreeSet<String>,
}

impl Overlay {
    pub fn parse(&mut self, t: &str) {
        #[derive(PartialEq)]
        enum S { None, Spec, Loop, Entry, Mod, ModEnd, Impl, Decl }
        let mut st = S::None;
        let mut cur = String::new();
        for line in t.lines() {
            let tr = line.trim_start();
            if let Some(rest) = tr.strip_prefix('@') {
                let mut w = rest.split_whitespace();
                match w.next().unwrap() {
                    "fn" => {
                        cur = w.next().unwrap().to_string();
                        let mut f = FnOv { ret: "r".into(), ..Default::default() };
                        while let Some(x) = w.next() {
                            match x {
                                "external" => f.external = true,
                                "optional" => f.optional = true,
                                "anyloops" => f.any_loops = true,
                                x if x.starts_with("noabort=") => { f.no_abort = true; f.abort_tags = x["noabort=".len()..].split(',').map(String::from).collect(); }
                                "ret" => f.ret = w.next().unwrap().into(),
                                "split" => f.split = Some(w.next().unwrap().into()),
                                "rlimit" => f.rlimit = Some(w.next().unwrap().into()),
                                o => panic!("overlay option {}", o),
                            }
                        }
                        assert!(!self.fns.contains_key(&cur), "duplicate {}", cur);
                        self.fns.insert(cur.clone(), f);
                        st = S::Spec;
                    }
                    "loop" => { self.fns.get_mut(&cur).unwrap().loops.push(String::new()); st = S::Loop; }
                    "entry" => st = S::Entry,
                    "attr" => self.fns.get_mut(&cur).unwrap().attrs.push(rest["attr".len()..].trim().to_string()),
                    "mod" => { cur = w.next().unwrap().into(); st = S::Mod; }
                    "modend" => { cur = w.next().unwrap().into(); st = S::ModEnd; }
                    "impl" => { cur = w.next().unwrap().into(); st = S::Impl; }
                    "decl" => { cur = w.next().unwrap().into(); st = S::Decl; }
                    "noinline" => { self.no_inline.insert(w.next().unwrap().into()); st = S::None; }
                    "skip" => { self.skip.insert(w.next().unwrap().into()); st = S::None; }
                    "dropuse" => { self.drop_uses.push(rest["dropuse".len()..].trim().to_string()); st = S::None; }
                    o => panic!("overlay directive {}", o),
                }
                continue;
            }
            let l = format!("{}\n", line);
            match st {
                S::None => {}
                S::Spec => {
                    if let Some(i) = line.find("/*#") {
                        if let Some(j) = line[i..].find("*/") {
                            for t in line[i + 3..i + j].split(',') { self.fns.get_mut(&cur).unwrap().tags.push(t.trim().into()); }
                        }
                    }
                    self.fns.get_mut(&cur).unwrap().spec.push_str(&l)
                }
                S::Loop => self.fns.get_mut(&cur).unwrap().loops.last_mut().unwrap().push_str(&l),
                S::Entry => self.fns.get_mut(&cur).unwrap().entry.push_str(&l),
                S::Mod => self.mods.entry(cur.clone()).or_default().push_str(&l),
                S::ModEnd => self.mod_ends.entry(cur.clone()).or_default().push_str(&l),
                S::Impl => self.impls.entry(cur.clone()).or_default().push_str(&l),
                S::Decl => self.decls.entry(cur.clone()).or_default().push_str(&l),
            }
        }
    }
}
