//! vharness search --world v2 --props P01,P02 --secs 10 --seed 1 --out replay.json
//! vharness replay replay.json
//! Runs the real contracts on random histories and evaluates the properties' clauses on each step.
mod chain;
mod ra;
mod v1;
mod v2;
use chain::Rng;
use serde_json::{json, Value};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub struct Viol { pub prop: &'static str, pub what: String }
pub trait World: Sized {
    fn new(r: &mut Rng, log: &mut Vec<String>, v: &mut Vec<Viol>) -> Self;
    fn step(&mut self, r: &mut Rng, log: &mut Vec<String>, v: &mut Vec<Viol>);
}
fn history<W: World>(seed: u64, steps: u64, props: &[String]) -> (Option<Viol>, Vec<String>, u64) {
    let mut r = Rng::new(seed);
    let (mut log, mut v) = (vec![], vec![]);
    let mut w = W::new(&mut r, &mut log, &mut v);
    let hit = |v: &mut Vec<Viol>| { let i = v.iter().position(|x| props.iter().any(|p| p == x.prop)); i.map(|i| v.swap_remove(i)) };
    if let Some(x) = hit(&mut v) { return (Some(x), log, 0); }
    for n in 0..steps {
        v.clear();
        w.step(&mut r, &mut log, &mut v);
        if let Some(x) = hit(&mut v) { return (Some(x), log, n + 1); }
    }
    (None, log, steps)
}
fn run(world: &str, seed: u64, steps: u64, props: &[String]) -> (Option<Viol>, Vec<String>, u64) {
    match world { "ra" => history::<ra::W>(seed, steps, props), "v1" => history::<v1::W>(seed, steps, props), "v2" => history::<v2::W>(seed, steps, props), _ => panic!("world") }
}
fn main() {
    std::panic::set_hook(Box::new(|i| { if std::env::var("VH_PANIC").is_ok() { eprintln!("{}", i); } }));
    let a: Vec<String> = std::env::args().collect();
    let arg = |k: &str, d: &str| a.iter().position(|x| x == k).map(|i| a[i + 1].clone()).unwrap_or(d.to_string());
    if a[1] == "replay" {
        let j: Value = serde_json::from_str(&std::fs::read_to_string(&a[2]).unwrap()).unwrap();
        let props = vec![j["property"].as_str().unwrap().to_string()];
        let (v, log, _) = run(j["world"].as_str().unwrap(), j["seed"].as_u64().unwrap(), j["steps"].as_u64().unwrap(), &props);
        for l in log { println!("{}", l); }
        match v { Some(v) => { println!("VIOLATED {}: {}", v.prop, v.what); std::process::exit(1) } None => println!("not violated") }
        return;
    }
    let world = arg("--world", "v2");
    let props: Vec<String> = arg("--props", "P01").split(',').map(|x| x.to_string()).collect();
    let secs: f64 = arg("--secs", "5").parse().unwrap();
    let seed: u64 = arg("--seed", "1").parse().unwrap();
    let threads: usize = arg("--threads", "8").parse().unwrap();
    let (stop, next, done, steps) = (AtomicBool::new(false), AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0));
    let tally: Mutex<std::collections::BTreeMap<String, u64>> = Mutex::new(Default::default());
    let want_tally = a.iter().any(|x| x == "--tally");
    let best: Mutex<Option<Value>> = Mutex::new(None);
    let end = Instant::now() + Duration::from_secs_f64(secs);
    let max: u64 = arg("--histories", "0").parse().unwrap();
    std::thread::scope(|s| { for _ in 0..threads { s.spawn(|| loop {
        if stop.load(Ordering::Relaxed) || Instant::now() > end { break; }
        let n = next.fetch_add(1, Ordering::Relaxed);
        if max > 0 && n >= max { break; }
        let sd = seed.wrapping_mul(1 << 40).wrapping_add(n);
        let len = if n % 3 == 0 { 15 } else { 45 };
        let (v, log, k) = run(&world, sd, len, &props);
        done.fetch_add(1, Ordering::Relaxed);
        steps.fetch_add(k, Ordering::Relaxed);
        if want_tally { let mut t = tally.lock().unwrap(); for l in &log { if let Some((_, x)) = l.split_once(" sends {\"") { let name = x.split('"').next().unwrap_or(""); *t.entry(format!("{} {}", name, l.rsplit('[').next().unwrap_or(""))).or_insert(0) += 1; } } }
        if let Some(v) = v {
            stop.store(true, Ordering::Relaxed);
            let mut b = best.lock().unwrap();
            if b.as_ref().map_or(true, |x| x["steps"].as_u64().unwrap() > k) { *b = Some(json!({"world": world, "property": v.prop, "violated": v.what, "seed": sd, "steps": len, "trace": log})); }
        }
    }); } });
    if want_tally { for (k, n) in tally.lock().unwrap().iter() { println!("{} {}", k, n); } }
    let b = best.into_inner().unwrap();
    println!("{}", json!({"histories": done.load(Ordering::Relaxed), "steps": steps.load(Ordering::Relaxed), "violation": b.as_ref().map(|x| x["violated"].clone())}));
    if let Some(b) = b { std::fs::write(arg("--out", "replay.json"), serde_json::to_string_pretty(&b).unwrap()).unwrap(); std::process::exit(1); }
}
