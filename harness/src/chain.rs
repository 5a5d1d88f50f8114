//! A small in-memory chain around one contract under test: bank balances, cw721 collections, a
//! royalty registry and message execution.  It only runs the real contract code; it judges nothing.
use cosmwasm_std::testing::MockApi;
use cosmwasm_std::*;
use serde::Serialize;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::ops::Bound;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Default)]
pub struct Mem(pub BTreeMap<Vec<u8>, Vec<u8>>);
impl Storage for Mem {
    fn get(&self, k: &[u8]) -> Option<Vec<u8>> { self.0.get(k).cloned() }
    fn set(&mut self, k: &[u8], v: &[u8]) { self.0.insert(k.to_vec(), v.to_vec()); }
    fn remove(&mut self, k: &[u8]) { self.0.remove(k); }
    fn range<'a>(&'a self, start: Option<&[u8]>, end: Option<&[u8]>, order: Order) -> Box<dyn Iterator<Item = Record> + 'a> {
        let lo = start.map_or(Bound::Unbounded, |s| Bound::Included(s.to_vec()));
        let hi = end.map_or(Bound::Unbounded, |e| Bound::Excluded(e.to_vec()));
        if let (Some(s), Some(e)) = (start, end) { if s >= e { return Box::new(std::iter::empty()); } }
        let it = self.0.range((lo, hi)).map(|(k, v)| (k.clone(), v.clone()));
        match order { Order::Ascending => Box::new(it), Order::Descending => Box::new(it.rev()) }
    }
}

#[derive(Clone, Default, Debug)]
pub struct Coll { pub creator: String, pub start: Option<u64>, pub royalty: Option<(String, Decimal)>, pub no_info: bool }
#[derive(Clone, Default)]
pub struct Tok { pub owner: String, pub approved: BTreeMap<String, Option<u64>> }

#[derive(Clone, Default)]
pub struct Chain {
    pub store: Mem,
    pub me: String,
    pub admin: Option<String>,
    pub height: u64,
    pub time: u64,
    pub bank: BTreeMap<(String, String), u128>,
    pub colls: BTreeMap<String, Coll>,
    pub toks: BTreeMap<(String, String), Tok>,
    pub operators: BTreeSet<(String, String)>,
    pub reg_default: BTreeMap<String, (String, Decimal)>,
    pub reg_protocol: BTreeMap<(String, String), (String, Decimal)>,
    pub registry: String,
    pub burner: String,
    pub fail: BTreeSet<String>, // contracts whose execution fails
    pub calls: Vec<(String, Value, Vec<Coin>)>,
}

pub struct Q<'a>(pub &'a Chain);
impl<'a> Querier for Q<'a> {
    fn raw_query(&self, bin: &[u8]) -> QuerierResult {
        let q: QueryRequest<Empty> = match from_json(bin) { Ok(q) => q, Err(e) => return SystemResult::Err(SystemError::InvalidRequest { error: e.to_string(), request: bin.into() }) };
        let ok = |v: Value| SystemResult::Ok(ContractResult::Ok(Binary(serde_json::to_vec(&v).unwrap())));
        let err = |s: &str| SystemResult::Ok(ContractResult::Err(s.to_string()));
        let c = self.0;
        match q {
            QueryRequest::Wasm(WasmQuery::ContractInfo { .. }) => ok(json!({"code_id": 1, "creator": "creator", "admin": c.admin, "pinned": false, "ibc_port": null})),
            QueryRequest::Wasm(WasmQuery::Smart { contract_addr, msg }) => {
                let m: Value = serde_json::from_slice(&msg).unwrap();
                if contract_addr == c.registry {
                    let p = &m["royalty_payment"];
                    if p.is_null() { return err("unknown"); }
                    let coll = p["collection"].as_str().unwrap_or("").to_string();
                    let proto = p["protocol"].as_str().map(|x| x.to_string());
                    let e = |x: &(String, Decimal)| json!({"recipient": x.0, "share": x.1.to_string(), "updated": null});
                    let d = c.reg_default.get(&coll).map(|x| json!({"collection": coll, "royalty_entry": e(x)}));
                    let pr = proto.and_then(|p| c.reg_protocol.get(&(coll.clone(), p.clone())).map(|x| json!({"collection": coll, "protocol": p, "royalty_entry": e(x)})));
                    return ok(json!({"royalty_default": d, "royalty_protocol": pr}));
                }
                let coll = match c.colls.get(&contract_addr) { Some(x) => x, None => return SystemResult::Err(SystemError::NoSuchContract { addr: contract_addr }) };
                if m.get("collection_info").is_some() {
                    if coll.no_info { return err("no collection info"); }
                    return ok(json!({"creator": coll.creator, "description": "", "image": "", "external_link": null, "explicit_content": null,
                        "start_trading_time": coll.start.map(|t| t.to_string()), "royalty_info": coll.royalty.as_ref().map(|r| json!({"payment_address": r.0, "share": r.1.to_string()}))}));
                }
                let tok = |m: &Value| c.toks.get(&(contract_addr.clone(), m["token_id"].as_str().unwrap_or("").to_string())).cloned();
                let live = |t: &Tok, exp: bool| -> Vec<Value> { t.approved.iter().filter(|(_, e)| exp || e.map_or(true, |e| e > c.time)).map(|(s, e)| json!({"spender": s, "expires": match e { Some(t) => json!({"at_time": t.to_string()}), None => json!({"never": {}}) }})).collect() };
                if let Some(m) = m.get("owner_of") {
                    return match tok(m) { Some(t) => ok(json!({"owner": t.owner, "approvals": live(&t, m["include_expired"].as_bool().unwrap_or(false))})), None => err("not found") };
                }
                if let Some(m) = m.get("approval") {
                    let sp = m["spender"].as_str().unwrap_or("").to_string();
                    return match tok(m) {
                        Some(t) => {
                            if t.owner == sp { return ok(json!({"approval": {"spender": sp, "expires": {"never": {}}}})); }
                            match live(&t, m["include_expired"].as_bool().unwrap_or(false)).into_iter().find(|a| a["spender"] == json!(sp)) { Some(a) => ok(json!({ "approval": a })), None => err("approval not found") }
                        }
                        None => err("not found"),
                    };
                }
                err("unknown query")
            }
            _ => SystemResult::Err(SystemError::UnsupportedRequest { kind: "other".into() }),
        }
    }
}

/// what a message list does, as the contract asked for it
#[derive(Clone, Debug, Default)]
pub struct Effects {
    pub paid: BTreeMap<(String, String), i128>,
    pub out: BTreeMap<String, i128>,
    pub nfts: Vec<(String, String, String)>,
    pub zero_send: bool,
    pub zero_burn: bool,
    pub hooks: Vec<(u64, String, Value)>,
    pub non_atomic: usize,
}
pub fn add<K: Ord>(m: &mut BTreeMap<K, i128>, k: K, v: i128) { *m.entry(k).or_insert(0) += v; }

pub trait Custom: Clone + std::fmt::Debug { fn coins(&self) -> (String, Vec<Coin>); }
impl Custom for Empty { fn coins(&self) -> (String, Vec<Coin>) { (String::new(), vec![]) } }
impl Custom for sg_std::StargazeMsgWrapper {
    fn coins(&self) -> (String, Vec<Coin>) {
        match &self.msg_data {
            sg_std::StargazeMsg::FundCommunityPool { amount } => ("@community".into(), amount.clone()),
            sg_std::StargazeMsg::FundFairburnPool { amount } => ("@fairburnpool".into(), amount.clone()),
            _ => (String::new(), vec![]),
        }
    }
}
pub fn effects<C: Custom>(ms: &[SubMsg<C>]) -> Effects {
    let mut e = Effects::default();
    let pay = |e: &mut Effects, to: &str, cs: &[Coin], bank: bool| {
        if to == "@burn" { if cs.is_empty() || cs.iter().any(|c| c.amount.is_zero()) { e.zero_burn = true; } }
        else if bank && (cs.is_empty() || cs.iter().any(|c| c.amount.is_zero())) { e.zero_send = true; }
        if !bank && to != "@burn" && cs.iter().any(|c| c.amount.is_zero()) { e.zero_send = true; }
        for c in cs { add(&mut e.paid, (to.to_string(), c.denom.clone()), c.amount.u128() as i128); add(&mut e.out, c.denom.clone(), c.amount.u128() as i128); }
    };
    for m in ms {
        if m.reply_on != ReplyOn::Never { e.non_atomic += 1; }
        match &m.msg {
            CosmosMsg::Bank(BankMsg::Send { to_address, amount }) => pay(&mut e, to_address, amount, true),
            CosmosMsg::Bank(BankMsg::Burn { amount }) => pay(&mut e, "@burn", amount, true),
            CosmosMsg::Wasm(WasmMsg::Execute { contract_addr, msg, funds }) => {
                pay(&mut e, contract_addr, funds, false);
                if m.reply_on != ReplyOn::Never { e.hooks.push((m.id, contract_addr.clone(), serde_json::from_slice(msg).unwrap_or(Value::Null))); }
                if let Ok(v) = serde_json::from_slice::<Value>(msg) { if let Some(t) = v.get("transfer_nft") {
                    e.nfts.push((contract_addr.clone(), t["token_id"].as_str().unwrap_or("").into(), t["recipient"].as_str().unwrap_or("").into()));
                } }
            }
            CosmosMsg::Custom(c) => { let (to, cs) = c.coins(); pay(&mut e, &to, &cs, false) }
            _ => {}
        }
    }
    e
}

#[derive(Debug, Clone)]
pub struct TxErr { pub at: &'static str, pub what: String, pub eff: Option<Effects> }

impl Chain {
    /// the collection's own contract changes what it says: trading start, royalty, or whether it answers at all
    pub fn drift(&mut self, r: &mut Rng, log: &mut Vec<String>) {
        let ks: Vec<String> = self.colls.keys().cloned().collect();
        let k = r.pick(&ks).clone();
        let (now, x) = (self.time, self.colls.get_mut(&k).unwrap());
        match r.below(5) {
            0..=2 => { x.start = *r.pick(&[None, Some(now), Some(now + 1), Some(now + 2_000_000_000), Some(now + 60_000_000_000)]); }
            3 => { x.royalty = if r.chance(1, 3) { None } else { Some(((*r.pick(&["alice0", "royalty9"])).to_string(), *r.pick(&[Decimal::zero(), Decimal::percent(1), Decimal::percent(7), Decimal::percent(60)]))) }; }
            _ => { x.no_info = !x.no_info; }
        }
        log.push(format!("collection {} now starts trading at {:?}, royalty {:?}, answers {}", k, x.start, x.royalty, !x.no_info));
    }
    pub fn bal(&self, a: &str, d: &str) -> u128 { *self.bank.get(&(a.to_string(), d.to_string())).unwrap_or(&0) }
    pub fn send(&mut self, from: &str, to: &str, cs: &[Coin]) -> Result<(), String> {
        for c in cs {
            let b = self.bal(from, &c.denom);
            if b < c.amount.u128() { return Err(format!("insufficient {} of {}: {} < {}", c.denom, from, b, c.amount)); }
            self.bank.insert((from.into(), c.denom.clone()), b - c.amount.u128());
            let t = self.bal(to, &c.denom);
            self.bank.insert((to.into(), c.denom.clone()), t + c.amount.u128());
        }
        Ok(())
    }
    fn can_move(&self, c: &str, t: &Tok, who: &str) -> bool {
        let _ = c;
        t.owner == who || t.approved.get(who).map_or(false, |e| e.map_or(true, |e| e > self.time)) || self.operators.contains(&(t.owner.clone(), who.to_string()))
    }
    pub fn apply<C: Custom>(&mut self, m: &CosmosMsg<C>) -> Result<(), String> {
        let me = self.me.clone();
        match m {
            CosmosMsg::Bank(BankMsg::Send { to_address, amount }) => {
                if amount.is_empty() || amount.iter().any(|c| c.amount.is_zero()) { return Err("zero-coin send".into()); }
                self.send(&me, to_address, amount)
            }
            CosmosMsg::Bank(BankMsg::Burn { amount }) => {
                if amount.is_empty() || amount.iter().any(|c| c.amount.is_zero()) { return Err("zero-coin burn".into()); }
                self.send(&me, "@burn", amount)
            }
            CosmosMsg::Wasm(WasmMsg::Execute { contract_addr, msg, funds }) => {
                let v: Value = serde_json::from_slice(msg).map_err(|e| e.to_string())?;
                self.send(&me, contract_addr, funds)?;
                self.calls.push((contract_addr.clone(), v.clone(), funds.clone()));
                if self.fail.contains(contract_addr) { return Err(format!("contract {} fails", contract_addr)); }
                if let Some(t) = v.get("transfer_nft") {
                    let k = (contract_addr.clone(), t["token_id"].as_str().unwrap_or("").to_string());
                    let tok = self.toks.get(&k).cloned().ok_or("no such token")?;
                    if !self.can_move(contract_addr, &tok, &me) { return Err("unauthorized nft transfer".into()); }
                    self.toks.insert(k, Tok { owner: t["recipient"].as_str().unwrap_or("").into(), approved: BTreeMap::new() });
                } else if let Some(t) = v.get("initialize_collection_royalty") {
                    if *contract_addr != self.registry { return Err("not the registry".into()); }
                    let c = t["collection"].as_str().unwrap_or("").to_string();
                    if let Some(r) = self.colls.get(&c).and_then(|c| c.royalty.clone()) { self.reg_default.insert(c, r); }
                }
                Ok(())
            }
            CosmosMsg::Custom(c) => { let (to, cs) = c.coins(); self.send(&me, &to, &cs) }
            _ => Err("unsupported message".into()),
        }
    }
    pub fn env(&self) -> Env {
        Env { block: BlockInfo { height: self.height, time: Timestamp::from_nanos(self.time), chain_id: "chain".into() }, transaction: Some(TransactionInfo { index: 0 }), contract: ContractInfo { address: Addr::unchecked(&self.me) } }
    }
    /// run one entry point of the real contract on this state; the state is changed only on success
    pub fn call<C: Custom, E: std::fmt::Display>(&mut self, sender: &str, funds: &[Coin], f: impl FnOnce(DepsMut, Env, MessageInfo) -> Result<Response<C>, E>, mut reply: impl FnMut(DepsMut, Env, Reply) -> Result<Response<C>, E>) -> Result<Response<C>, TxErr> {
        let before = self.clone();
        let r = self.call_in(sender, funds, f, &mut reply);
        if r.is_err() { *self = before; }
        r
    }
    fn call_in<C: Custom, E: std::fmt::Display>(&mut self, sender: &str, funds: &[Coin], f: impl FnOnce(DepsMut, Env, MessageInfo) -> Result<Response<C>, E>, reply: &mut impl FnMut(DepsMut, Env, Reply) -> Result<Response<C>, E>) -> Result<Response<C>, TxErr> {
        let me = self.me.clone();
        self.calls.clear();
        if sender != me || !funds.is_empty() { self.send(sender, &me, funds).map_err(|what| TxErr { at: "funds", what, eff: None })?; }
        let snap = self.clone();
        let env = self.env();
        let api = MockApi::default();
        let info = MessageInfo { sender: Addr::unchecked(sender), funds: funds.to_vec() };
        let store = &mut self.store;
        let r = catch_unwind(AssertUnwindSafe(|| f(DepsMut { storage: store, api: &api, querier: QuerierWrapper::new(&Q(&snap)) }, env.clone(), info)));
        let res = match r { Ok(Ok(r)) => r, Ok(Err(e)) => return Err(TxErr { at: "contract", what: e.to_string(), eff: None }), Err(_) => return Err(TxErr { at: "abort", what: "panic".into(), eff: None }) };
        for m in &res.messages {
            let s = self.clone();
            let out = self.apply(&m.msg);
            match out {
                Ok(()) => {
                    if matches!(m.reply_on, ReplyOn::Always | ReplyOn::Success) {
                        self.reply(reply, m.id, SubMsgResult::Ok(SubMsgResponse { events: vec![], data: None }))?;
                    }
                }
                Err(what) => {
                    if matches!(m.reply_on, ReplyOn::Always | ReplyOn::Error) {
                        let calls = std::mem::take(&mut self.calls);
                        *self = s;
                        self.calls = calls;
                        self.reply(reply, m.id, SubMsgResult::Err(what))?;
                    } else { return Err(TxErr { at: "message", what, eff: Some(effects(&res.messages)) }); }
                }
            }
        }
        Ok(res)
    }
    fn reply<C: Custom, E: std::fmt::Display>(&mut self, reply: &mut impl FnMut(DepsMut, Env, Reply) -> Result<Response<C>, E>, id: u64, result: SubMsgResult) -> Result<(), TxErr> {
        let snap = self.clone();
        let env = self.env();
        let api = MockApi::default();
        let store = &mut self.store;
        let r = catch_unwind(AssertUnwindSafe(|| reply(DepsMut { storage: store, api: &api, querier: QuerierWrapper::new(&Q(&snap)) }, env, Reply { id, result })));
        match r { Ok(Ok(_)) => Ok(()), Ok(Err(e)) => Err(TxErr { at: "reply", what: e.to_string(), eff: None }), Err(_) => Err(TxErr { at: "reply", what: "panic".into(), eff: None }) }
    }
}

/// xorshift; every run with the same seed makes the same choices
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(s: u64) -> Rng { let mut r = Rng(s.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03); if r.0 == 0 { r.0 = 1 } for _ in 0..8 { r.next(); } r }
    pub fn next(&mut self) -> u64 { let mut x = self.0; x ^= x << 13; x ^= x >> 7; x ^= x << 17; self.0 = x; x.wrapping_mul(0x2545F4914F6CDD1D) }
    pub fn below(&mut self, n: u64) -> u64 { (self.next() >> 11) % n }
    pub fn chance(&mut self, num: u64, den: u64) -> bool { self.below(den) < num }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { let i = self.below(v.len() as u64) as usize; &v[i] }
}
pub fn to_value<T: Serialize>(t: &T) -> Value { serde_json::to_value(t).unwrap() }

/// name and version in a contract's Cargo.toml
fn package(dir: &str) -> (String, String) {
    let root = std::env::var("VERIF_REPO").unwrap_or("/repo".into());
    let t = std::fs::read_to_string(format!("{}/contracts/{}/Cargo.toml", root, dir)).unwrap_or_default();
    let get = |k: &str| t.split("\n[").next().unwrap().lines().find_map(|l| l.split_once('=').filter(|x| x.0.trim() == k).and_then(|x| x.1.split('"').nth(1))).unwrap_or("").to_string();
    (get("name"), get("version"))
}
fn triple(s: &str) -> Option<Vec<u64>> { let v: Option<Vec<u64>> = s.split('.').map(|x| if x.is_empty() || (x.len() > 1 && x.starts_with('0')) { None } else { x.parse().ok() }).collect(); v.filter(|v| v.len() == 3) }
impl Chain {
    fn record(&self) -> Option<(String, String)> { let v: Value = serde_json::from_slice(self.store.0.get(&b"contract_info"[..])?).ok()?; Some((v["contract"].as_str()?.into(), v["version"].as_str()?.into())) }
    /// upgrades the contract on a copy of this state, from its own or another version record; says what went wrong
    pub fn migration<C: Custom, E: std::fmt::Display>(&self, r: &mut Rng, log: &mut Vec<String>, dir: &str, name: Option<&str>, checked: bool, f: impl FnOnce(DepsMut, Env) -> Result<Response<C>, E>) -> Option<String> {
        let (pkg, ver) = package(dir);
        let own = (name.map_or(pkg, |x| x.to_string()), ver);
        if self.record() != Some(own.clone()) { return Some(format!("the contract's version record is {:?} instead of {:?}", self.record(), own)); }
        let mut c = self.clone();
        if r.chance(4, 5) {
            let o = triple(&own.1).unwrap_or(vec![1, 0, 0]);
            let p = |a: u64, b: u64, c: u64| format!("{}.{}.{}", a, b, c);
            let vs = [own.1.clone(), p(0, 0, 1), p(0, o[1] + 9, o[2] + 9), p(o[0], o[1], o[2] + 1), p(o[0], o[1] + 1, 0), p(o[0] + 1, 0, 0), p(o[0], o[1] + 10, 0), p(o[0], 0, o[2]), "1.0".into(), "".into(), "v1.0.0".into()];
            let n = if r.chance(4, 5) { own.0.clone() } else { r.pick(&["crates.io:sg-marketplac", "crates.io:other", "stargaze-marketplace", ""]).to_string() };
            c.store.set(b"contract_info", json!({"contract": n, "version": r.pick(&vs)}).to_string().as_bytes());
        }
        let from = c.record().unwrap();
        let fits = !checked || (from.0 == own.0 && triple(&from.1).map_or(false, |a| a <= triple(&own.1).unwrap_or_default()));
        let before = c.clone();
        let res = c.call("admin0", &[], |d, e, _| f(d, e), |_, _, _| Ok(Response::new()));
        log.push(format!("upgrade from {:?} to {:?} [{}]", from, own, if res.is_ok() { "accepted" } else { "rejected" }));
        match res {
            Err(e) => if fits { Some(format!("an upgrade from {:?} was refused: {}", from, e.what)) } else { None },
            Ok(resp) => {
                let mut want = before.store.0.clone();
                let k = b"contract_info".to_vec();
                let mut got = c.store.0.clone();
                want.remove(&k); got.remove(&k);
                if !fits { Some(format!("an upgrade from {:?} was accepted", from)) }
                else if want != got || !resp.messages.is_empty() { Some(format!("an upgrade from {:?} changed the contract's data", from)) }
                else if c.record() != Some(own.clone()) { Some(format!("after an upgrade the version record is {:?}", c.record())) }
                else { None }
            }
        }
    }
}
