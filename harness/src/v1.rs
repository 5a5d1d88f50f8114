//! stargaze-marketplace (classic): random histories of the real contract against the contracts'
//! clauses evaluated on concrete states (same clauses as /verif/contracts/v1/spec.rs).
use crate::chain::*;
use crate::{Viol, World};
use cosmwasm_std::*;
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use serde_json::{json, Value};
use sg_marketplace as m;
use std::collections::BTreeMap;
use m::msg::{ExecuteMsg as Ex, InstantiateMsg, QueryMsg as Qm, SudoMsg as Su};
use m::state::SaleType;

#[derive(Clone, PartialEq, Debug, Deserialize)]
struct Rge { min: u64, max: u64 }
#[derive(Clone, PartialEq, Debug, Deserialize)]
struct P { trading_fee_percent: Decimal, ask_expiry: Rge, bid_expiry: Rge, operators: Vec<String>, max_finders_fee_percent: Decimal, min_price: Uint128, stale_bid_duration: Value, bid_removal_reward_percent: Decimal, listing_fee: Uint128 }
#[derive(Clone, PartialEq, Debug, Deserialize, Serialize)]
struct A { sale_type: String, collection: String, token_id: u32, seller: String, price: Uint128, funds_recipient: Option<String>, reserve_for: Option<String>, finders_fee_bps: Option<u64>, expires_at: Timestamp, is_active: bool }
#[derive(Clone, PartialEq, Debug, Deserialize, Serialize)]
struct B { collection: String, token_id: u32, bidder: String, price: Uint128, finders_fee_bps: Option<u64>, expires_at: Timestamp }
#[derive(Clone, PartialEq, Debug, Deserialize, Serialize)]
struct C { collection: String, bidder: String, price: Uint128, finders_fee_bps: Option<u64>, expires_at: Timestamp }
type AK = (String, u32);
type BK = (String, u32, String);
type CK = (String, String);
type Pay = BTreeMap<String, i128>;
#[derive(Clone, PartialEq, Debug)]
struct Snap { p: P, asks: BTreeMap<AK, A>, bids: BTreeMap<BK, B>, cbids: BTreeMap<CK, C>, hooks: [Vec<String>; 3] } // hooks: ask, sale, bid

const COLLS: [&str; 2] = ["nftalpha", "nftbravo"];
const TOKS: [u32; 3] = [0, 2, 11];
const USERS: [&str; 4] = ["alice0", "bobby0", "carol0", "dave00"];
const OPS: [&str; 3] = ["opera1", "opera2", "alice0"];
const HOOKS: [&str; 5] = ["hook01", "hook02", "hook03", "hook04", "hook05"];
const NAT: &str = "ustars";
const ONE: u128 = 1_000_000_000_000_000_000;
const MAXASK: u128 = 100_000_000_000_000;
const AMTS: [u128; 12] = [1, 2, 3, 7, 99, 100, 101, 999, 12345, 1_000_003, MAXASK, MAXASK + 1];
fn mul_floor(a: u128, share: u128) -> u128 { Uint128::try_from(Uint256::from(a) * Uint256::from(share) / Uint256::from(ONE)).unwrap().u128() }
fn cent(a: u128, p: Decimal) -> u128 { mul_floor(a, p.atomics().u128()) / 100 }

fn q<T: DeserializeOwned>(c: &Chain, msg: &Qm) -> Result<T, String> {
    let api = testing::MockApi::default();
    let qq = Q(c);
    let d = Deps { storage: &c.store, api: &api, querier: QuerierWrapper::new(&qq) };
    let b = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| m::query::query(d, c.env(), msg.clone()))).map_err(|_| "panic".to_string())?.map_err(|e| e.to_string())?;
    from_json(&b).map_err(|e| e.to_string())
}
fn one<T: DeserializeOwned>(c: &Chain, msg: &Qm, f: &str) -> Option<T> { let v: Value = q(c, msg).ok()?; serde_json::from_value(v.get(f)?.clone()).ok()? }
fn names(c: &Chain, msg: &Qm) -> Vec<String> { let v: Value = q(c, msg).unwrap(); serde_json::from_value(v["hooks"].clone()).unwrap() }
fn snap(c: &Chain) -> Snap {
    let (mut asks, mut bids, mut cbids) = (BTreeMap::new(), BTreeMap::new(), BTreeMap::new());
    for k in COLLS {
        for t in TOKS {
            if let Some(a) = one::<A>(c, &Qm::Ask { collection: k.into(), token_id: t }, "ask") { asks.insert((k.to_string(), t), a); }
            for u in USERS { if let Some(b) = one::<B>(c, &Qm::Bid { collection: k.into(), token_id: t, bidder: u.into() }, "bid") { bids.insert((k.to_string(), t, u.to_string()), b); } }
        }
        for u in USERS { if let Some(b) = one::<C>(c, &Qm::CollectionBid { collection: k.into(), bidder: u.into() }, "bid") { cbids.insert((k.to_string(), u.to_string()), b); } }
    }
    Snap { p: one(c, &Qm::Params {}, "params").unwrap(), asks, bids, cbids, hooks: [names(c, &Qm::AskHooks {}), names(c, &Qm::SaleHooks {}), names(c, &Qm::BidHooks {})] }
}
impl Snap {
    fn esc(&self) -> i128 { self.bids.values().map(|b| b.price.u128() as i128).sum::<i128>() + self.cbids.values().map(|b| b.price.u128() as i128).sum::<i128>() }
    fn par_ok(&self) -> bool {
        let p = &self.p;
        let h = Decimal::from_ratio(100u128, 1u128);
        let mut o = p.operators.clone(); o.sort(); o.dedup();
        p.trading_fee_percent <= h && p.max_finders_fee_percent <= h && p.bid_removal_reward_percent <= h && p.ask_expiry.min <= p.ask_expiry.max && p.bid_expiry.min <= p.bid_expiry.max && p.stale_bid_duration.get("time").is_some() && o.len() == p.operators.len()
    }
    fn stale_at(&self, e: Timestamp) -> u128 { e.nanos() as u128 + self.p.stale_bid_duration["time"].as_u64().unwrap() as u128 * 1_000_000_000 }
    fn fee_ok(&self, f: Option<u64>) -> bool { f.map_or(true, |x| x as u128 * 10_000_000_000_000_000 <= self.p.max_finders_fee_percent.atomics().u128()) }
}
fn within(r: &Rge, now: u64, e: Timestamp) -> bool { let (n, e) = (now as u128, e.nanos() as u128); n + r.min as u128 * 1_000_000_000 < e && e <= n + r.max as u128 * 1_000_000_000 }
fn strip(p: &Pay) -> Pay { p.iter().filter(|(_, v)| **v != 0).map(|(k, v)| (k.clone(), *v)).collect() }
fn owner<'a>(c: &'a Chain, k: &str, t: u32) -> Option<&'a str> { c.toks.get(&(k.to_string(), t.to_string())).map(|t| t.owner.as_str()) }
fn approved(c: &Chain, k: &str, t: u32) -> bool { c.toks.get(&(k.to_string(), t.to_string())).map_or(false, |t| t.owner == c.me || t.approved.get(&c.me).map_or(false, |e| e.map_or(true, |e| e > c.time))) }
fn tradable(c: &Chain, k: &str) -> bool { c.colls.get(k).map_or(true, |k| k.no_info || k.start.map_or(true, |x| x <= c.time)) }
const POOL: &str = "@pool";
/// what a sale pays, or None when it cannot be paid
fn split(c: &Chain, p: &P, coll: &str, x: u128, seller: &str, finder: &Option<String>, bps: Option<u64>, pay: &mut Pay) -> Option<()> {
    let k = c.colls.get(coll)?;
    if k.no_info { return None; }
    let fee = cent(x, p.trading_fee_percent);
    let ff = match (finder, bps) { (Some(_), Some(b)) => cent(x, Decimal::percent(b)), _ => 0 };
    let r = k.royalty.as_ref().filter(|r| !r.1.is_zero());
    let rf = r.map_or(0, |r| mul_floor(x, r.1.atomics().u128()));
    if fee + ff + rf > x { return None; }
    add(pay, POOL.into(), fee as i128);
    if let Some(f) = finder { add(pay, f.clone(), ff as i128); }
    if let Some(r) = r { add(pay, r.0.clone(), rf as i128); }
    add(pay, seller.to_string(), (x - fee - ff - rf) as i128);
    Some(())
}
struct Out { s2: Snap, pay: Pay, nfts: Vec<(String, String, String)>, calls: Vec<(u64, String, Value)> }
#[derive(Clone, Debug)]
enum Msg { E(Ex), S(Su) }
fn st(t: &SaleType) -> String { match t { SaleType::FixedPrice => "fixed_price".into(), SaleType::Auction => "auction".into() } }
impl Out {
    fn ask_hook(&mut self, what: &str, a: &A) { for h in self.s2.hooks[0].clone() { self.calls.push((1, h, json!({ format!("ask_{}_hook", what): { "ask": a } }))); } }
    fn bid_hook(&mut self, what: &str, b: &B) { for h in self.s2.hooks[2].clone() { self.calls.push((3, h, json!({ format!("bid_{}_hook", what): { "bid": b } }))); } }
    fn sale(&mut self, c: &Chain, k: &str, t: u32, price: u128, seller: &str, buyer: &str, to: &str) {
        let _ = c;
        self.nfts.push((k.into(), t.to_string(), to.into()));
        for h in self.s2.hooks[1].clone() { self.calls.push((2, h, json!({"sale_hook": {"collection": k, "token_id": t, "price": {"denom": NAT, "amount": price.to_string()}, "seller": seller, "buyer": buyer}}))); }
    }
}

pub struct W { c: Chain, ok: bool }
impl W {
    /// the outcome the properties prescribe for an accepted message
    fn want(&self, c0: &Chain, s: &Snap, who: &str, funds: &[Coin], msg: &Msg) -> Option<Out> {
        let mut o = Out { s2: s.clone(), pay: Pay::new(), nfts: vec![], calls: vec![] };
        let sent = funds.iter().find(|c| c.denom == NAT).map_or(0, |c| c.amount.u128());
        let bid = |o: &mut Out, k: &str, t: u32, expires: Timestamp, finder: &Option<String>, bps: Option<u64>, to: &str| -> Option<()> {
            let bk = (k.to_string(), t, who.to_string());
            if let Some(b) = o.s2.bids.remove(&bk) { add(&mut o.pay, who.to_string(), b.price.u128() as i128); }
            if let Some(a) = s.asks.get(&(k.to_string(), t)) { if a.sale_type == "fixed_price" && a.price.u128() == sent {
                o.s2.asks.remove(&(k.to_string(), t));
                split(c0, &s.p, k, sent, a.funds_recipient.as_ref().unwrap_or(&a.seller), finder, a.finders_fee_bps, &mut o.pay)?;
                o.sale(c0, k, t, sent, &a.seller, who, to);
                return Some(());
            } }
            let b = B { collection: k.into(), token_id: t, bidder: who.into(), price: sent.into(), finders_fee_bps: bps, expires_at: expires };
            o.bid_hook("created", &b);
            o.s2.bids.insert(bk, b);
            Some(())
        };
        match msg {
            Msg::E(Ex::SetAsk { sale_type, collection, token_id, price, funds_recipient, reserve_for, finders_fee_bps, expires }) => {
                let a = A { sale_type: st(sale_type), collection: collection.clone(), token_id: *token_id, seller: who.into(), price: price.amount, funds_recipient: funds_recipient.clone(), reserve_for: reserve_for.clone(), finders_fee_bps: *finders_fee_bps, expires_at: *expires, is_active: true };
                add(&mut o.pay, POOL.into(), s.p.listing_fee.u128() as i128);
                o.ask_hook("created", &a);
                o.s2.asks.insert((collection.clone(), *token_id), a);
            }
            Msg::E(Ex::RemoveAsk { collection, token_id }) | Msg::E(Ex::RemoveStaleAsk { collection, token_id }) => { let a = o.s2.asks.remove(&(collection.clone(), *token_id))?; o.ask_hook("deleted", &a); }
            Msg::E(Ex::UpdateAskPrice { collection, token_id, price }) => { let mut a = s.asks.get(&(collection.clone(), *token_id))?.clone(); a.price = price.amount; o.ask_hook("updated", &a); o.s2.asks.insert((collection.clone(), *token_id), a); }
            Msg::E(Ex::SyncAsk { collection, token_id }) => { let mut a = s.asks.get(&(collection.clone(), *token_id))?.clone(); a.is_active = approved(c0, collection, *token_id); o.ask_hook("updated", &a); o.s2.asks.insert((collection.clone(), *token_id), a); }
            Msg::E(Ex::SetBid { collection, token_id, expires, finder, finders_fee_bps, .. }) | Msg::E(Ex::BuyNow { collection, token_id, expires, finder, finders_fee_bps }) => bid(&mut o, collection, *token_id, *expires, finder, *finders_fee_bps, who)?,
            Msg::E(Ex::BuyFor { collection, token_id, expires, finder, finders_fee_bps, asset_recipient }) => bid(&mut o, collection, *token_id, *expires, finder, *finders_fee_bps, asset_recipient)?,
            Msg::E(Ex::RemoveBid { collection, token_id }) => { let b = o.s2.bids.remove(&(collection.clone(), *token_id, who.to_string()))?; add(&mut o.pay, who.into(), b.price.u128() as i128); o.bid_hook("deleted", &b); }
            Msg::E(Ex::RejectBid { collection, token_id, bidder }) => { let b = o.s2.bids.remove(&(collection.clone(), *token_id, bidder.clone()))?; add(&mut o.pay, bidder.clone(), b.price.u128() as i128); o.bid_hook("deleted", &b); }
            Msg::E(Ex::RemoveStaleBid { collection, token_id, bidder }) => {
                let b = o.s2.bids.remove(&(collection.clone(), *token_id, bidder.clone()))?;
                let r = cent(b.price.u128(), s.p.bid_removal_reward_percent);
                add(&mut o.pay, bidder.clone(), (b.price.u128() - r) as i128); add(&mut o.pay, who.into(), r as i128);
                o.bid_hook("deleted", &b);
            }
            Msg::E(Ex::AcceptBid { collection, token_id, bidder, finder }) => {
                let b = o.s2.bids.remove(&(collection.clone(), *token_id, bidder.clone()))?;
                o.s2.asks.remove(&(collection.clone(), *token_id));
                split(c0, &s.p, collection, b.price.u128(), who, finder, b.finders_fee_bps, &mut o.pay)?;
                o.sale(c0, collection, *token_id, b.price.u128(), who, bidder, bidder);
            }
            Msg::E(Ex::SetCollectionBid { collection, expires, finders_fee_bps }) => {
                let k = (collection.clone(), who.to_string());
                if let Some(b) = o.s2.cbids.get(&k) { add(&mut o.pay, who.into(), b.price.u128() as i128); }
                o.s2.cbids.insert(k, C { collection: collection.clone(), bidder: who.into(), price: sent.into(), finders_fee_bps: *finders_fee_bps, expires_at: *expires });
            }
            Msg::E(Ex::RemoveCollectionBid { collection }) => { let b = o.s2.cbids.remove(&(collection.clone(), who.to_string()))?; add(&mut o.pay, who.into(), b.price.u128() as i128); }
            Msg::E(Ex::RemoveStaleCollectionBid { collection, bidder }) => {
                let b = o.s2.cbids.remove(&(collection.clone(), bidder.clone()))?;
                let r = cent(b.price.u128(), s.p.bid_removal_reward_percent);
                add(&mut o.pay, bidder.clone(), (b.price.u128() - r) as i128); add(&mut o.pay, who.into(), r as i128);
            }
            Msg::E(Ex::AcceptCollectionBid { collection, token_id, bidder, finder }) => {
                let b = o.s2.cbids.remove(&(collection.clone(), bidder.clone()))?;
                o.s2.asks.remove(&(collection.clone(), *token_id));
                split(c0, &s.p, collection, b.price.u128(), who, finder, b.finders_fee_bps, &mut o.pay)?;
                o.sale(c0, collection, *token_id, b.price.u128(), who, bidder, bidder);
            }
            Msg::S(Su::UpdateParams { trading_fee_bps, ask_expiry, bid_expiry, max_finders_fee_bps, min_price, stale_bid_duration, bid_removal_reward_bps, listing_fee, .. }) => {
                let p = &mut o.s2.p;
                if let Some(x) = trading_fee_bps { p.trading_fee_percent = Decimal::percent(*x); }
                if let Some(x) = ask_expiry { p.ask_expiry = Rge { min: x.min, max: x.max }; }
                if let Some(x) = bid_expiry { p.bid_expiry = Rge { min: x.min, max: x.max }; }
                if let Some(x) = max_finders_fee_bps { p.max_finders_fee_percent = Decimal::percent(*x); }
                if let Some(x) = min_price { p.min_price = *x; }
                if let Some(x) = stale_bid_duration { p.stale_bid_duration = json!({ "time": x }); }
                if let Some(x) = bid_removal_reward_bps { p.bid_removal_reward_percent = Decimal::percent(*x); }
                if let Some(x) = listing_fee { p.listing_fee = *x; }
            }
            Msg::S(Su::AddOperator { operator }) => { if s.p.operators.contains(operator) { return None; } o.s2.p.operators.push(operator.clone()); }
            Msg::S(Su::RemoveOperator { operator }) => { if !s.p.operators.contains(operator) { return None; } o.s2.p.operators.retain(|x| x != operator); }
            Msg::S(h) => {
                let (i, on, h) = match h { Su::AddAskHook { hook } => (0, true, hook), Su::RemoveAskHook { hook } => (0, false, hook), Su::AddSaleHook { hook } => (1, true, hook), Su::RemoveSaleHook { hook } => (1, false, hook), Su::AddBidHook { hook } => (2, true, hook), Su::RemoveBidHook { hook } => (2, false, hook), _ => unreachable!() };
                if s.hooks[i].contains(h) == on { return None; }
                if on { o.s2.hooks[i].push(h.clone()); } else { o.s2.hooks[i].retain(|x| x != h); }
            }
        }
        Some(o)
    }
    /// the conditions an accepted message must meet: what it misses
    fn gates(&self, c0: &Chain, s: &Snap, who: &str, funds: &[Coin], msg: &Msg) -> Vec<Viol> {
        let mut v = vec![];
        let mut bad = |p: &'static str, w: String| v.push(Viol { prop: p, what: w });
        let now = c0.time;
        let sent: u128 = funds.iter().filter(|c| c.denom == NAT).map(|c| c.amount.u128()).sum();
        if pay_free(msg) && !funds.is_empty() { bad("P11", "kept funds of a message with nothing to pay for".into()); }
        let own = |k: &str, t: u32| owner(c0, k, t) == Some(who);
        // who may act
        match msg {
            Msg::E(Ex::SetAsk { collection, token_id, .. } | Ex::RemoveAsk { collection, token_id } | Ex::UpdateAskPrice { collection, token_id, .. } | Ex::AcceptBid { collection, token_id, .. } | Ex::RejectBid { collection, token_id, .. } | Ex::AcceptCollectionBid { collection, token_id, .. }) => if !own(collection, *token_id) { bad("P13", format!("{} is not the owner", who)); },
            Msg::E(Ex::SyncAsk { .. } | Ex::RemoveStaleAsk { .. } | Ex::RemoveStaleBid { .. } | Ex::RemoveStaleCollectionBid { .. }) => if !s.p.operators.iter().any(|o| o == who) { bad("P13", format!("{} is not an operator", who)); },
            _ => {}
        }
        // limits
        let min = s.p.min_price.u128();
        let bid_ok = |f: Option<u64>, x: Timestamp| funds.len() == 1 && funds[0].denom == NAT && sent > 0 && sent >= min && within(&s.p.bid_expiry, now, x) && s.fee_ok(f);
        match msg {
            Msg::E(Ex::SetAsk { collection, token_id, price, expires, finders_fee_bps, sale_type, reserve_for, .. }) => {
                let p = price.amount.u128();
                if price.denom != NAT || p == 0 || p < min || p > MAXASK { bad("P15", format!("listed at {}", price)); }
                if !within(&s.p.ask_expiry, now, *expires) { bad("P15", "listed with an expiry outside the window".into()); }
                if !s.fee_ok(*finders_fee_bps) { bad("P15", "listed with too high a finder's fee".into()); }
                if !approved(c0, collection, *token_id) { bad("P15", "listed without approval".into()); }
                if !tradable(c0, collection) { bad("P15", "listed before trading starts".into()); }
                if sent != s.p.listing_fee.u128() { bad("P15", format!("listed for a fee of {}", sent)); }
                if let Some(r) = reserve_for { if r == who || *sale_type != SaleType::FixedPrice { bad("P15", "reserved for the seller or in an auction".into()); } }
            }
            Msg::E(Ex::UpdateAskPrice { collection, token_id, price }) => {
                let p = price.amount.u128();
                if price.denom != NAT || p == 0 || p < min || p > MAXASK { bad("P15", format!("repriced to {}", price)); }
                if s.asks.get(&(collection.clone(), *token_id)).map_or(true, |a| !a.is_active || a.expires_at.nanos() <= now) { bad("P15", "repriced an inactive or expired listing".into()); }
            }
            Msg::E(Ex::SetBid { collection, token_id, expires, finder, finders_fee_bps, .. } | Ex::BuyNow { collection, token_id, expires, finder, finders_fee_bps } | Ex::BuyFor { collection, token_id, expires, finder, finders_fee_bps, .. }) => {
                if !bid_ok(*finders_fee_bps, *expires) { bad("P15", "a bid outside the limits".into()); }
                if finder.as_deref() == Some(who) { bad("P15", "a bidder found themselves".into()); }
                match s.asks.get(&(collection.clone(), *token_id)) {
                    Some(a) => {
                        if !a.is_active || a.expires_at.nanos() <= now || a.reserve_for.as_ref().map_or(false, |r| r != who) { bad("P14", format!("a bid on the listing {:?}", a)); }
                        let p = a.price.u128();
                        if a.sale_type == "fixed_price" { if sent > p { bad("P14", "paid more than the fixed price".into()); } if sent == p && owner(c0, collection, *token_id) != Some(&a.seller) { bad("P14", "bought from somebody who is not the owner".into()); } }
                        else if sent < p { bad("P14", "a bid below the auction's price".into()); }
                    }
                    None => if !matches!(msg, Msg::E(Ex::SetBid { .. })) { bad("P14", "bought what is not for sale".into()); },
                }
            }
            Msg::E(Ex::SetCollectionBid { expires, finders_fee_bps, .. }) => if !bid_ok(*finders_fee_bps, *expires) { bad("P15", "a collection bid outside the limits".into()); },
            Msg::E(Ex::AcceptBid { collection, token_id, bidder, .. }) => {
                if s.bids.get(&(collection.clone(), *token_id, bidder.clone())).map_or(true, |b| b.expires_at.nanos() <= now) { bad("P15", "accepted an expired bid".into()); }
                if !tradable(c0, collection) { bad("P15", "a sale before trading starts".into()); }
            }
            Msg::E(Ex::AcceptCollectionBid { collection, bidder, .. }) => {
                if s.cbids.get(&(collection.clone(), bidder.clone())).map_or(true, |b| b.expires_at.nanos() <= now) { bad("P15", "accepted an expired bid".into()); }
                if !tradable(c0, collection) { bad("P15", "a sale before trading starts".into()); }
            }
            Msg::E(Ex::RemoveStaleBid { collection, token_id, bidder }) => if s.bids.get(&(collection.clone(), *token_id, bidder.clone())).map_or(true, |b| s.stale_at(b.expires_at) > now as u128) { bad("P17", "removed a bid that is not stale".into()); },
            Msg::E(Ex::RemoveStaleCollectionBid { collection, bidder }) => if s.cbids.get(&(collection.clone(), bidder.clone())).map_or(true, |b| s.stale_at(b.expires_at) > now as u128) { bad("P17", "removed a collection bid that is not stale".into()); },
            Msg::E(Ex::RemoveStaleAsk { collection, token_id }) => if s.asks.get(&(collection.clone(), *token_id)).map_or(true, |a| a.expires_at.nanos() > now && owner(c0, collection, *token_id).is_some() && approved(c0, collection, *token_id)) { bad("P17", "removed a listing that is not stale".into()); },
            _ => {}
        }
        v
    }
    /// a governance request that has to be accepted
    fn gov(&self, s: &Snap, m: &Su) -> bool {
        let ok = |a: &String| cosmwasm_std::testing::MockApi::default().addr_validate(a).is_ok();
        let room = |i: usize, h: &String| ok(h) && s.hooks[i].len() < 5 && !s.hooks[i].contains(h);
        let bps = |x: &Option<u64>| x.map_or(true, |x| x <= 10_000);
        match m {
            Su::UpdateParams { trading_fee_bps, ask_expiry, bid_expiry, max_finders_fee_bps, bid_removal_reward_bps, .. } => bps(trading_fee_bps) && bps(max_finders_fee_bps) && bps(bid_removal_reward_bps) && ask_expiry.as_ref().map_or(true, |r| r.min <= r.max) && bid_expiry.as_ref().map_or(true, |r| r.min <= r.max),
            Su::AddOperator { operator } => ok(operator) && !s.p.operators.contains(operator),
            Su::RemoveOperator { operator } => ok(operator) && s.p.operators.contains(operator),
            Su::AddAskHook { hook } => room(0, hook),
            Su::AddSaleHook { hook } => room(1, hook),
            Su::AddBidHook { hook } => room(2, hook),
            Su::RemoveAskHook { hook } => ok(hook) && s.hooks[0].contains(hook),
            Su::RemoveSaleHook { hook } => ok(hook) && s.hooks[1].contains(hook),
            Su::RemoveBidHook { hook } => ok(hook) && s.hooks[2].contains(hook),
        }
    }
    /// a request that meets every condition and can be carried out: it may not be refused
    fn allowed(&self, c0: &Chain, s: &Snap, who: &str, funds: &[Coin], msg: &Msg) -> bool {
        let e = match msg { Msg::E(e) => e, Msg::S(m) => return self.gov(s, m) };
        let ok = |a: &String| cosmwasm_std::testing::MockApi::default().addr_validate(a).is_ok();
        let opt = |a: &Option<String>| a.as_ref().map_or(true, |a| ok(a));
        let names = match e {
            Ex::SetAsk { collection, funds_recipient, reserve_for, .. } => ok(collection) && opt(funds_recipient) && opt(reserve_for),
            Ex::SetBid { collection, finder, .. } | Ex::BuyNow { collection, finder, .. } => ok(collection) && opt(finder),
            Ex::BuyFor { collection, finder, asset_recipient, .. } => ok(collection) && opt(finder) && ok(asset_recipient),
            Ex::AcceptBid { collection, bidder, finder, .. } | Ex::AcceptCollectionBid { collection, bidder, finder, .. } => ok(collection) && ok(bidder) && opt(finder),
            Ex::RejectBid { collection, bidder, .. } | Ex::RemoveStaleBid { collection, bidder, .. } | Ex::RemoveStaleCollectionBid { collection, bidder } => ok(collection) && ok(bidder),
            Ex::RemoveAsk { collection, .. } | Ex::UpdateAskPrice { collection, .. } | Ex::RemoveBid { collection, .. } | Ex::SetCollectionBid { collection, .. } | Ex::RemoveCollectionBid { collection } | Ex::SyncAsk { collection, .. } | Ex::RemoveStaleAsk { collection, .. } => ok(collection),
        };
        let more = match e {
            Ex::SetAsk { .. } => funds.is_empty() || (funds.len() == 1 && funds[0].denom == NAT),
            Ex::SyncAsk { collection, token_id } => s.asks.get(&(collection.clone(), *token_id)).map_or(false, |a| a.is_active != approved(c0, collection, *token_id)),
            _ => true,
        };
        names && more && s.par_ok() && self.gates(c0, s, who, funds, msg).is_empty() && self.want(c0, s, who, funds, msg).is_some()
    }
    fn judge(&self, c0: &Chain, s: &Snap, s2: &Snap, who: &str, funds: &[Coin], msg: &Msg, e: &Effects, v: &mut Vec<Viol>) {
        let mut bad = |p: &'static str, w: String| v.push(Viol { prop: p, what: w });
        let sent: u128 = funds.iter().filter(|c| c.denom == NAT).map(|c| c.amount.u128()).sum();
        let out = *e.out.get(NAT).unwrap_or(&0);
        if s2.esc() + out != s.esc() + sent as i128 { bad("P11", format!("bids {} + funds {} became bids {} + payouts {}", s.esc(), sent, s2.esc(), out)); }
        if self.c.bal(&self.c.me, NAT) as i128 != s2.esc() { bad("P11", format!("contract holds {} and owes {}", self.c.bal(&self.c.me, NAT), s2.esc())); }
        if funds.iter().any(|c| c.denom != NAT && !c.amount.is_zero()) { bad("P11", format!("accepted with {:?}", funds)); }
        if s2.bids.values().any(|b| b.price.is_zero()) || s2.cbids.values().any(|b| b.price.is_zero()) { bad("P11", "a bid of nothing".into()); }
        if e.zero_send { bad("P11", "a zero-amount payment".into()); }
        if !s2.par_ok() { bad("P16", format!("parameters out of bounds: {:?}", s2.p)); }
        for (k, a) in &s2.asks {
            if (&a.collection, a.token_id) != (&k.0, k.1) { bad("P13", format!("listing {:?} stored as {:?}", a, k)); }
            if a.price.is_zero() || a.price.u128() > MAXASK || a.reserve_for.as_ref().map_or(false, |r| a.sale_type != "fixed_price" || *r == a.seller) { bad("P15", format!("stored listing {:?}", a)); }
        }
        for (i, h) in s2.hooks.iter().enumerate() { let mut x = h.clone(); x.sort(); x.dedup(); if x.len() != h.len() { bad("P18", format!("hook list {} has duplicates: {:?}", i, h)); } }
        v.extend(self.gates(c0, s, who, funds, msg));
        let mut bad = |p: &'static str, w: String| v.push(Viol { prop: p, what: w });
        let w = match self.want(c0, s, who, funds, msg) { Some(w) => w, None => { bad(match msg { Msg::S(Su::AddOperator { .. } | Su::RemoveOperator { .. }) => "P16", Msg::S(_) => "P18", Msg::E(Ex::AcceptBid { .. } | Ex::AcceptCollectionBid { .. } | Ex::SetBid { .. } | Ex::BuyNow { .. } | Ex::BuyFor { .. }) => "P12", _ => "P13" }, "accepted although it cannot be carried out".into()); return; } };
        if w.nfts != e.nfts { bad(if w.nfts.is_empty() && !matches!(msg, Msg::E(Ex::SetBid { .. } | Ex::BuyNow { .. } | Ex::BuyFor { .. })) { "P12" } else { bad2(msg) }, format!("NFT transfers {:?} instead of {:?}", e.nfts, w.nfts)); }
        let mut paid = Pay::new();
        for ((to, d), x) in &e.paid { if d == NAT { add(&mut paid, if to == "@burn" || to == "@fairburnpool" || to == "@community" { POOL.to_string() } else { to.clone() }, *x); } else if *x != 0 { bad("P11", format!("paid {} {}", x, d)); } }
        if strip(&w.pay) != strip(&paid) {
            let p = match msg { Msg::E(Ex::SetAsk { .. }) => "P15", Msg::E(Ex::RemoveStaleBid { .. } | Ex::RemoveStaleCollectionBid { .. }) => "P17", _ => if w.nfts.is_empty() { "P11" } else { "P12" } };
            bad(p, format!("payments {:?} instead of {:?}", strip(&paid), strip(&w.pay)));
        }
        if w.calls != e.hooks { bad("P18", format!("hook calls {:?} instead of {:?}", e.hooks, w.calls)); }
        if w.s2.hooks != s2.hooks { bad("P18", format!("hooks {:?} instead of {:?}", s2.hooks, w.s2.hooks)); }
        let (mut x, mut y) = (w.s2.p.clone(), s2.p.clone());
        x.operators.sort(); y.operators.sort();
        if x != y { bad("P16", format!("parameters {:?} instead of {:?}", s2.p, w.s2.p)); }
        if w.s2.asks != s2.asks { bad(match msg { Msg::E(Ex::SyncAsk { .. }) => "P17", _ => bad3(msg) }, format!("listings {:?} instead of {:?}", s2.asks, w.s2.asks)); }
        if w.s2.bids != s2.bids || w.s2.cbids != s2.cbids { bad(bad3(msg), format!("bids {:?} {:?} instead of {:?} {:?}", s2.bids, s2.cbids, w.s2.bids, w.s2.cbids)); }
    }
    fn run(&mut self, who: &str, funds: &[Coin], msg: Msg, v: &mut Vec<Viol>) -> bool {
        let c0 = self.c.clone();
        let s = snap(&c0);
        let reply = |d: DepsMut, e: Env, r: Reply| m::execute::reply(d, e, r).map_err(|e| e.to_string());
        let r = match msg.clone() {
            Msg::E(x) => self.c.call(who, funds, |d, e, i| m::execute::execute(d, e, i, x).map_err(|e| e.to_string()), reply),
            Msg::S(x) => self.c.call("chain0", &[], |d, e, _| m::sudo::sudo(d, e, x).map_err(|e| e.to_string()), reply),
        };
        match r {
            Ok(r) => {
                let s2 = snap(&self.c);
                self.judge(&c0, &s, &s2, who, funds, &msg, &effects(&r.messages), v);
                true
            }
            Err(e) => {
                if (e.at == "contract" || e.at == "abort") && self.allowed(&c0, &s, who, funds, &msg) { v.push(Viol { prop: "P27", what: format!("a valid request was refused: {}", e.what) }); }
                if e.at == "reply" { v.push(Viol { prop: "P18", what: format!("a failed hook failed the message: {}", e.what) }); }
                if e.at == "message" {
                    let x = e.eff.clone().unwrap_or_default();
                    if e.what.starts_with("contract hook") { v.push(Viol { prop: "P18", what: format!("a failing hook failed the message: {}", e.what) }); }
                    else if x.zero_send { v.push(Viol { prop: "P11", what: format!("zero-amount transfer: {}", e.what) }); }
                    else if e.what.starts_with("insufficient") { v.push(Viol { prop: "P11", what: format!("the contract cannot pay what it owes: {}", e.what) }); }
                }
                false
            }
        }
    }
}
fn pay_free(m: &Msg) -> bool { matches!(m, Msg::E(Ex::RemoveAsk { .. } | Ex::UpdateAskPrice { .. } | Ex::RemoveBid { .. } | Ex::AcceptBid { .. } | Ex::RejectBid { .. } | Ex::RemoveCollectionBid { .. } | Ex::AcceptCollectionBid { .. } | Ex::SyncAsk { .. } | Ex::RemoveStaleAsk { .. } | Ex::RemoveStaleBid { .. } | Ex::RemoveStaleCollectionBid { .. })) }
fn bad2(m: &Msg) -> &'static str { match m { Msg::E(Ex::SetBid { .. } | Ex::BuyNow { .. } | Ex::BuyFor { .. }) => "P14", _ => "P12" } }
fn bad3(m: &Msg) -> &'static str { match m { Msg::E(Ex::SetBid { .. } | Ex::BuyNow { .. } | Ex::BuyFor { .. }) => "P14", _ => "P13" } }
impl W {
    /// every query against the stored orders: the page it promises, in order, strictly past the cursor
    fn queries(&self, s: &Snap, r: &mut Rng, v: &mut Vec<Viol>, log: &mut Vec<String>) {
        fn page<K: Ord, V: Serialize>(all: Vec<(K, V)>, cur: &Option<K>, desc: bool, lim: Option<u32>) -> Vec<Value> {
            let mut a = all;
            a.sort_by(|x, y| x.0.cmp(&y.0));
            if desc { a.reverse(); }
            if let Some(c) = cur { a.retain(|x| if desc { x.0 < *c } else { x.0 > *c }); }
            a.truncate(lim.unwrap_or(10).min(100) as usize);
            a.into_iter().map(|x| serde_json::to_value(x.1).unwrap()).collect()
        }
        let coll = r.pick(&COLLS).to_string();
        let tok = *r.pick(&TOKS);
        let who = r.pick(&USERS).to_string();
        let lim = *r.pick(&[None, None, Some(0u32), Some(1), Some(1), Some(2), Some(150)]);
        let inc = *r.pick(&[None, Some(false), Some(true)]);
        let live = |a: &A| inc == Some(true) || a.is_active;
        let cur = r.chance(1, 2);
        let cc = r.pick(&COLLS).to_string();
        let ct = *r.pick(&TOKS);
        let cw = r.pick(&USERS).to_string();
        let prices: Vec<u128> = s.asks.values().map(|a| a.price.u128()).chain(s.bids.values().map(|a| a.price.u128())).chain(s.cbids.values().map(|a| a.price.u128())).chain([0, 100]).collect();
        let cp = *r.pick(&prices);
        let asks: Vec<&A> = s.asks.values().collect();
        let bids: Vec<&B> = s.bids.values().collect();
        let cbids: Vec<&C> = s.cbids.values().collect();
        let ak = |a: &A| (a.collection.clone(), a.token_id);
        let bk = |b: &B| (b.collection.clone(), b.token_id, b.bidder.clone());
        let ck = |b: &C| (b.collection.clone(), b.bidder.clone());
        let (qm, field, want): (Value, &str, Value) = match r.below(20) {
            0 => { let c = if cur { Some(cc.clone()) } else { None }; let mut u: Vec<String> = asks.iter().map(|a| a.collection.clone()).collect(); u.dedup(); (json!({"collections": {"start_after": c, "limit": lim}}), "collections", json!(page(u.into_iter().map(|x| (x.clone(), x)).collect(), &c, false, lim))) }
            k @ (1 | 2) => { let c = if cur { Some(ct) } else { None }; let w = page(asks.iter().filter(|a| a.collection == coll && live(a)).map(|a| (a.token_id, a)).collect(), &c, k == 2, lim); (if k == 1 { json!({"asks": {"collection": coll, "include_inactive": inc, "start_after": c, "limit": lim}}) } else { json!({"reverse_asks": {"collection": coll, "include_inactive": inc, "start_before": c, "limit": lim}}) }, "asks", json!(w)) }
            k @ (3 | 4) => { let c = if cur { Some((cp, ct)) } else { None }; let o = c.map(|c| json!({"price": c.0.to_string(), "token_id": c.1})); let w = page(asks.iter().filter(|a| a.collection == coll && live(a)).map(|a| ((a.price.u128(), a.token_id), a)).collect(), &c, k == 4, lim); (if k == 3 { json!({"asks_sorted_by_price": {"collection": coll, "include_inactive": inc, "start_after": o, "limit": lim}}) } else { json!({"reverse_asks_sorted_by_price": {"collection": coll, "include_inactive": inc, "start_before": o, "limit": lim}}) }, "asks", json!(w)) }
            5 => (json!({"ask_count": {"collection": coll}}), "count", json!(asks.iter().filter(|a| a.collection == coll).count())),
            6 | 7 => { let c = if cur { Some((cc, ct)) } else { None }; let o = c.as_ref().map(|c| json!({"collection": c.0, "token_id": c.1})); let w = page(asks.iter().filter(|a| a.seller == who && live(a)).map(|a| (ak(a), a)).collect(), &c, false, lim); (json!({"asks_by_seller": {"seller": who, "include_inactive": inc, "start_after": o, "limit": lim}}), "asks", json!(w)) }
            8 | 9 => { let c = if cur { Some((cc, ct, who.clone())) } else { None }; let o = c.as_ref().map(|c| json!({"collection": c.0, "token_id": c.1})); let w = page(bids.iter().filter(|a| a.bidder == who).map(|a| (bk(a), a)).collect(), &c, false, lim); (json!({"bids_by_bidder": {"bidder": who, "start_after": o, "limit": lim}}), "bids", json!(w)) }
            10 | 11 => {
                // a cursor naming a bid that does not exist gives no position
                let o = if cur { Some((cc, ct, who.clone())) } else { None };
                let c = o.as_ref().and_then(|k| s.bids.get(k)).map(|b| (b.expires_at.seconds(), bk(b)));
                let w = page(bids.iter().filter(|a| a.bidder == who).map(|a| ((a.expires_at.seconds(), bk(a)), a)).collect(), &c, false, lim);
                (json!({"bids_by_bidder_sorted_by_expiration": {"bidder": who, "start_after": o.map(|c| json!({"collection": c.0, "token_id": c.1})), "limit": lim}}), "bids", json!(w))
            }
            12 => { let c = if cur { Some(cw) } else { None }; let w = page(bids.iter().filter(|a| a.collection == coll && a.token_id == tok).map(|a| (a.bidder.clone(), a)).collect(), &c, false, lim); (json!({"bids": {"collection": coll, "token_id": tok, "start_after": c, "limit": lim}}), "bids", json!(w)) }
            k @ (13 | 14) => { let c = if cur { Some((cp, (coll.clone(), ct, cw))) } else { None }; let o = c.as_ref().map(|c| json!({"price": c.0.to_string(), "token_id": c.1.1, "bidder": c.1.2})); let w = page(bids.iter().filter(|a| a.collection == coll).map(|a| ((a.price.u128(), bk(a)), a)).collect(), &c, k == 14, lim); (if k == 13 { json!({"bids_sorted_by_price": {"collection": coll, "start_after": o, "limit": lim}}) } else { json!({"reverse_bids_sorted_by_price": {"collection": coll, "start_before": o, "limit": lim}}) }, "bids", json!(w)) }
            k @ (15 | 16) => { let c = if cur { Some((cp, (coll.clone(), cw.clone()))) } else { None }; let o = c.as_ref().map(|c| json!({"price": c.0.to_string(), "collection": cc, "bidder": c.1.1})); let w = page(cbids.iter().filter(|a| a.collection == coll).map(|a| ((a.price.u128(), ck(a)), a)).collect(), &c, k == 16, lim); (if k == 15 { json!({"collection_bids_sorted_by_price": {"collection": coll, "start_after": o, "limit": lim}}) } else { json!({"reverse_collection_bids_sorted_by_price": {"collection": coll, "start_before": o, "limit": lim}}) }, "bids", json!(w)) }
            17 => { let c = if cur { Some((cc, who.clone())) } else { None }; let o = c.as_ref().map(|c| json!({"collection": c.0, "token_id": ct})); let w = page(cbids.iter().filter(|a| a.bidder == who).map(|a| (ck(a), a)).collect(), &c, false, lim); (json!({"collection_bids_by_bidder": {"bidder": who, "start_after": o, "limit": lim}}), "bids", json!(w)) }
            18 => {
                let o = if cur { Some((cc, if r.chance(4, 5) { who.clone() } else { cw })) } else { None };
                let c = o.as_ref().and_then(|k| s.cbids.get(k)).map(|b| (b.expires_at.seconds(), ck(b)));
                let w = page(cbids.iter().filter(|a| a.bidder == who).map(|a| ((a.expires_at.seconds(), ck(a)), a)).collect(), &c, false, lim);
                (json!({"collection_bids_by_bidder_sorted_by_expiration": {"bidder": who, "start_after": o.map(|c| json!({"collection": c.0, "bidder": c.1, "price": "1"})), "limit": lim}}), "bids", json!(w))
            }
            _ => {
                // the ids of what was stored, seen through the lists, are the ones the single queries give
                let w = page(asks.iter().filter(|a| a.collection == coll).map(|a| (a.token_id, a)).collect(), &None, false, Some(100));
                (json!({"asks": {"collection": coll, "include_inactive": true, "limit": 100}}), "asks", json!(w))
            }
        };
        let Ok(m) = serde_json::from_value::<Qm>(qm.clone()) else { return };
        let got: Result<Value, String> = q(&self.c, &m);
        let ok = match &got { Ok(g) => g.get(field) == Some(&want), Err(_) => false };
        if !ok {
            log.push(format!("query {}", qm));
            v.push(Viol { prop: "P26", what: format!("the answer {} is not what is stored: {}", got.map(|g| g.to_string()).unwrap_or_else(|e| e), want) });
        }
    }
}
impl World for W {
    fn new(r: &mut Rng, log: &mut Vec<String>, v: &mut Vec<Viol>) -> W {
        let t0 = 1_000_000_000_000 + r.below(3) * 400_000_000;
        let mut c = Chain { me: "marketplace".into(), height: 10, time: t0, registry: "registry".into(), ..Default::default() };
        for u in USERS.iter().chain(&OPS) { for d in [NAT, "uatom"] { c.bank.insert((u.to_string(), d.to_string()), u128::MAX >> 8); } }
        for (i, k) in COLLS.iter().enumerate() {
            let share = *r.pick(&[Decimal::zero(), Decimal::bps(1), Decimal::percent(5), Decimal::percent(10), Decimal::percent(97), Decimal::raw(33_333_333_333_333_333)]);
            let rec = if r.chance(1, 6) { "alice0".to_string() } else { format!("royal{}", i) };
            c.colls.insert(k.to_string(), Coll { creator: "creator".into(), start: if r.chance(1, 3) { Some(t0 + 1_000_000_000 * r.below(3)) } else { None }, royalty: if r.chance(2, 3) { Some((rec, share)) } else { None }, no_info: r.chance(1, 12) });
            for t in TOKS { let u = r.pick(&USERS).to_string(); let mut tok = Tok { owner: u, approved: Default::default() }; if r.chance(4, 5) { tok.approved.insert(c.me.clone(), None); } c.toks.insert((k.to_string(), t.to_string()), tok); }
        }
        for h in HOOKS { if r.chance(1, 3) { c.fail.insert(h.into()); } }
        let bps = |r: &mut Rng| *r.pick(&[0u64, 1, 25, 200, 200, 1000, 3333, 10000, 10001]);
        let im: InstantiateMsg = serde_json::from_value(json!({
            "trading_fee_bps": bps(r), "ask_expiry": range(r), "bid_expiry": range(r), "operators": (0..r.below(4)).map(|_| r.pick(&OPS).to_string()).collect::<Vec<_>>(),
            "sale_hook": if r.chance(1, 2) { Some(*r.pick(&HOOKS)) } else { None }, "max_finders_fee_bps": bps(r), "min_price": r.pick(&[0u128, 1, 5, 100]).to_string(),
            "stale_bid_duration": if r.chance(1, 20) { json!({"height": 5}) } else { json!({ "time": r.pick(&[0u64, 5, 100]) }) }, "bid_removal_reward_bps": bps(r), "listing_fee": r.pick(&[0u128, 0, 1, 2, 50]).to_string()})).unwrap();
        log.push(format!("instantiate {}", serde_json::to_string(&im).unwrap()));
        log.push(format!("collections {:?} tokens {:?} failing {:?}", c.colls, c.toks.iter().map(|(k, t)| format!("{:?} of {}{}", k, t.owner, if t.approved.is_empty() { "" } else { " approved" })).collect::<Vec<_>>(), c.fail));
        let mut w = W { c, ok: false };
        let imc = im.clone();
        let r = w.c.call("admin0", &[], |d, e, i| m::execute::instantiate(d, e, i, imc).map_err(|e| e.to_string()), |_, _, _| Ok(sg_std::Response::new()));
        if let Err(e) = &r {
            let fine = im.trading_fee_bps <= 10_000 && im.max_finders_fee_bps <= 10_000 && im.bid_removal_reward_bps <= 10_000 && im.ask_expiry.min <= im.ask_expiry.max && im.bid_expiry.min <= im.bid_expiry.max && to_value(&im.stale_bid_duration).get("time").is_some();
            if fine { v.push(Viol { prop: "P27", what: format!("valid settings were refused: {}", e.what) }); }
        }
        if let Ok(resp) = r {
            w.ok = true;
            let s = snap(&w.c);
            if !s.par_ok() { v.push(Viol { prop: "P16", what: format!("instantiated with parameters out of bounds: {:?}", s.p) }); }
            let mut ops: Vec<String> = im.operators.clone(); ops.sort(); ops.dedup();
            let mut got = s.p.operators.clone(); got.sort();
            let p = &s.p;
            let same = p.trading_fee_percent == Decimal::percent(im.trading_fee_bps) && p.max_finders_fee_percent == Decimal::percent(im.max_finders_fee_bps) && p.bid_removal_reward_percent == Decimal::percent(im.bid_removal_reward_bps)
                && (p.ask_expiry.min, p.ask_expiry.max, p.bid_expiry.min, p.bid_expiry.max) == (im.ask_expiry.min, im.ask_expiry.max, im.bid_expiry.min, im.bid_expiry.max) && p.min_price == im.min_price && p.listing_fee == im.listing_fee && p.stale_bid_duration == to_value(&im.stale_bid_duration) && got == ops;
            if !same { v.push(Viol { prop: "P16", what: format!("the stored parameters {:?} are not the ones given", p) }); }
            if s.hooks != [vec![], im.sale_hook.iter().cloned().collect::<Vec<_>>(), vec![]] { v.push(Viol { prop: "P18", what: format!("instantiated with the hooks {:?}", s.hooks) }); }
            if !resp.messages.is_empty() || s.esc() != 0 { v.push(Viol { prop: "P11", what: "instantiate moved value".into() }); }
        }
        w
    }
    fn step(&mut self, r: &mut Rng, log: &mut Vec<String>, v: &mut Vec<Viol>) {
        if !self.ok { return; }
        if r.chance(1, 30) { self.c.drift(r, log); return; }
        if r.chance(1, 25) { if let Some(what) = self.c.migration(r, log, "marketplace", Some("crates.io:sg-marketplace"), true, |d, e| m::execute::migrate(d, e, Empty {}).map_err(|e| e.to_string())) { v.push(Viol { prop: "P30", what }); } return; }
        let s = snap(&self.c);
        if r.chance(1, 8) { for _ in 0..3 { self.queries(&s, r, v, log); } }
        let line = |w: &W, who: &str, m: &str, funds: &[Coin], ok: bool| format!("{} sends {} with {:?} at {} [{}]", who, m, funds.iter().map(|c| c.to_string()).collect::<Vec<_>>(), w.c.time, if ok { "accepted" } else { "rejected" });
        let j = |m: &Msg| match m { Msg::E(x) => serde_json::to_string(x).unwrap(), Msg::S(x) => serde_json::to_string(x).unwrap() };
        let k = r.below(44);
        if k < 4 {
            // time passes, often to the edge of an order's life
            let mut ts: Vec<u128> = s.asks.values().map(|a| a.expires_at.nanos() as u128).collect();
            for e in s.bids.values().map(|b| b.expires_at).chain(s.cbids.values().map(|b| b.expires_at)) { ts.push(e.nanos() as u128); ts.push(s.stale_at(e)); ts.push(s.stale_at(e)); }
            ts.retain(|t| *t + 2_000_000_000 > self.c.time as u128 && *t < self.c.time as u128 + 300_000_000_000);
            let t = if !ts.is_empty() && r.chance(1, 2) { let d = *r.pick(&[0i64, 0, -1_000_000_000, 1_000_000_000, -1, 1]); (*r.pick(&ts) as i64 + d) as u64 } else { self.c.time + *r.pick(&[0u64, 300_000_000, 1_000_000_000, 5_000_000_000]) };
            self.c.time = t.max(self.c.time);
            self.c.height += 1;
            log.push(format!("time {}", self.c.time));
            return;
        }
        if k < 7 {
            // an owner grants or withdraws the approval, moves or burns the NFT
            let mut kk = (r.pick(&COLLS).to_string(), r.pick(&TOKS).to_string());
            // often: an approval disappears under a live listing, or returns under an inactive one
            let listed: Vec<A> = s.asks.values().cloned().collect();
            let flip = !listed.is_empty() && r.chance(1, 2);
            let mut dead = false;
            if flip {
                let idle: Vec<A> = listed.iter().filter(|a| !a.is_active).cloned().collect();
                let a = if !idle.is_empty() && r.chance(3, 4) { r.pick(&idle).clone() } else { r.pick(&listed).clone() };
                kk = (a.collection.clone(), a.token_id.to_string());
                dead = !a.is_active;
            }
            let e = *r.pick(&[None, None, None, Some(self.c.time), Some(self.c.time + 1), Some(self.c.time + 10_000_000_000)]);
            let me = self.c.me.clone();
            let what = if flip { if dead { 0 } else { 4 } } else { r.below(8) };
            let to = r.pick(&USERS).to_string();
            match what {
                0..=3 => { if let Some(t) = self.c.toks.get_mut(&kk) { t.approved.insert(me, e); } }
                4 => { if let Some(t) = self.c.toks.get_mut(&kk) { t.approved.clear(); } }
                5 | 6 => { if let Some(t) = self.c.toks.get_mut(&kk) { t.approved.clear(); t.owner = to.clone(); if r.chance(1, 2) { t.approved.insert(me, e); } } }
                _ => { if r.chance(1, 4) { self.c.toks.remove(&kk); } }
            }
            log.push(format!("world {:?}: {} {:?} {}", kk, what, e, to));
            return;
        }
        let mut who = r.pick(&USERS).to_string();
        let mut funds: Vec<Coin> = vec![];
        let coll = r.pick(&COLLS).to_string();
        let (mut collection, mut token_id) = (coll.clone(), *r.pick(&TOKS));
        let asks: Vec<A> = s.asks.values().cloned().collect();
        let bids: Vec<B> = s.bids.values().cloned().collect();
        let cbids: Vec<C> = s.cbids.values().cloned().collect();
        let exp = |r: &mut Rng, g: &Rge, now: u64| { let (lo, hi) = (now.saturating_add(g.min * 1_000_000_000), now.saturating_add(g.max * 1_000_000_000)); Timestamp::from_nanos(*r.pick(&[hi, hi, hi, lo + 1, lo + 1, lo, hi + 1, lo / 2 + hi / 2, lo / 2 + hi / 2])) };
        let maxf = (s.p.max_finders_fee_percent.atomics().u128() / 10_000_000_000_000_000) as u64;
        let bps = |r: &mut Rng| if r.chance(1, 2) { Some(*r.pick(&[0u64, 1, maxf, maxf, maxf / 2, maxf + 1])) } else { None };
        let amt = |r: &mut Rng| { let m = s.p.min_price.u128(); let (a, b) = (*r.pick(&AMTS), *r.pick(&AMTS)); *r.pick(&[m, m, m.saturating_sub(1), m + 1, a, b, b]) };
        let opt = |r: &mut Rng, x: &str| if r.chance(1, 3) { Some(x.to_string()) } else { None };
        let now = self.c.time;
        let msg = match k {
            7..=14 => {
                let mine: Vec<(String, u32)> = self.c.toks.iter().filter(|(_, t)| t.owner == who && (t.approved.contains_key(&self.c.me) || r.chance(1, 10))).map(|(k, _)| (k.0.clone(), k.1.parse().unwrap())).collect();
                if !mine.is_empty() && r.chance(9, 10) { (collection, token_id) = r.pick(&mine).clone(); }
                let f = s.p.listing_fee.u128();
                let x = if r.chance(1, 12) { f + 1 } else { f };
                if x > 0 { funds.push(coin(x, NAT)); }
                let rf = if r.chance(1, 4) { Some(r.pick(&USERS).to_string()) } else { None };
                let d = if r.chance(1, 20) { "uatom" } else { NAT };
                Msg::E(Ex::SetAsk { sale_type: if r.chance(2, 3) { SaleType::FixedPrice } else { SaleType::Auction }, collection, token_id, price: coin(amt(r), d), funds_recipient: opt(r, "payee0"), reserve_for: rf, finders_fee_bps: bps(r), expires: exp(r, &s.p.ask_expiry, now) })
            }
            15 => { if !asks.is_empty() { let a = r.pick(&asks); (collection, token_id) = (a.collection.clone(), a.token_id); if r.chance(4, 5) { who = a.seller.clone(); } } Msg::E(Ex::RemoveAsk { collection, token_id }) }
            16 | 17 => { if !asks.is_empty() { let a = r.pick(&asks); (collection, token_id) = (a.collection.clone(), a.token_id); if r.chance(4, 5) { who = a.seller.clone(); } } let d = if r.chance(1, 20) { "uatom" } else { NAT }; Msg::E(Ex::UpdateAskPrice { collection, token_id, price: coin(amt(r), d) }) }
            18..=27 => {
                let mut x = amt(r);
                if !asks.is_empty() && r.chance(3, 4) { let a = r.pick(&asks).clone(); (collection, token_id) = (a.collection.clone(), a.token_id); if let (Some(u), true) = (&a.reserve_for, r.chance(3, 4)) { who = u.clone(); } let p = a.price.u128(); x = *r.pick(&[p, p, p, p, p + 1, p.saturating_sub(1), x]); }
                if x > 0 { funds.push(coin(x, if r.chance(1, 25) { "uatom" } else { NAT })); }
                let finder = if r.chance(1, 2) { Some(if r.chance(1, 8) { who.clone() } else { "finder".to_string() }) } else { None };
                let (expires, finders_fee_bps) = (exp(r, &s.p.bid_expiry, now), bps(r));
                match k { 18..=22 => Msg::E(Ex::SetBid { collection, token_id, expires, sale_type: SaleType::FixedPrice, finder, finders_fee_bps }), 23 | 24 => Msg::E(Ex::BuyNow { collection, token_id, expires, finder, finders_fee_bps }), _ => Msg::E(Ex::BuyFor { collection, token_id, expires, finder, finders_fee_bps, asset_recipient: r.pick(&["friend", "alice0"]).to_string() }) }
            }
            28 => { if !bids.is_empty() { let b = r.pick(&bids); (collection, token_id) = (b.collection.clone(), b.token_id); if r.chance(4, 5) { who = b.bidder.clone(); } } Msg::E(Ex::RemoveBid { collection, token_id }) }
            29..=31 => {
                let mut bidder = r.pick(&USERS).to_string();
                if !bids.is_empty() { let b = r.pick(&bids); (collection, token_id, bidder) = (b.collection.clone(), b.token_id, b.bidder.clone()); if let (Some(o), true) = (owner(&self.c, &collection, token_id), r.chance(9, 10)) { who = o.to_string(); } }
                if k == 31 && r.chance(1, 2) { Msg::E(Ex::RejectBid { collection, token_id, bidder }) } else { Msg::E(Ex::AcceptBid { collection, token_id, bidder, finder: opt(r, "finder") }) }
            }
            32 | 33 => { let x = amt(r); if x > 0 { funds.push(coin(x, if r.chance(1, 25) { "uatom" } else { NAT })); } Msg::E(Ex::SetCollectionBid { collection, expires: exp(r, &s.p.bid_expiry, now), finders_fee_bps: bps(r) }) }
            34 => { if !cbids.is_empty() { let b = r.pick(&cbids); collection = b.collection.clone(); if r.chance(4, 5) { who = b.bidder.clone(); } } Msg::E(Ex::RemoveCollectionBid { collection }) }
            35 => {
                let mut bidder = r.pick(&USERS).to_string();
                if !cbids.is_empty() { let b = r.pick(&cbids); (collection, bidder) = (b.collection.clone(), b.bidder.clone()); if let (Some(o), true) = (owner(&self.c, &collection, token_id), r.chance(9, 10)) { who = o.to_string(); } }
                Msg::E(Ex::AcceptCollectionBid { collection, token_id, bidder, finder: opt(r, "finder") })
            }
            36..=39 => {
                if !s.p.operators.is_empty() && r.chance(9, 10) { who = r.pick(&s.p.operators).clone(); }
                if !asks.is_empty() && r.chance(9, 10) { let a = r.pick(&asks); (collection, token_id) = (a.collection.clone(), a.token_id); }
                if k == 36 { if let Some(a) = asks.iter().find(|a| a.is_active != approved(&self.c, &a.collection, a.token_id)) { if r.chance(3, 4) { (collection, token_id) = (a.collection.clone(), a.token_id); } } }
                if k == 37 { if let Some(a) = asks.iter().find(|a| !a.is_active) { if r.chance(1, 2) { (collection, token_id) = (a.collection.clone(), a.token_id); } } }
                match k {
                    36 => Msg::E(Ex::SyncAsk { collection, token_id }),
                    37 => Msg::E(Ex::RemoveStaleAsk { collection, token_id }),
                    38 => { let mut bidder = r.pick(&USERS).to_string(); if !bids.is_empty() { let b = r.pick(&bids); (collection, token_id, bidder) = (b.collection.clone(), b.token_id, b.bidder.clone()); } Msg::E(Ex::RemoveStaleBid { collection, token_id, bidder }) }
                    _ => { let mut bidder = r.pick(&USERS).to_string(); if !cbids.is_empty() { let b = r.pick(&cbids); (collection, bidder) = (b.collection.clone(), b.bidder.clone()); } Msg::E(Ex::RemoveStaleCollectionBid { collection, bidder }) }
                }
            }
            40 => {
                let o = |r: &mut Rng| r.chance(1, 4);
                let b = |r: &mut Rng| *r.pick(&[0u64, 1, 25, 250, 5000, 9999, 10000, 10001]);
                let mut x = serde_json::Map::new();
                for f in ["trading_fee_bps", "max_finders_fee_bps", "bid_removal_reward_bps"] { if o(r) { x.insert(f.into(), json!(b(r))); } }
                for f in ["ask_expiry", "bid_expiry"] { if o(r) { x.insert(f.into(), range(r)); } }
                if o(r) { x.insert("min_price".into(), json!(r.pick(&[0u128, 1, 7, 100]).to_string())); }
                if o(r) { x.insert("listing_fee".into(), json!(r.pick(&[0u128, 1, 7]).to_string())); }
                if o(r) { x.insert("stale_bid_duration".into(), json!(*r.pick(&[0u64, 3, 60]))); }
                if o(r) { x.insert("operators".into(), json!([OPS[0]])); }
                Msg::S(serde_json::from_value(json!({ "update_params": x })).unwrap())
            }
            41 => { let operator = if !s.p.operators.is_empty() && r.chance(1, 3) { r.pick(&s.p.operators).clone() } else { r.pick(&OPS).to_string() }; Msg::S(if r.chance(2, 3) { Su::AddOperator { operator } } else { Su::RemoveOperator { operator } }) }
            _ => { let on: Vec<String> = s.hooks.concat(); let hook = if !on.is_empty() && r.chance(1, 3) { r.pick(&on).clone() } else { r.pick(&HOOKS).to_string() }; Msg::S(match r.below(9) { 0 | 6 => Su::AddAskHook { hook }, 1 | 7 => Su::AddBidHook { hook }, 2 | 8 => Su::AddSaleHook { hook }, 3 => Su::RemoveAskHook { hook }, 4 => Su::RemoveBidHook { hook }, _ => Su::RemoveSaleHook { hook } }) }
        };
        if matches!(msg, Msg::E(_)) && funds.is_empty() && r.chance(1, 20) { funds = vec![coin(5, if r.chance(1, 2) { NAT } else { "uatom" })]; }
        if !funds.is_empty() && r.chance(1, 25) { funds.push(coin(3, "uatom")); funds.sort_by(|a, b| a.denom.cmp(&b.denom)); funds.dedup_by(|a, b| a.denom == b.denom); }
        if matches!(msg, Msg::S(_)) { who = "chain".into(); funds.clear(); }
        if r.chance(1, 30) { if !self.c.fail.remove("hook01") { self.c.fail.insert("hook01".into()); } }
        let ok = self.run(&who, &funds, msg.clone(), v);
        log.push(line(self, &who, &j(&msg), &funds, ok));
    }
}
fn range(r: &mut Rng) -> Value { let min = *r.pick(&[0u64, 1, 2]); let max = *r.pick(&[10u64, 60, 60, 200, 1]); json!({"min": min, "max": max}) }
