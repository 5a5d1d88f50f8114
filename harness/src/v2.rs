//! stargaze-marketplace-v2: random histories of the real contract against the contracts' clauses
//! evaluated on concrete states (same clauses as /verif/contracts/v2/spec.rs).
use crate::chain::*;
use crate::{World, Viol};
use cosmwasm_std::*;
use sg_index_query::{QueryBound, QueryOptions};
use stargaze_marketplace_v2 as m;
use m::msg::{ExecuteMsg as Ex, InstantiateMsg, PriceOffset, QueryMsg as Qm};
use m::orders::{Ask, Bid, CollectionBid, OrderDetails};
use m::state::*;
use std::collections::{BTreeMap, BTreeSet};

type B<V> = BTreeMap<String, V>;
type Pay = BTreeMap<(String, String), i128>;
#[derive(Clone, PartialEq, Debug)]
struct Snap { cfg: Config<Addr>, denoms: B<String>, fees: B<u128>, nonce: u64, asks: B<Ask>, bids: B<Bid>, cbids: B<CollectionBid> }
fn snap(c: &Chain) -> Snap {
    let s = &c.store;
    Snap {
        cfg: CONFIG.load(s).unwrap(),
        denoms: COLLECTION_DENOMS.range(s, None, None, Order::Ascending).map(|r| { let (k, v) = r.unwrap(); (k.to_string(), v) }).collect(),
        fees: LISTING_FEES.range(s, None, None, Order::Ascending).map(|r| { let (k, v) = r.unwrap(); (k, v.u128()) }).collect(),
        nonce: NONCE.load(s).unwrap(),
        asks: asks().range(s, None, None, Order::Ascending).map(|r| r.unwrap()).collect(),
        bids: bids().range(s, None, None, Order::Ascending).map(|r| r.unwrap()).collect(),
        cbids: collection_bids().range(s, None, None, Order::Ascending).map(|r| r.unwrap()).collect(),
    }
}
impl Snap {
    fn esc(&self, d: &str) -> i128 {
        let f = |p: &Coin| if p.denom == d { p.amount.u128() as i128 } else { 0 };
        self.bids.values().map(|b| f(&b.details.price)).sum::<i128>() + self.cbids.values().map(|b| f(&b.details.price)).sum::<i128>()
    }
    fn denom_of(&self, c: &str) -> String { self.denoms.get(c).cloned().unwrap_or(self.cfg.default_denom.clone()) }
    fn price_ok(&self, c: &str, p: &Coin) -> bool { !p.amount.is_zero() && p.denom == self.denom_of(c) }
    fn ask_on(&self, c: &str, t: &str) -> Option<&Ask> { self.asks.values().find(|a| a.collection == c && a.token_id == t) }
}
const COLLS: [&str; 2] = ["nftalpha", "nftbravo"];
const TOKS: [&str; 3] = ["1", "2", "11"];
const USERS: [&str; 4] = ["alice0", "bobby0", "carol0", "dave00"];
const DEN: [&str; 2] = ["ustars", "uatom"];
const PRICES: [u128; 14] = [1, 2, 3, 7, 99, 100, 101, 250, 999, 1000, 1001, 12345, 1_000_000_007, 1_000_000_000_000_000_003];

fn bps(x: u64) -> u128 { x as u128 * 100_000_000_000_000 }
const ONE: u128 = 1_000_000_000_000_000_000;
fn mul_ceil(a: u128, share: u128) -> i128 { let p = Uint256::from(a) * Uint256::from(share); let q = p / Uint256::from(ONE); let r = p % Uint256::from(ONE); (Uint128::try_from(q).unwrap().u128() + if r.is_zero() { 0 } else { 1 }) as i128 }
#[derive(Clone, Debug)]
enum Mb { B(Bid), C(CollectionBid) }
impl Mb {
    fn d(&self) -> &OrderDetails<Addr> { match self { Mb::B(b) => &b.details, Mb::C(b) => &b.details } }
    fn recip(&self) -> String { match self { Mb::B(b) => recip(&b.details, &b.creator), Mb::C(b) => recip(&b.details, &b.creator) } }
}
fn recip(d: &OrderDetails<Addr>, c: &Addr) -> String { d.recipient.as_ref().unwrap_or(c).to_string() }
fn daddr(d: &OrderDetails<String>) -> OrderDetails<Addr> { OrderDetails { price: d.price.clone(), recipient: d.recipient.as_ref().map(Addr::unchecked), finder: d.finder.as_ref().map(Addr::unchecked) } }
fn royalty(c: &Chain, coll: &str) -> Option<(String, u128)> {
    if let Some((a, s)) = c.reg_protocol.get(&(coll.to_string(), c.me.clone())) { return Some((a.clone(), s.atomics().u128())); }
    if let Some((a, s)) = c.reg_default.get(coll) { return Some((a.clone(), s.atomics().u128())); }
    let k = c.colls.get(coll)?;
    if k.no_info { return None; }
    k.royalty.as_ref().map(|(a, s)| (a.clone(), s.atomics().u128()))
}
fn sale(c: &Chain, s: &Snap, ask: &Ask, mb: &Mb, ask_first: bool, pay: &mut Pay) -> i128 {
    let (price, maker, taker) = if ask_first { (&ask.details.price, &ask.details.finder, &mb.d().finder) } else { (&mb.d().price, &mb.d().finder, &ask.details.finder) };
    let (a, d, g) = (price.amount.u128(), price.denom.clone(), &s.cfg);
    let sh = |r: u64, e: bool| if e { let p = Uint256::from(bps(g.protocol_fee_bps)) * Uint256::from(bps(r)) / Uint256::from(ONE); Uint128::try_from(p).unwrap().u128() } else { 0 };
    let (ms, ts) = (sh(g.maker_reward_bps, maker.is_some()), sh(g.taker_reward_bps, taker.is_some()));
    let ps = bps(g.protocol_fee_bps) - ms - ts;
    let (pf, mf, tf) = (mul_ceil(a, ps), mul_ceil(a, ms), mul_ceil(a, ts));
    let mut rest = a as i128 - pf - mf - tf;
    add(pay, (g.fee_manager.to_string(), d.clone()), pf);
    if let Some(x) = maker { add(pay, (x.to_string(), d.clone()), mf); }
    if let Some(x) = taker { add(pay, (x.to_string(), d.clone()), tf); }
    if let Some((to, share)) = royalty(c, ask.collection.as_str()) {
        let rf = mul_ceil(a, share.min(bps(g.max_royalty_fee_bps)));
        add(pay, (to, d.clone()), rf);
        rest -= rf;
    }
    add(pay, (recip(&ask.details, &ask.creator), d), rest);
    rest
}
fn strip(p: &Pay) -> Pay { p.iter().filter(|(_, v)| **v != 0).map(|(k, v)| (k.clone(), *v)).collect() }
fn coins(pay: &mut Pay, who: &str, cs: &[Coin], sign: i128) { for c in cs { add(pay, (who.to_string(), c.denom.clone()), sign * c.amount.u128() as i128); } }
/// one admissible outcome of a message
struct Want { s2: Snap, pay: Pay, nfts: Vec<(String, String, String)>, matched: bool }
fn mv(a: &Ask, to: String) -> (String, String, String) { (a.collection.to_string(), a.token_id.clone(), to) }
fn limit_ok(offer: &Coin, price: &Coin) -> bool { offer.denom == price.denom && offer.amount >= price.amount }

pub struct W { c: Chain, ids: BTreeSet<String>, ask_ids: BTreeMap<(String, String), String>, ok: bool }

/// all best matches of an ask
fn best_bids(s: &Snap, a: &Ask) -> Vec<Mb> {
    let p = &a.details.price;
    let mut v: Vec<Mb> = s.bids.values().filter(|b| b.collection == a.collection && b.token_id == a.token_id && limit_ok(&b.details.price, p)).cloned().map(Mb::B).collect();
    v.extend(s.cbids.values().filter(|b| b.collection == a.collection && limit_ok(&b.details.price, p)).cloned().map(Mb::C));
    let top = v.iter().map(|m| m.d().price.amount).max();
    v.retain(|m| Some(m.d().price.amount) == top);
    v
}
fn best_asks(s: &Snap, c: &str, p: &Coin) -> Vec<Ask> {
    let mut v: Vec<Ask> = s.asks.values().filter(|a| a.collection == c && limit_ok(p, &a.details.price)).cloned().collect();
    let low = v.iter().map(|a| a.details.price.amount).min();
    v.retain(|a| Some(a.details.price.amount) == low);
    v
}
fn rm(s: &mut Snap, a: &Ask, mb: &Mb) { s.asks.remove(&a.id); match mb { Mb::B(b) => { s.bids.remove(&b.id); } Mb::C(b) => { s.cbids.remove(&b.id); } } }

/// who may send a message, what it must satisfy, and its price limit
fn conds(c0: &Chain, s: &Snap, who: &str, funds: &[Coin], msg: &Ex) -> (bool, bool, bool) {
    let admin = c0.admin.as_deref() == Some(who);
    let owner = |c: &str, t: &str| c0.toks.get(&(c.to_string(), t.to_string())).map_or(true, |x| x.owner == who);
    let auth = match msg {
        Ex::UpdateConfig { .. } | Ex::UpdateCollectionDenom { .. } | Ex::SetListingFee { .. } | Ex::RemoveListingFee { .. } => admin,
        Ex::SetAsk { collection, token_id, .. } | Ex::SellNft { collection, token_id, .. } => owner(collection, token_id),
        Ex::UpdateAsk { id, .. } | Ex::RemoveAsk { id } => s.asks.get(id).map_or(false, |a| a.creator == who),
        Ex::UpdateBid { id, .. } | Ex::RemoveBid { id } => s.bids.get(id).map_or(false, |a| a.creator == who),
        Ex::UpdateCollectionBid { id, .. } | Ex::RemoveCollectionBid { id } => s.cbids.get(id).map_or(false, |a| a.creator == who),
        Ex::AcceptBid { id, .. } => s.bids.get(id).map_or(false, |b| match s.ask_on(b.collection.as_str(), &b.token_id) { Some(a) => a.creator == who, None => owner(b.collection.as_str(), &b.token_id) }),
        Ex::AcceptCollectionBid { id, token_id, .. } => s.cbids.get(id).map_or(false, |b| match s.ask_on(b.collection.as_str(), token_id) { Some(a) => a.creator == who, None => owner(b.collection.as_str(), token_id) }),
        _ => true,
    };
    let tradable = |c: &str| c0.colls.get(c).map_or(true, |k| k.no_info || k.start.map_or(true, |t| t <= c0.time));
    let gate = match msg {
        Ex::SetAsk { collection, details, .. } | Ex::SellNft { collection, details, .. } => tradable(collection) && s.price_ok(collection, &details.price) && funds.len() == 1 && s.fees.get(&funds[0].denom) == Some(&funds[0].amount.u128()),
        Ex::SetBid { collection, details, .. } | Ex::BuySpecificNft { collection, details, .. } | Ex::SetCollectionBid { collection, details } | Ex::BuyCollectionNft { collection, details } => tradable(collection) && s.price_ok(collection, &details.price),
        Ex::UpdateAsk { id, details } => s.asks.get(id).map_or(true, |a| s.price_ok(a.collection.as_str(), &details.price)),
        Ex::UpdateBid { id, details } => s.bids.get(id).map_or(true, |a| s.price_ok(a.collection.as_str(), &details.price)),
        Ex::UpdateCollectionBid { id, details } => s.cbids.get(id).map_or(true, |a| s.price_ok(a.collection.as_str(), &details.price)),
        _ => true,
    };
    // limits
    let lim = match msg {
        Ex::AcceptAsk { id, details } => s.asks.get(id).map_or(false, |a| limit_ok(&details.price, &a.details.price)),
        Ex::AcceptBid { id, details } => s.bids.get(id).map_or(false, |a| limit_ok(&a.details.price, &details.price)),
        Ex::AcceptCollectionBid { id, details, .. } => s.cbids.get(id).map_or(false, |a| limit_ok(&a.details.price, &details.price)),
        _ => true,
    };
    (auth, gate, lim)
}
/// a message that meets every condition (the concrete reading of msg_can in contracts/v2/spec.rs)
fn allowed(c: &Chain, s: &Snap, who: &str, funds: &[Coin], msg: &Ex) -> bool {
    let (auth, gate, lim) = conds(c, s, who, funds, msg);
    if !(auth && gate && lim) { return false; }
    let ok = |a: &String| cosmwasm_std::testing::MockApi::default().addr_validate(a).is_ok();
    let okd = |d: &OrderDetails<String>| d.recipient.as_ref().map_or(true, ok) && d.finder.as_ref().map_or(true, ok);
    let sender = Addr::unchecked(who);
    let pays = |a: &Ask, m: &Mb, first: bool| sale(c, s, a, m, first, &mut Pay::new()) >= 0;
    let covers = |held: Option<&Coin>, p: &Coin| funds.iter().chain(held).filter(|f| f.denom == p.denom).map(|f| f.amount.u128()).sum::<u128>() >= p.amount.u128();
    let ask_ok = |a: &Ask| best_bids(s, a).iter().all(|m| pays(a, m, false));
    let mk = |coll: &str, t: &str, d: &OrderDetails<String>| Ask { id: "?".into(), creator: sender.clone(), collection: Addr::unchecked(coll), token_id: t.into(), details: daddr(d) };
    let mb = |coll: &str, t: &str, d: &OrderDetails<String>| Mb::B(Bid { id: "?".into(), creator: sender.clone(), collection: Addr::unchecked(coll), token_id: t.into(), details: daddr(d) });
    let mc = |coll: &str, d: &OrderDetails<String>| Mb::C(CollectionBid { id: "?".into(), creator: sender.clone(), collection: Addr::unchecked(coll), details: daddr(d) });
    // a bid: its funds cover each ask it may be matched with, or the bid itself if there is none
    let bid_ok = |m: Mb, cands: Vec<Ask>, held: Option<&Coin>, now: bool| if cands.is_empty() { !now && covers(held, &m.d().price) } else { cands.iter().all(|a| covers(held, &a.details.price) && pays(a, &m, true)) };
    let met = |coll: &str, t: &str, d: &OrderDetails<String>| -> Vec<Ask> { s.ask_on(coll, t).filter(|a| limit_ok(&d.price, &a.details.price)).cloned().into_iter().collect() };
    match msg {
        Ex::UpdateConfig { config } => funds.is_empty() && ok(&config.fee_manager) && ok(&config.royalty_registry) && config.protocol_fee_bps < 10_000 && config.maker_reward_bps as u128 + (config.taker_reward_bps as u128) < 10_000,
        Ex::UpdateCollectionDenom { collection, .. } => funds.is_empty() && ok(collection),
        Ex::SetListingFee { .. } | Ex::RemoveListingFee { .. } | Ex::RemoveAsk { .. } | Ex::RemoveBid { .. } | Ex::RemoveCollectionBid { .. } => funds.is_empty(),
        Ex::SetAsk { collection, token_id, details } => ok(collection) && okd(details) && s.ask_on(collection, token_id).is_none() && ask_ok(&mk(collection, token_id, details)),
        Ex::SellNft { collection, token_id, details } => { let a = mk(collection, token_id, details); ok(collection) && okd(details) && !best_bids(s, &a).is_empty() && ask_ok(&a) }
        Ex::UpdateAsk { id, details } => funds.is_empty() && okd(details) && { let mut a = s.asks[id].clone(); a.details = daddr(details); ask_ok(&a) },
        Ex::AcceptAsk { id, details } => okd(details) && { let a = &s.asks[id]; covers(None, &a.details.price) && pays(a, &mb(a.collection.as_str(), &a.token_id, details), true) },
        Ex::SetBid { collection, token_id, details } => ok(collection) && okd(details) && bid_ok(mb(collection, token_id, details), met(collection, token_id, details), None, false),
        Ex::BuySpecificNft { collection, token_id, details } => ok(collection) && okd(details) && bid_ok(mb(collection, token_id, details), met(collection, token_id, details), None, true),
        Ex::UpdateBid { id, details } => okd(details) && { let b = &s.bids[id]; bid_ok(mb(b.collection.as_str(), &b.token_id, details), met(b.collection.as_str(), &b.token_id, details), Some(&b.details.price), false) },
        Ex::SetCollectionBid { collection, details } => ok(collection) && okd(details) && bid_ok(mc(collection, details), best_asks(s, collection, &details.price), None, false),
        Ex::BuyCollectionNft { collection, details } => ok(collection) && okd(details) && bid_ok(mc(collection, details), best_asks(s, collection, &details.price), None, true),
        Ex::UpdateCollectionBid { id, details } => okd(details) && { let b = &s.cbids[id]; bid_ok(mc(b.collection.as_str(), details), best_asks(s, b.collection.as_str(), &details.price), Some(&b.details.price), false) },
        Ex::AcceptBid { id, details } => funds.is_empty() && okd(details) && { let b = &s.bids[id]; let a = s.ask_on(b.collection.as_str(), &b.token_id).cloned().unwrap_or(mk(b.collection.as_str(), &b.token_id, details)); pays(&a, &Mb::B(b.clone()), false) },
        Ex::AcceptCollectionBid { id, token_id, details } => funds.is_empty() && okd(details) && { let b = &s.cbids[id]; let a = s.ask_on(b.collection.as_str(), token_id).cloned().unwrap_or(mk(b.collection.as_str(), token_id, details)); pays(&a, &Mb::C(b.clone()), false) },
    }
}

impl W {
    fn exec(&mut self, who: &str, funds: &[Coin], msg: Ex) -> Result<Response, TxErr> { self.c.call(who, funds, |d, e, i| m::execute::execute(d, e, i, msg), |_, _, _| Ok(Response::new())) }
    /// the order of s2 that is new, as (id); used only for its id
    fn fresh(&self, s: &Snap, s2: &Snap) -> (String, String) {
        (s2.bids.keys().find(|k| !s.bids.contains_key(*k)).cloned().unwrap_or("?new".into()), s2.cbids.keys().find(|k| !s.cbids.contains_key(*k)).cloned().unwrap_or("?new".into()))
    }
    fn wants(&self, s: &Snap, s2: &Snap, who: &str, funds: &[Coin], msg: &Ex) -> Option<Vec<Want>> {
        let c = &self.c;
        let me = c.me.clone();
        let sender = Addr::unchecked(who);
        let base = |bump: bool| { let mut x = s.clone(); if bump { x.nonce += 1; } x };
        let aid = |coll: &str, t: &str, s2: &Snap| self.ask_ids.get(&(coll.to_string(), t.to_string())).cloned().or(s2.ask_on(coll, t).map(|a| a.id.clone())).unwrap_or("?ask".into());
        let ask_side = |a: &Ask, fee: &[Coin], replace: bool| -> Vec<Want> {
            let ms = best_bids(s, a);
            let mut out = vec![];
            for mb in &ms {
                let mut w = Want { s2: base(false), pay: Pay::new(), nfts: vec![mv(a, mb.recip())], matched: true };
                rm(&mut w.s2, a, mb);
                coins(&mut w.pay, s.cfg.fee_manager.as_str(), fee, 1);
                sale(c, s, a, mb, false, &mut w.pay);
                out.push(w);
            }
            if ms.is_empty() {
                let mut w = Want { s2: base(false), pay: Pay::new(), nfts: if replace { vec![] } else { vec![mv(a, me.clone())] }, matched: false };
                w.s2.asks.insert(a.id.clone(), a.clone());
                coins(&mut w.pay, s.cfg.fee_manager.as_str(), fee, 1);
                out.push(w);
            }
            out
        };
        let bid_side = |mb: Mb, cands: Vec<Ask>, held: Option<&Coin>, bump: bool| -> Vec<Want> {
            let mut out = vec![];
            for a in &cands {
                let mut w = Want { s2: base(bump), pay: Pay::new(), nfts: vec![mv(a, mb.recip())], matched: true };
                rm(&mut w.s2, a, &mb);
                coins(&mut w.pay, who, funds, 1);
                if let Some(h) = held { coins(&mut w.pay, who, std::slice::from_ref(h), 1); }
                coins(&mut w.pay, who, std::slice::from_ref(&a.details.price), -1);
                sale(c, s, a, &mb, true, &mut w.pay);
                out.push(w);
            }
            if cands.is_empty() {
                let mut w = Want { s2: base(bump), pay: Pay::new(), nfts: vec![], matched: false };
                coins(&mut w.pay, who, funds, 1);
                if let Some(h) = held { coins(&mut w.pay, who, std::slice::from_ref(h), 1); }
                coins(&mut w.pay, who, std::slice::from_ref(&mb.d().price), -1);
                match mb { Mb::B(b) => { w.s2.bids.insert(b.id.clone(), b); } Mb::C(b) => { w.s2.cbids.insert(b.id.clone(), b); } }
                out.push(w);
            }
            out
        };
        let one = |s2: Snap, pay: Pay, nfts: Vec<(String, String, String)>| vec![Want { s2, pay, nfts, matched: false }];
        let (nb, nc) = self.fresh(s, s2);
        Some(match msg {
            Ex::UpdateConfig { config } => { let mut x = base(false); x.cfg = Config { fee_manager: Addr::unchecked(&config.fee_manager), royalty_registry: Addr::unchecked(&config.royalty_registry), protocol_fee_bps: config.protocol_fee_bps, max_royalty_fee_bps: config.max_royalty_fee_bps, maker_reward_bps: config.maker_reward_bps, taker_reward_bps: config.taker_reward_bps, default_denom: config.default_denom.clone() }; one(x, Pay::new(), vec![]) }
            Ex::UpdateCollectionDenom { collection, denom } => { let mut x = base(false); x.denoms.insert(collection.clone(), denom.clone()); one(x, Pay::new(), vec![]) }
            Ex::SetListingFee { fee } => { let mut x = base(false); x.fees.insert(fee.denom.clone(), fee.amount.u128()); one(x, Pay::new(), vec![]) }
            Ex::RemoveListingFee { denom } => { let mut x = base(false); x.fees.remove(denom); one(x, Pay::new(), vec![]) }
            Ex::SetAsk { collection, token_id, details } | Ex::SellNft { collection, token_id, details } => {
                let a = Ask { id: aid(collection, token_id, s2), creator: sender, collection: Addr::unchecked(collection), token_id: token_id.clone(), details: daddr(details) };
                ask_side(&a, funds, false)
            }
            Ex::UpdateAsk { id, details } => { let mut a = s.asks.get(id)?.clone(); a.details = daddr(details); ask_side(&a, &[], true) }
            Ex::RemoveAsk { id } => { let a = s.asks.get(id)?; let mut x = base(false); x.asks.remove(id); one(x, Pay::new(), vec![mv(a, recip(&a.details, &a.creator))]) }
            Ex::AcceptAsk { id, details } => { let a = s.asks.get(id)?.clone(); bid_side(Mb::B(Bid { id: "?taker".into(), creator: sender, collection: a.collection.clone(), token_id: a.token_id.clone(), details: daddr(details) }), vec![a], None, true) }
            Ex::SetBid { collection, token_id, details } | Ex::BuySpecificNft { collection, token_id, details } => {
                let b = Bid { id: nb, creator: sender, collection: Addr::unchecked(collection), token_id: token_id.clone(), details: daddr(details) };
                let v = s.ask_on(collection, token_id).filter(|a| limit_ok(&details.price, &a.details.price)).cloned().into_iter().collect();
                bid_side(Mb::B(b), v, None, true)
            }
            Ex::UpdateBid { id, details } => { let mut b = s.bids.get(id)?.clone(); let old = b.details.price.clone(); b.details = daddr(details); let v = s.ask_on(b.collection.as_str(), &b.token_id).filter(|a| limit_ok(&details.price, &a.details.price)).cloned().into_iter().collect(); bid_side(Mb::B(b), v, Some(&old), false) }
            Ex::RemoveBid { id } => { let b = s.bids.get(id)?; let mut x = base(false); x.bids.remove(id); let mut p = Pay::new(); coins(&mut p, who, std::slice::from_ref(&b.details.price), 1); one(x, p, vec![]) }
            Ex::AcceptBid { id, details } => {
                let b = s.bids.get(id)?.clone();
                let a = s.ask_on(b.collection.as_str(), &b.token_id).cloned().unwrap_or(Ask { id: "?taker".into(), creator: sender, collection: b.collection.clone(), token_id: b.token_id.clone(), details: daddr(details) });
                let mut w = Want { s2: base(false), pay: Pay::new(), nfts: vec![mv(&a, recip(&b.details, &b.creator))], matched: true };
                let mb = Mb::B(b); rm(&mut w.s2, &a, &mb); sale(c, s, &a, &mb, false, &mut w.pay); vec![w]
            }
            Ex::SetCollectionBid { collection, details } | Ex::BuyCollectionNft { collection, details } => {
                let b = CollectionBid { id: nc, creator: sender, collection: Addr::unchecked(collection), details: daddr(details) };
                bid_side(Mb::C(b), best_asks(s, collection, &details.price), None, true)
            }
            Ex::UpdateCollectionBid { id, details } => { let mut b = s.cbids.get(id)?.clone(); let old = b.details.price.clone(); b.details = daddr(details); let v = best_asks(s, b.collection.as_str(), &details.price); bid_side(Mb::C(b), v, Some(&old), false) }
            Ex::RemoveCollectionBid { id } => { let b = s.cbids.get(id)?; let mut x = base(false); x.cbids.remove(id); let mut p = Pay::new(); coins(&mut p, who, std::slice::from_ref(&b.details.price), 1); one(x, p, vec![]) }
            Ex::AcceptCollectionBid { id, token_id, details } => {
                let b = s.cbids.get(id)?.clone();
                let a = s.ask_on(b.collection.as_str(), token_id).cloned().unwrap_or(Ask { id: "?taker".into(), creator: sender, collection: b.collection.clone(), token_id: token_id.clone(), details: daddr(details) });
                let mut w = Want { s2: base(false), pay: Pay::new(), nfts: vec![mv(&a, recip(&b.details, &b.creator))], matched: true };
                let mb = Mb::C(b); rm(&mut w.s2, &a, &mb); sale(c, s, &a, &mb, false, &mut w.pay); vec![w]
            }
        })
    }
    /// the clauses of an accepted message; c0 is the chain before it
    fn judge(&self, c0: &Chain, s: &Snap, s2: &Snap, who: &str, funds: &[Coin], msg: &Ex, e: &Effects, v: &mut Vec<Viol>) {
        let mut bad = |p: &'static str, w: String| v.push(Viol { prop: p, what: w });
        // funds
        for d in DEN {
            let f: i128 = funds.iter().filter(|c| c.denom == d).map(|c| c.amount.u128() as i128).sum();
            let out = *e.out.get(d).unwrap_or(&0);
            if s2.esc(d) + out != s.esc(d) + f { bad("P01", format!("{}: escrow {} + funds {} became escrow {} + payouts {}", d, s.esc(d), f, s2.esc(d), out)); }
        }
        if e.non_atomic > 0 { bad("P01", "a transfer may fail without undoing the transaction".into()); }
        if e.zero_send { bad("P01", "zero-amount transfer".into()); }
        // custody
        if e.nfts.len() > 1 { bad("P03", format!("{} asset transfers", e.nfts.len())); }
        let moved = |a: &Ask| e.nfts.iter().any(|n| n.0 == a.collection.as_str() && n.1 == a.token_id);
        for (k, a) in &s.asks { match s2.asks.get(k) {
            None => if !moved(a) { bad("P03", format!("ask {} left the book and its asset stayed", k)); },
            Some(b) => { if b.collection != a.collection || b.token_id != a.token_id { bad("P03", "an ask changed its asset".into()); } if moved(a) { bad("P03", format!("asset of stored ask {} was moved", k)); } }
        } }
        for (k, a) in &s2.asks { if !s.asks.contains_key(k) && e.nfts != vec![mv(a, c0.me.clone())] { bad("P03", "a stored ask without taking custody of its asset".into()); } }
        // authorization
        for (k, a) in &s.asks { if a.creator != who { match s2.asks.get(k) { Some(b) => if b != a { bad("P04", "somebody else changed an ask".into()); }, None => if e.nfts.len() != 1 { bad("P04", "somebody else removed an ask".into()); } } } }
        for (k, a) in &s.bids { if a.creator != who { match s2.bids.get(k) { Some(b) => if b != a { bad("P04", "somebody else changed a bid".into()); }, None => if e.nfts != vec![(a.collection.to_string(), a.token_id.clone(), recip(&a.details, &a.creator))] { bad("P04", "somebody else removed a bid without selling to it".into()); } } } }
        for (k, a) in &s.cbids { if a.creator != who { match s2.cbids.get(k) { Some(b) => if b != a { bad("P04", "somebody else changed a collection bid".into()); }, None => if !(e.nfts.len() == 1 && e.nfts[0].0 == a.collection.as_str() && e.nfts[0].2 == recip(&a.details, &a.creator)) { bad("P04", "somebody else removed a collection bid without selling to it".into()); } } } }
        let admin = c0.admin.as_deref() == Some(who);
        if (s.cfg != s2.cfg || s.denoms != s2.denoms || s.fees != s2.fees) && !admin { bad("P04", "configuration changed by somebody who is not the admin".into()); }
        let (auth, gate, lim) = conds(c0, s, who, funds, msg);
        if !auth { bad("P04", format!("accepted from {} without the right to send it", who)); }
        // ids
        for (k, a) in &s2.asks { if a.id != *k { bad("P07", "an ask stored under a wrong id".into()); }
            if let Some(i) = self.ask_ids.get(&(a.collection.to_string(), a.token_id.clone())) { if i != k { bad("P07", "an ask id that differs from an earlier one for the same token".into()); } }
            for (t, i) in &self.ask_ids { if i == k && *t != (a.collection.to_string(), a.token_id.clone()) { bad("P07", "one ask id for two tokens".into()); } } }
        for (k, b) in &s2.bids { if b.id != *k { bad("P07", "a bid stored under a wrong id".into()); } if !s.bids.contains_key(k) && self.ids.contains(k) { bad("P07", "a bid id was reused".into()); } if !s.bids.contains_key(k) && b.creator != who { bad("P07", "a new bid in somebody else's name".into()); } }
        for (k, b) in &s2.cbids { if b.id != *k { bad("P07", "a collection bid stored under a wrong id".into()); } if !s.cbids.contains_key(k) && self.ids.contains(k) { bad("P07", "a collection bid id was reused".into()); } if !s.cbids.contains_key(k) && b.creator != who { bad("P07", "a new bid in somebody else's name".into()); } }
        for (k, b) in &s2.asks { if !s.asks.contains_key(k) && b.creator != who { bad("P07", "a new ask in somebody else's name".into()); } }
        let nn = |a: &B<Bid>, b: &B<Bid>| b.keys().filter(|k| !a.contains_key(*k)).count();
        if nn(&s.bids, &s2.bids) > 1 { bad("P07", "more than one new bid".into()); }
        if s2.nonce < s.nonce { bad("P07", "the id counter went back".into()); }
        // configuration and gates
        if !(s2.cfg.protocol_fee_bps < 10_000 && s2.cfg.maker_reward_bps as u128 + (s2.cfg.taker_reward_bps as u128) < 10_000) { bad("P08", "fee configuration out of range".into()); }
        if s2.asks.values().any(|a| a.details.price.amount.is_zero()) || s2.bids.values().any(|a| a.details.price.amount.is_zero()) || s2.cbids.values().any(|a| a.details.price.amount.is_zero()) { bad("P08", "a stored order of price zero".into()); }
        if !gate { bad("P08", "accepted although the price, denomination, trading time or listing fee does not allow it".into()); }
        let admin_msg = matches!(msg, Ex::UpdateConfig { .. } | Ex::UpdateCollectionDenom { .. } | Ex::SetListingFee { .. } | Ex::RemoveListingFee { .. });
        if !lim { bad("P05", "traded outside the price limit".into()); }
        let ws = match self.wants(s, s2, who, funds, msg) { Some(w) => w, None => { bad("P04", "accepted for an order that does not exist".into()); return; } };
        if matches!(msg, Ex::SellNft { .. } | Ex::BuySpecificNft { .. } | Ex::BuyCollectionNft { .. }) && !ws.iter().any(|w| w.matched && w.nfts == e.nfts) { bad("P05", "an immediate trade was accepted without trading with an order that meets it".into()); }
        let pay = strip(&e.paid);
        let desc = |w: &[Want]| format!("{} outcomes", w.len());
        let withdraw = matches!(msg, Ex::RemoveAsk { .. } | Ex::RemoveBid { .. } | Ex::RemoveCollectionBid { .. });
        if withdraw {
            let w = &ws[0];
            if w.s2 != *s2 || strip(&w.pay) != pay || w.nfts != e.nfts { bad("P10", "a withdrawal did not return exactly the order's asset or funds to its owner".into()); }
        } else if admin_msg {
            if ws[0].s2 != *s2 { bad("P08", "a configuration message did something else".into()); }
        } else {
            let keys = |x: &Snap| (x.asks.keys().cloned().collect::<Vec<_>>(), x.bids.keys().cloned().collect::<Vec<_>>(), x.cbids.keys().cloned().collect::<Vec<_>>());
            if !ws.iter().any(|w| w.s2 == *s2) && ws.iter().any(|w| keys(&w.s2) == keys(s2)) { bad("P07", "a stored order does not carry the terms of the message that created or updated it".into()); }
            if !ws.iter().any(|w| w.s2 == *s2) { bad("P06", format!("the order book after the message is none of the {} admissible", desc(&ws))); }
            if !ws.iter().any(|w| strip(&w.pay) == pay) { bad("P02", format!("payouts {:?} instead of {:?}", pay, ws.iter().map(|w| strip(&w.pay)).collect::<Vec<_>>())); }
            if !ws.iter().any(|w| w.nfts == e.nfts) { bad("P03", format!("asset transfers {:?} instead of {:?}", e.nfts, ws.iter().map(|w| w.nfts.clone()).collect::<Vec<_>>())); }
        }
    }
    fn remember(&mut self, s: &Snap) {
        for a in s.asks.values() { self.ask_ids.entry((a.collection.to_string(), a.token_id.clone())).or_insert(a.id.clone()); }
        self.ids.extend(s.bids.keys().cloned());
        self.ids.extend(s.cbids.keys().cloned());
    }
    fn run(&mut self, who: &str, funds: &[Coin], msg: Ex, v: &mut Vec<Viol>) -> bool {
        let c0 = self.c.clone();
        let s = snap(&c0);
        match self.exec(who, funds, msg.clone()) {
            Ok(r) => {
                let s2 = snap(&self.c);
                let e = effects(&r.messages);
                let c0b = std::mem::replace(&mut self.c, c0.clone());
                self.judge(&c0, &s, &s2, who, funds, &msg, &e, v);
                self.c = c0b;
                for d in DEN { if self.c.bal(&self.c.me, d) as i128 != s2.esc(d) { v.push(Viol { prop: "P01", what: format!("contract holds {} {} and owes {}", self.c.bal(&self.c.me, d), d, s2.esc(d)) }); } }
                for a in s2.asks.values() { if self.c.toks.get(&(a.collection.to_string(), a.token_id.clone())).map_or(false, |t| t.owner != self.c.me) { v.push(Viol { prop: "P03", what: format!("stored ask {} without its asset in custody", a.id) }); } }
                for (k, t) in &self.c.toks { if t.owner == self.c.me && s2.ask_on(&k.0, &k.1).is_none() { v.push(Viol { prop: "P03", what: format!("asset {}/{} in custody without an ask", k.0, k.1) }); } }
                self.remember(&s2);
                true
            }
            Err(e) => {
                if e.eff.as_ref().map_or(false, |x| x.zero_send) { v.push(Viol { prop: "P01", what: "zero-amount transfer".into() }); }
                if (e.at == "contract" || e.at == "abort") && allowed(&c0, &s, who, funds, &msg) { v.push(Viol { prop: "P29", what: format!("a request that meets every condition was refused: {}", e.what) }); }
                false
            }
        }
    }
    fn withdrawals(&mut self, v: &mut Vec<Viol>, log: &mut Vec<String>) {
        let s = snap(&self.c);
        let mut all: Vec<(String, Ex)> = s.asks.values().map(|a| (a.creator.to_string(), Ex::RemoveAsk { id: a.id.clone() })).collect();
        all.extend(s.bids.values().map(|a| (a.creator.to_string(), Ex::RemoveBid { id: a.id.clone() })));
        all.extend(s.cbids.values().map(|a| (a.creator.to_string(), Ex::RemoveCollectionBid { id: a.id.clone() })));
        for (who, msg) in all {
            let keep = self.c.clone();
            let n = v.len();
            if let Err(e) = self.exec(&who, &[], msg.clone()) { v.push(Viol { prop: "P10", what: format!("withdrawal by the creator refused: {}: {}", e.at, e.what) }); }
            else { self.c = keep.clone(); let (a, b) = (self.ids.clone(), self.ask_ids.clone()); self.run(&who, &[], msg.clone(), v); self.ids = a; self.ask_ids = b; }
            if v.len() > n { log.push(format!("{} sends {}", who, serde_json::to_string(&msg).unwrap())); }
            self.c = keep;
        }
    }
    fn q<T: serde::de::DeserializeOwned>(&self, q: &Qm) -> Result<T, String> {
        let api = cosmwasm_std::testing::MockApi::default();
        let r = m::query::query(Deps { storage: &self.c.store, api: &api, querier: QuerierWrapper::new(&Q(&self.c)) }, self.c.env(), q.clone()).map_err(|e| e.to_string())?;
        from_json(&r).map_err(|e| e.to_string())
    }
    fn queries(&self, r: &mut Rng, v: &mut Vec<Viol>, log: &mut Vec<String>) {
        let s = snap(&self.c);
        let coll = r.pick(&COLLS).to_string();
        let tok = r.pick(&TOKS).to_string();
        let den = r.pick(&DEN).to_string();
        let who = r.pick(&USERS).to_string();
        let mut ids: Vec<String> = s.asks.keys().chain(s.bids.keys()).chain(s.cbids.keys()).cloned().collect();
        ids.push("".into());
        let prices: Vec<u128> = s.bids.values().map(|b| b.details.price.amount.u128()).chain(s.asks.values().map(|b| b.details.price.amount.u128())).chain(s.cbids.values().map(|b| b.details.price.amount.u128())).chain([0, 100, 250]).collect();
        fn opts<T>(r: &mut Rng, mut f: impl FnMut(&mut Rng) -> T) -> Option<QueryOptions<T>> {
            if r.chance(1, 6) { return None; }
            let mut b = |r: &mut Rng| match r.below(3) { 0 => None, 1 => Some(QueryBound::Inclusive(f(r))), _ => Some(QueryBound::Exclusive(f(r))) };
            let limit = match r.below(4) { 0 => None, 1 => Some(1), 2 => Some(2), _ => Some(150) };
            Some(QueryOptions { limit, descending: match r.below(3) { 0 => None, 1 => Some(false), _ => Some(true) }, min: b(r), max: b(r) })
        }
        fn page<K: Ord + Clone, V: Clone, T>(all: Vec<(K, V)>, o: &Option<QueryOptions<T>>, f: impl Fn(&T) -> K) -> Vec<V> {
            let mut a = all;
            a.sort_by(|x, y| x.0.cmp(&y.0));
            if let Some(o) = o {
                a.retain(|x| match &o.min { Some(QueryBound::Inclusive(b)) => x.0 >= f(b), Some(QueryBound::Exclusive(b)) => x.0 > f(b), None => true });
                a.retain(|x| match &o.max { Some(QueryBound::Inclusive(b)) => x.0 <= f(b), Some(QueryBound::Exclusive(b)) => x.0 < f(b), None => true });
                if o.descending == Some(true) { a.reverse(); }
                a.truncate(o.limit.unwrap_or(10).min(100) as usize);
            } else { a.truncate(10); }
            a.into_iter().map(|x| x.1).collect()
        }
        let mut check = |q: Qm, ok: bool| if !ok { log.push(format!("query {}", serde_json::to_string(&q).unwrap())); v.push(Viol { prop: "P09", what: "the answer is not the page of the order book asked for".into() }); };
        macro_rules! pq { ($q:expr, $t:ty, $all:expr, $o:expr, $f:expr) => {{ let q = $q; let all = $all; let want = page(all, &$o, $f); check(q.clone(), self.q::<Vec<$t>>(&q) == Ok(want)); }}; }
        let po = |r: &mut Rng| PriceOffset { id: r.pick(&ids).clone(), amount: *r.pick(&prices) };
        let pf = |p: &PriceOffset| (p.amount, p.id.clone());
        let idf = |r: &mut Rng| r.pick(&ids).clone();
        match r.below(9) {
            0 => { let o = opts(r, po); pq!(Qm::AsksByCollectionDenom { collection: coll.clone(), denom: den.clone(), query_options: o.clone() }, Ask, s.asks.values().filter(|a| a.collection == coll && a.details.price.denom == den).map(|a| ((a.details.price.amount.u128(), a.id.clone()), a.clone())).collect::<Vec<_>>(), o, pf) }
            1 => { let o = opts(r, idf); pq!(Qm::AsksByCreatorCollection { creator: who.clone(), collection: coll.clone(), query_options: o.clone() }, Ask, s.asks.values().filter(|a| a.collection == coll && a.creator == who).map(|a| (a.id.clone(), a.clone())).collect::<Vec<_>>(), o, |x: &String| x.clone()) }
            2 => { let o = opts(r, po); pq!(Qm::BidsByTokenPrice { collection: coll.clone(), token_id: tok.clone(), denom: den.clone(), query_options: o.clone() }, Bid, s.bids.values().filter(|a| a.collection == coll && a.token_id == tok && a.details.price.denom == den).map(|a| ((a.details.price.amount.u128(), a.id.clone()), a.clone())).collect::<Vec<_>>(), o, pf) }
            3 => { let o = opts(r, idf); pq!(Qm::BidsByCreatorCollection { creator: who.clone(), collection: coll.clone(), query_options: o.clone() }, Bid, s.bids.values().filter(|a| a.collection == coll && a.creator == who).map(|a| (a.id.clone(), a.clone())).collect::<Vec<_>>(), o, |x: &String| x.clone()) }
            4 => { let o = opts(r, po); pq!(Qm::CollectionBidsByPrice { collection: coll.clone(), denom: den.clone(), query_options: o.clone() }, CollectionBid, s.cbids.values().filter(|a| a.collection == coll && a.details.price.denom == den).map(|a| ((a.details.price.amount.u128(), a.id.clone()), a.clone())).collect::<Vec<_>>(), o, pf) }
            5 => { let o = opts(r, idf); pq!(Qm::CollectionBidsByCreatorCollection { creator: who.clone(), collection: coll.clone(), query_options: o.clone() }, CollectionBid, s.cbids.values().filter(|a| a.collection == coll && a.creator == who).map(|a| (a.id.clone(), a.clone())).collect::<Vec<_>>(), o, |x: &String| x.clone()) }
            6 => { let l: Vec<String> = (0..r.below(4)).map(|_| r.pick(&ids).clone()).collect();
                let q = Qm::Asks(l.clone()); check(q.clone(), self.q::<Vec<Ask>>(&q) == Ok(l.iter().filter_map(|k| s.asks.get(k).cloned()).collect()));
                let q = Qm::Bids(l.clone()); check(q.clone(), self.q::<Vec<Bid>>(&q) == Ok(l.iter().filter_map(|k| s.bids.get(k).cloned()).collect()));
                let q = Qm::CollectionBids(l.clone()); check(q.clone(), self.q::<Vec<CollectionBid>>(&q) == Ok(l.iter().filter_map(|k| s.cbids.get(k).cloned()).collect())); }
            7 => { let k = r.pick(&ids).clone();
                let q = Qm::Ask(k.clone()); check(q.clone(), self.q::<Option<Ask>>(&q) == Ok(s.asks.get(&k).cloned()));
                let q = Qm::Bid(k.clone()); check(q.clone(), self.q::<Option<Bid>>(&q) == Ok(s.bids.get(&k).cloned()));
                let q = Qm::CollectionBid(k.clone()); check(q.clone(), self.q::<Option<CollectionBid>>(&q) == Ok(s.cbids.get(&k).cloned())); }
            _ => { let q = Qm::Config {}; check(q.clone(), self.q::<Config<Addr>>(&q) == Ok(s.cfg.clone()));
                let q = Qm::CollectionDenom { collection: coll.clone() }; check(q.clone(), self.q::<Option<String>>(&q) == Ok(s.denoms.get(&coll).cloned())); }
        }
    }
    fn cfg(r: &mut Rng) -> Config<String> {
        let maker = *r.pick(&[0u64, 1, 1000, 4000, 5000, 9999]);
        let taker = *r.pick(&[0u64, 1, 1000, 4999, 5000, 6000, 10_000 - maker.min(9_999), 9_999 - maker]);
        Config { fee_manager: "feeman".into(), royalty_registry: "registry".into(), protocol_fee_bps: *r.pick(&[0u64, 1, 33, 200, 200, 500, 5000, 9999, 10_000]), max_royalty_fee_bps: *r.pick(&[0u64, 333, 500, 1000, 10_000, 20_000]), maker_reward_bps: maker, taker_reward_bps: taker, default_denom: DEN[r.below(2) as usize].into() }
    }
}
impl World for W {
    fn new(r: &mut Rng, log: &mut Vec<String>, v: &mut Vec<Viol>) -> W {
        let mut c = Chain { me: "market".into(), admin: if r.chance(9, 10) { Some("admin0".into()) } else { None }, height: 10, time: 1_000_000_000_000, registry: "registry".into(), ..Default::default() };
        for u in USERS.iter().chain(["admin0"].iter()) { for d in DEN { c.bank.insert((u.to_string(), d.to_string()), u128::MAX >> 8); } }
        for (i, k) in COLLS.iter().enumerate() {
            let roy = |r: &mut Rng, n: &str| (format!("royal{}{}", n, i), *r.pick(&[Decimal::zero(), Decimal::bps(1), Decimal::bps(333), Decimal::percent(5), Decimal::percent(10), Decimal::percent(50), Decimal::raw(33_333_333_333_333_333)]));
            c.colls.insert(k.to_string(), Coll { creator: "creator".into(), start: if r.chance(1, 3) { Some(c.time + 1_000_000_000 * r.below(3)) } else { None }, royalty: if r.chance(1, 2) { Some(roy(r, "c")) } else { None }, no_info: r.chance(1, 6) });
            if r.chance(1, 3) { let x = roy(r, "d"); c.reg_default.insert(k.to_string(), x); }
            if r.chance(1, 4) { let x = roy(r, "p"); c.reg_protocol.insert((k.to_string(), c.me.clone()), x); }
            if r.chance(1, 8) { let x = roy(r, "o"); c.reg_protocol.insert((k.to_string(), "other0".into()), x); }
            for t in TOKS { let u = r.pick(&USERS).to_string(); c.toks.insert((k.to_string(), t.to_string()), Tok { owner: u, approved: Default::default() }); }
        }
        for u in USERS { if r.chance(7, 8) { c.operators.insert((u.to_string(), c.me.clone())); } }
        let mut w = W { c, ids: Default::default(), ask_ids: Default::default(), ok: false };
        let config = W::cfg(r);
        log.push(format!("instantiate {}", serde_json::to_string(&config).unwrap()));
        log.push(format!("collections {:?} registry default {:?} protocol {:?}", w.c.colls, w.c.reg_default, w.c.reg_protocol));
        let cfgc = config.clone();
        let res = w.c.call("admin0", &[], |d, e, i| m::instantiate::instantiate(d, e, i, InstantiateMsg { config: cfgc }), |_, _, _| Ok(Response::new()));
        if let Ok(resp) = res {
            w.ok = true;
            let s = snap(&w.c);
            if !(s.cfg.protocol_fee_bps < 10_000 && s.cfg.maker_reward_bps + s.cfg.taker_reward_bps < 10_000) { v.push(Viol { prop: "P08", what: "instantiated with fees out of range".into() }); }
            if serde_json::to_value(&s.cfg).unwrap() != serde_json::to_value(&config).unwrap() { v.push(Viol { prop: "P08", what: "the stored configuration is not the one given".into() }); }
            if s.nonce != 0 || !resp.messages.is_empty() { v.push(Viol { prop: "P07", what: "instantiate did not start with an empty book".into() }); }
            for d in DEN { if r.chance(5, 6) && w.c.admin.is_some() {
                let fee = coin(*r.pick(&[0u128, 1, 50, 50]), d);
                log.push(format!("admin0 sets listing fee {}", fee));
                w.run("admin0", &[], Ex::SetListingFee { fee }, v);
            } }
        }
        w
    }
    fn step(&mut self, r: &mut Rng, log: &mut Vec<String>, v: &mut Vec<Viol>) {
        if !self.ok { return; }
        if r.chance(1, 30) { self.c.drift(r, log); return; }
        if r.chance(1, 25) { if let Some(what) = self.c.migration(r, log, "stargaze-marketplace-v2", None, false, |d, e| m::migrate::migrate(d, e, m::migrate::MigrateMsg {}).map_err(|e| e.to_string())) { v.push(Viol { prop: "P30", what }); } return; }
        match r.below(20) {
            0 => { self.c.time += 500_000_000 * r.below(4); self.c.height += r.below(3); return; }
            1 => { self.withdrawals(v, log); return; }
            2 | 3 => { self.queries(r, v, log); return; }
            _ => {}
        }
        let s = snap(&self.c);
        let coll = r.pick(&COLLS).to_string();
        let tok = r.pick(&TOKS).to_string();
        let mut who = r.pick(&USERS).to_string();
        let price = |r: &mut Rng, coll: &str| -> Coin {
            let mut ps: Vec<u128> = vec![];
            for p in s.asks.values().map(|a| &a.details.price).chain(s.bids.values().map(|a| &a.details.price)).chain(s.cbids.values().map(|a| &a.details.price)) { ps.push(p.amount.u128()); ps.push(p.amount.u128() + 1); ps.push(p.amount.u128().saturating_sub(1)); }
            let a = if !ps.is_empty() && r.chance(3, 5) { *r.pick(&ps) } else if r.chance(1, 20) { 0 } else { *r.pick(&PRICES) };
            let d = if r.chance(9, 10) { s.denom_of(coll) } else { r.pick(&DEN).to_string() };
            coin(a, d)
        };
        let od = |r: &mut Rng, coll: &str| -> OrderDetails<String> {
            let who = |r: &mut Rng| if r.chance(1, 3) { Some(r.pick(&["alice0", "bobby0", "carol0", "dave00", "finder0", "feeman"]).to_string()) } else { None };
            OrderDetails { price: price(r, coll), recipient: who(r), finder: who(r) }
        };
        let pick_id = |r: &mut Rng, which: u8| -> String {
            let v: Vec<String> = match which { 0 => s.asks.keys().cloned().collect(), 1 => s.bids.keys().cloned().collect(), _ => s.cbids.keys().cloned().collect() };
            if v.is_empty() || r.chance(1, 30) { "nosuchid".into() } else { r.pick(&v).clone() }
        };
        let empty = |k: u64| match k { 23..=28 => s.asks.is_empty(), 29..=33 => s.bids.is_empty(), 34..=39 => s.cbids.is_empty(), _ => false };
        let mut funds: Vec<Coin> = vec![];
        let jitter = |r: &mut Rng, need: Vec<Coin>| -> Vec<Coin> {
            let mut m: BTreeMap<String, u128> = BTreeMap::new();
            for c in need { *m.entry(c.denom).or_insert(0) += c.amount.u128(); }
            if r.chance(1, 3) { let d = r.pick(&DEN).to_string(); let e = m.entry(d).or_insert(0); match r.below(3) { 0 => *e += 1, 1 => *e = e.saturating_sub(1), _ => *e += *r.pick(&PRICES) } }
            m.into_iter().filter(|x| x.1 > 0).map(|(d, a)| coin(a, d)).collect()
        };
        let own = |c: &str, t: &str| self.c.toks.get(&(c.to_string(), t.to_string())).map(|x| x.owner.clone()).unwrap_or_default();
        let mut k = r.below(40);
        while empty(k) && !r.chance(1, 40) { k = r.below(40); }
        let msg = match k {
            0 => { if r.chance(3, 4) { who = "admin0".into(); } let config = W::cfg(r); Ex::UpdateConfig { config } }
            1 => { if r.chance(3, 4) { who = "admin0".into(); } Ex::UpdateCollectionDenom { collection: coll, denom: r.pick(&DEN).to_string() } }
            2 => { if r.chance(3, 4) { who = "admin0".into(); } let d = *r.pick(&DEN); let a = *r.pick(&[0u128, 1, 50]); Ex::SetListingFee { fee: coin(a, d) } }
            3 => { if r.chance(3, 4) { who = "admin0".into(); } Ex::RemoveListingFee { denom: r.pick(&DEN).to_string() } }
            4..=11 => {
                let mine: Vec<(String, String)> = self.c.toks.iter().filter(|(_, t)| t.owner == who).map(|(k, _)| k.clone()).collect();
                let (coll, tok) = if !mine.is_empty() && r.chance(5, 6) { r.pick(&mine).clone() } else { (coll, tok) };
                let details = od(r, &coll);
                let fees: Vec<(String, u128)> = s.fees.iter().map(|x| (x.0.clone(), *x.1)).collect();
                if !fees.is_empty() { let (d, f) = r.pick(&fees).clone(); funds = if r.chance(1, 3) { jitter(r, vec![coin(f, d)]) } else if f > 0 { vec![coin(f, d)] } else { vec![] }; }
                if r.chance(4, 5) { Ex::SetAsk { collection: coll, token_id: tok, details } } else { Ex::SellNft { collection: coll, token_id: tok, details } }
            }
            12..=17 => { let details = od(r, &coll); funds = jitter(r, vec![details.price.clone()]); if r.chance(4, 5) { Ex::SetBid { collection: coll, token_id: tok, details } } else { Ex::BuySpecificNft { collection: coll, token_id: tok, details } } }
            18..=22 => { let details = od(r, &coll); funds = jitter(r, vec![details.price.clone()]); if r.chance(4, 5) { Ex::SetCollectionBid { collection: coll, details } } else { Ex::BuyCollectionNft { collection: coll, details } } }
            23 | 24 => { let id = pick_id(r, 0); if let Some(a) = s.asks.get(&id) { if r.chance(4, 5) { who = a.creator.to_string(); } } let c = s.asks.get(&id).map_or(coll, |a| a.collection.to_string()); Ex::UpdateAsk { id, details: od(r, &c) } }
            25 => { let id = pick_id(r, 0); if let Some(a) = s.asks.get(&id) { if r.chance(4, 5) { who = a.creator.to_string(); } } Ex::RemoveAsk { id } }
            26..=28 => { let id = pick_id(r, 0); let c = s.asks.get(&id).map_or(coll, |a| a.collection.to_string()); let mut details = od(r, &c); if let Some(a) = s.asks.get(&id) { if r.chance(1, 2) { details.price = a.details.price.clone(); } funds = jitter(r, vec![a.details.price.clone()]); } Ex::AcceptAsk { id, details } }
            29 | 30 => { let id = pick_id(r, 1); let c = s.bids.get(&id).map_or(coll, |a| a.collection.to_string()); let details = od(r, &c); if let Some(a) = s.bids.get(&id) { if r.chance(4, 5) { who = a.creator.to_string(); } let need = if a.details.price.denom == details.price.denom { coin(details.price.amount.u128().saturating_sub(a.details.price.amount.u128()), details.price.denom.clone()) } else { details.price.clone() }; funds = jitter(r, vec![need]); } Ex::UpdateBid { id, details } }
            31 => { let id = pick_id(r, 1); if let Some(a) = s.bids.get(&id) { if r.chance(4, 5) { who = a.creator.to_string(); } } Ex::RemoveBid { id } }
            32 | 33 => { let id = pick_id(r, 1); let c = s.bids.get(&id).map_or(coll, |a| a.collection.to_string()); let mut details = od(r, &c); if let Some(b) = s.bids.get(&id) { if r.chance(1, 2) { details.price = b.details.price.clone(); } if r.chance(4, 5) { who = s.ask_on(b.collection.as_str(), &b.token_id).map_or(own(b.collection.as_str(), &b.token_id), |a| a.creator.to_string()); } } Ex::AcceptBid { id, details } }
            34 | 35 => { let id = pick_id(r, 2); let c = s.cbids.get(&id).map_or(coll, |a| a.collection.to_string()); let details = od(r, &c); if let Some(a) = s.cbids.get(&id) { if r.chance(4, 5) { who = a.creator.to_string(); } let need = if a.details.price.denom == details.price.denom { coin(details.price.amount.u128().saturating_sub(a.details.price.amount.u128()), details.price.denom.clone()) } else { details.price.clone() }; funds = jitter(r, vec![need]); } Ex::UpdateCollectionBid { id, details } }
            36 => { let id = pick_id(r, 2); if let Some(a) = s.cbids.get(&id) { if r.chance(4, 5) { who = a.creator.to_string(); } } Ex::RemoveCollectionBid { id } }
            _ => { let id = pick_id(r, 2); let c = s.cbids.get(&id).map_or(coll, |a| a.collection.to_string()); let mut details = od(r, &c); if let Some(b) = s.cbids.get(&id) { if r.chance(1, 2) { details.price = b.details.price.clone(); } if r.chance(4, 5) { who = s.ask_on(b.collection.as_str(), &tok).map_or(own(b.collection.as_str(), &tok), |a| a.creator.to_string()); } } Ex::AcceptCollectionBid { id, token_id: tok, details } }
        };
        if funds.is_empty() && r.chance(1, 12) { funds = vec![coin(5, DEN[r.below(2) as usize])]; }
        if who == self.c.me || who.is_empty() { return; }
        let line = format!("{} sends {} with {:?} at {}", who, serde_json::to_string(&msg).unwrap(), funds.iter().map(|c| c.to_string()).collect::<Vec<_>>(), self.c.time);
        let ok = self.run(&who, &funds, msg, v);
        log.push(format!("{} [{}]", line, if ok { "accepted" } else { "rejected" }));
        if ok && r.chance(1, 4) { self.queries(r, v, log); }
    }
}
