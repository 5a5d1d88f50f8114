//! stargaze-reserve-auction: random histories (messages, blocks, halts) of the real contract against
//! the contracts' clauses evaluated on concrete states (same clauses as /verif/contracts/ra/spec.rs).
use crate::chain::*;
use crate::{Viol, World};
use cosmwasm_std::*;
use serde::{de::DeserializeOwned, Deserialize};
use std::collections::BTreeMap;
use stargaze_reserve_auction as m;
use m::msg::{AuctionKeyOffset, ExecuteMsg as Ex, InstantiateMsg, MinReservePriceOffset, QueryMsg as Qm, SudoMsg as Su};
use sg_marketplace_common_ra::query::QueryOptions;

#[derive(Clone, PartialEq, Debug, Deserialize)]
struct Cfg { fair_burn: String, trading_fee_percent: Decimal, min_bid_increment_percent: Decimal, min_duration: u64, max_duration: u64, extend_duration: u64, create_auction_fee: Coin, max_auctions_to_settle_per_block: u64, halt_duration_threshold: u64, halt_buffer_duration: u64, halt_postpone_duration: u64 }
#[derive(Clone, PartialEq, Debug, Deserialize)]
struct High { coin: Coin, bidder: String }
#[derive(Clone, PartialEq, Debug, Deserialize)]
struct Au { collection: String, token_id: String, seller: String, reserve_price: Coin, duration: u64, end_time: Option<Timestamp>, seller_funds_recipient: Option<String>, high_bid: Option<High>, first_bid_time: Option<Timestamp> }
#[derive(Clone, PartialEq, Debug, Deserialize)]
struct Win { start_time: u64, end_time: u64 }
#[derive(Clone, PartialEq, Debug, Deserialize)]
struct Halts { prev_block_time: u64, halt_windows: Vec<Win> }
type Key = (String, String);
type Pay = BTreeMap<(String, String), i128>;
#[derive(Clone, PartialEq, Debug)]
struct Snap { cfg: Cfg, hm: Halts, prices: BTreeMap<String, u128>, aus: BTreeMap<Key, Au> }

const COLLS: [&str; 2] = ["nftalpha", "nftbravo"];
const TOKS: [&str; 3] = ["1", "2", "11"];
const USERS: [&str; 4] = ["alice0", "bobby0", "carol0", "dave00"];
const DEN: [&str; 3] = ["uatom", "uosmo", "ustars"];
const AMTS: [u128; 10] = [1, 2, 3, 7, 99, 100, 101, 999, 12345, 1_000_000_000_000_000_003];
const ONE: u128 = 1_000_000_000_000_000_000;
fn mul_ceil(a: u128, share: u128) -> u128 { let p = Uint256::from(a) * Uint256::from(share); let q = p / Uint256::from(ONE); let r = p % Uint256::from(ONE); Uint128::try_from(q).unwrap().u128() + if r.is_zero() { 0 } else { 1 } }

fn q<T: DeserializeOwned>(c: &Chain, msg: &Qm) -> Result<T, String> {
    let api = testing::MockApi::default();
    let qq = Q(c);
    let d = Deps { storage: &c.store, api: &api, querier: QuerierWrapper::new(&qq) };
    let b = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| m::query::query(d, c.env(), msg.clone()))).map_err(|_| "panic".to_string())?.map_err(|e| e.to_string())?;
    from_json(&b).map_err(|e| e.to_string())
}
fn snap(c: &Chain) -> Snap {
    let mut aus = BTreeMap::new();
    for k in COLLS { for t in TOKS {
        if let Some(a) = q::<Option<Au>>(c, &Qm::Auction { collection: k.into(), token_id: t.into() }).unwrap() { aus.insert((k.to_string(), t.to_string()), a); }
    } }
    let ps: Vec<Coin> = q(c, &Qm::MinReservePrices { query_options: Some(QueryOptions { descending: None, start_after: None, limit: Some(100) }) }).unwrap();
    Snap { cfg: q(c, &Qm::Config {}).unwrap(), hm: q(c, &Qm::HaltManager {}).unwrap(), prices: ps.into_iter().map(|p| (p.denom, p.amount.u128())).collect(), aus }
}
impl Snap {
    fn esc(&self, d: &str) -> i128 { self.aus.values().filter_map(|a| a.high_bid.as_ref()).filter(|b| b.coin.denom == d).map(|b| b.coin.amount.u128() as i128).sum() }
    fn halted(&self, t: u64) -> bool { self.hm.halt_windows.iter().any(|w| t > w.start_time && t < w.end_time) }
    fn cfg_ok(&self) -> bool { let g = &self.cfg; !g.min_bid_increment_percent.is_zero() && g.min_bid_increment_percent < Decimal::one() && g.min_duration > 0 && g.extend_duration > 0 }
    /// due auctions, earliest end first, then by key
    fn due(&self, now: u64) -> Vec<Au> {
        let mut v: Vec<Au> = self.aus.values().filter(|a| a.end_time.map_or(false, |e| e.seconds() <= now)).cloned().collect();
        v.sort_by_key(|a| (a.end_time.unwrap().seconds(), a.collection.clone(), a.token_id.clone()));
        v.truncate(self.cfg.max_auctions_to_settle_per_block.min(1000) as usize);
        v
    }
}
fn key(a: &Au) -> Key { (a.collection.clone(), a.token_id.clone()) }
fn plus(t: u64, s: u64) -> Timestamp { Timestamp::from_nanos(t).plus_seconds(s) }
fn strip(p: &Pay) -> Pay { p.iter().filter(|(_, v)| **v != 0).map(|(k, v)| (k.clone(), *v)).collect() }
fn roy(c: &Chain, k: &str) -> Option<Option<(String, u128)>> { let x = c.colls.get(k)?; if x.no_info { return None; } Some(x.royalty.as_ref().map(|(a, s)| (a.clone(), s.atomics().u128()))) }
/// the payments of a settlement, or None when it cannot be paid
fn split(c: &Chain, g: &Cfg, a: &Au, pay: &mut Pay) -> Option<()> {
    let r = roy(c, &a.collection)?;
    let b = a.high_bid.as_ref()?;
    let x = b.coin.amount.u128();
    let d = b.coin.denom.clone();
    let fee = mul_ceil(x, g.trading_fee_percent.atomics().u128());
    let rf = r.as_ref().map_or(0, |r| mul_ceil(x, r.1));
    if fee + rf > x { return None; }
    add(pay, (g.fair_burn.clone(), d.clone()), fee as i128);
    if let Some((to, _)) = r { add(pay, (to, d.clone()), rf as i128); }
    add(pay, (a.seller_funds_recipient.clone().unwrap_or(a.seller.clone()), d), (x - fee - rf) as i128);
    Some(())
}
/// settle or postpone one ended auction
struct Out { s2: Snap, pay: Pay, nfts: Vec<(String, String, String)> }
fn settle(c: &Chain, s: &Snap, a: &Au, o: &mut Out) -> Option<()> {
    if s.halted(a.end_time?.seconds()) { o.s2.aus.get_mut(&key(a))?.end_time = Some(plus(c.time, s.cfg.halt_postpone_duration)); return Some(()); }
    split(c, &s.cfg, a, &mut o.pay)?;
    o.s2.aus.remove(&key(a));
    o.nfts.push((a.collection.clone(), a.token_id.clone(), a.high_bid.as_ref()?.bidder.clone()));
    Some(())
}
#[derive(Clone, Debug)]
enum Msg { E(Ex), S(Su) }

pub struct W { c: Chain, ok: bool, halts: Vec<Win> }
impl W {
    /// the outcome the properties prescribe for an accepted message
    fn want(&self, c0: &Chain, s: &Snap, who: &str, funds: &[Coin], msg: &Msg) -> Option<Out> {
        let now = c0.time;
        let mut o = Out { s2: s.clone(), pay: Pay::new(), nfts: vec![] };
        match msg {
            Msg::E(Ex::CreateAuction { collection, token_id, reserve_price, duration, seller_funds_recipient }) => {
                if !s.cfg.create_auction_fee.amount.is_zero() { add(&mut o.pay, (s.cfg.fair_burn.clone(), s.cfg.create_auction_fee.denom.clone()), s.cfg.create_auction_fee.amount.u128() as i128); }
                o.nfts.push((collection.clone(), token_id.clone(), c0.me.clone()));
                o.s2.aus.insert((collection.clone(), token_id.clone()), Au { collection: collection.clone(), token_id: token_id.clone(), seller: who.into(), reserve_price: reserve_price.clone(), duration: *duration, end_time: None, seller_funds_recipient: seller_funds_recipient.clone(), high_bid: None, first_bid_time: None });
            }
            Msg::E(Ex::UpdateReservePrice { collection, token_id, reserve_price }) => { o.s2.aus.get_mut(&(collection.clone(), token_id.clone()))?.reserve_price = reserve_price.clone(); }
            Msg::E(Ex::CancelAuction { collection, token_id }) => { let a = o.s2.aus.remove(&(collection.clone(), token_id.clone()))?; o.nfts.push((collection.clone(), token_id.clone(), a.seller)); }
            Msg::E(Ex::PlaceBid { collection, token_id }) => {
                let a = o.s2.aus.get_mut(&(collection.clone(), token_id.clone()))?;
                if let Some(b) = &a.high_bid {
                    add(&mut o.pay, (b.bidder.clone(), b.coin.denom.clone()), b.coin.amount.u128() as i128);
                    if a.end_time?.seconds() < Timestamp::from_nanos(now).seconds() + s.cfg.extend_duration { a.end_time = Some(plus(now, s.cfg.extend_duration)); }
                } else { a.first_bid_time = Some(Timestamp::from_nanos(now)); a.end_time = Some(plus(now, a.duration)); }
                a.high_bid = Some(High { coin: funds.first()?.clone(), bidder: who.into() });
            }
            Msg::E(Ex::SettleAuction { collection, token_id }) => { let a = s.aus.get(&(collection.clone(), token_id.clone()))?; settle(c0, s, a, &mut o)?; }
            Msg::S(Su::BeginBlock {}) => {
                let t = Timestamp::from_nanos(now).seconds();
                if s.hm.prev_block_time > 0 && t - s.hm.prev_block_time >= s.cfg.halt_duration_threshold { o.s2.hm.halt_windows.push(Win { start_time: s.hm.prev_block_time, end_time: t + s.cfg.halt_buffer_duration }); }
                o.s2.hm.prev_block_time = t;
            }
            Msg::S(Su::EndBlock {}) => { for a in s.due(Timestamp::from_nanos(now).seconds()) { settle(c0, s, &a, &mut o)?; } }
            Msg::S(Su::UpdateParams { fair_burn, trading_fee_percent, min_bid_increment_percent, min_duration, extend_duration, create_auction_fee, max_auctions_to_settle_per_block, halt_duration_threshold, halt_buffer_duration, halt_postpone_duration }) => {
                let g = &mut o.s2.cfg;
                macro_rules! set { ($($f:ident),*) => { $(if let Some(x) = $f { g.$f = x.clone(); })* } }
                set!(fair_burn, trading_fee_percent, min_bid_increment_percent, min_duration, extend_duration, create_auction_fee, max_auctions_to_settle_per_block, halt_duration_threshold, halt_buffer_duration, halt_postpone_duration);
            }
            Msg::S(Su::SetMinReservePrices { min_reserve_prices }) => for p in min_reserve_prices { o.s2.prices.insert(p.denom.clone(), p.amount.u128()); },
            Msg::S(Su::UnsetMinReservePrices { denoms }) => for d in denoms { o.s2.prices.remove(d); },
        }
        Some(o)
    }
    /// the conditions an accepted message must meet: what it misses
    fn gates(&self, c0: &Chain, s: &Snap, who: &str, funds: &[Coin], msg: &Msg) -> Vec<Viol> {
        let mut v = vec![];
        let mut bad = |p: &'static str, w: String| v.push(Viol { prop: p, what: w });
        let now = Timestamp::from_nanos(c0.time).seconds();
        let of = |c: &String, t: &String| s.aus.get(&(c.clone(), t.clone()));
        let tgt: Option<Key> = match msg { Msg::E(Ex::CreateAuction { collection, token_id, .. } | Ex::UpdateReservePrice { collection, token_id, .. } | Ex::CancelAuction { collection, token_id } | Ex::PlaceBid { collection, token_id } | Ex::SettleAuction { collection, token_id }) => Some((collection.clone(), token_id.clone())), _ => None };
        match msg {
            Msg::E(Ex::CreateAuction { collection, token_id, reserve_price, duration, .. }) => {
                let t = c0.toks.get(tgt.as_ref().unwrap());
                if t.map_or(true, |t| t.owner != who) { bad("P24", "an auction by somebody who does not own the NFT".into()); }
                if t.map_or(false, |t| !t.approved.get(&c0.me).map_or(false, |e| e.map_or(true, |e| e > c0.time))) { bad("P24", "an auction without approval".into()); }
                if of(collection, token_id).is_some() { bad("P24", "a second auction for an NFT".into()); }
                if c0.colls.get(collection).map_or(false, |k| !k.no_info && k.start.map_or(false, |x| x > c0.time)) { bad("P24", "an auction before trading starts".into()); }
                if s.prices.get(&reserve_price.denom).map_or(true, |p| reserve_price.amount.u128() < *p) { bad("P24", "a reserve price below the minimum or in another denom".into()); }
                if *duration < s.cfg.min_duration || *duration > s.cfg.max_duration { bad("P24", "a duration out of bounds".into()); }
                let fee = &s.cfg.create_auction_fee;
                if !(if fee.amount.is_zero() { funds.is_empty() } else { funds == [fee.clone()] }) { bad("P20", "the creation fee was not paid exactly".into()); }
            }
            Msg::E(Ex::UpdateReservePrice { collection, token_id, reserve_price }) => {
                let a = of(collection, token_id);
                if a.map_or(true, |a| a.seller != who || a.first_bid_time.is_some()) { bad("P24", "repriced by somebody else or after the first bid".into()); }
                if s.prices.get(&reserve_price.denom).map_or(true, |p| reserve_price.amount.u128() < *p) { bad("P24", "a reserve price below the minimum or in another denom".into()); }
            }
            Msg::E(Ex::CancelAuction { collection, token_id }) => if of(collection, token_id).map_or(true, |a| a.seller != who || a.first_bid_time.is_some()) { bad("P24", "cancelled by somebody else or after the first bid".into()); },
            Msg::E(Ex::PlaceBid { collection, token_id }) => match of(collection, token_id) {
                None => bad("P19", "a bid on no auction".into()),
                Some(a) => {
                    if a.seller == who { bad("P19", "the seller bid".into()); }
                    if funds.len() != 1 || funds[0].denom != a.reserve_price.denom { bad("P19", format!("a bid paid with {:?}", funds)); return v; }
                    let min = match &a.high_bid { None => a.reserve_price.amount.u128(), Some(b) => mul_ceil(b.coin.amount.u128(), ONE + s.cfg.min_bid_increment_percent.atomics().u128()) };
                    if funds[0].amount.u128() < min { bad("P19", format!("a bid of {} below {}", funds[0].amount, min)); }
                    if a.end_time.map_or(false, |e| e.seconds() <= now) { bad("P22", "a bid after the end".into()); bad("P19", "a bid after the end".into()); }
                }
            },
            Msg::E(Ex::SettleAuction { collection, token_id }) => if of(collection, token_id).map_or(true, |a| a.end_time.map_or(true, |e| e.seconds() > now)) { bad("P22", "settled before the end".into()); },
            _ => {}
        }
        v
    }
    /// the minimum prices set by a request are for denoms that have none, the ones it unsets are there
    fn fresh(&self, s: &Snap, m: &Su) -> bool {
        let once = |d: Vec<&String>| { let mut x = d.clone(); x.sort(); x.dedup(); x.len() == d.len() };
        match m {
            Su::SetMinReservePrices { min_reserve_prices } => min_reserve_prices.iter().all(|p| !s.prices.contains_key(&p.denom)) && once(min_reserve_prices.iter().map(|p| &p.denom).collect()),
            Su::UnsetMinReservePrices { denoms } => denoms.iter().all(|d| s.prices.contains_key(d)) && once(denoms.iter().collect()),
            _ => true,
        }
    }
    /// a governance request that has to be accepted
    fn gov(&self, s: &Snap, m: &Su) -> bool {
        match m {
            Su::UpdateParams { fair_burn, min_bid_increment_percent, min_duration, extend_duration, .. } => {
                let g = &s.cfg;
                let inc = min_bid_increment_percent.unwrap_or(g.min_bid_increment_percent);
                fair_burn.as_ref().map_or(true, |a| cosmwasm_std::testing::MockApi::default().addr_validate(a).is_ok()) && !inc.is_zero() && inc < Decimal::one() && min_duration.unwrap_or(g.min_duration) > 0 && extend_duration.unwrap_or(g.extend_duration) > 0
            }
            Su::SetMinReservePrices { .. } | Su::UnsetMinReservePrices { .. } => self.fresh(s, m),
            _ => false, // the block messages are P23
        }
    }
    /// a request that meets every condition and can be carried out: it may not be refused
    fn allowed(&self, c0: &Chain, s: &Snap, who: &str, funds: &[Coin], msg: &Msg) -> bool {
        let e = match msg { Msg::E(e) => e, Msg::S(m) => return self.gov(s, m) };
        let ok = |a: &String| cosmwasm_std::testing::MockApi::default().addr_validate(a).is_ok();
        let more = match e {
            Ex::CreateAuction { collection, token_id, seller_funds_recipient, .. } => ok(collection) && seller_funds_recipient.as_ref().map_or(true, |x| ok(x)) && c0.toks.contains_key(&(collection.clone(), token_id.clone())),
            Ex::PlaceBid { collection, .. } => ok(collection),
            Ex::UpdateReservePrice { collection, .. } | Ex::CancelAuction { collection, .. } | Ex::SettleAuction { collection, .. } => ok(collection) && funds.is_empty(),
        };
        more && s.cfg_ok() && self.gates(c0, s, who, funds, msg).is_empty() && self.want(c0, s, who, funds, msg).is_some()
    }
    fn judge(&mut self, c0: &Chain, s: &Snap, s2: &Snap, who: &str, funds: &[Coin], msg: &Msg, e: &Effects, v: &mut Vec<Viol>) {
        let mut bad = |p: &'static str, w: String| v.push(Viol { prop: p, what: w });
        let now = Timestamp::from_nanos(c0.time).seconds();
        for d in DEN {
            let f: i128 = funds.iter().filter(|c| c.denom == d).map(|c| c.amount.u128() as i128).sum();
            let out = *e.out.get(d).unwrap_or(&0);
            if s2.esc(d) + out != s.esc(d) + f { bad("P20", format!("{}: high bids {} + funds {} became high bids {} + payouts {}", d, s.esc(d), f, s2.esc(d), out)); }
            if self.c.bal(&self.c.me, d) as i128 != s2.esc(d) { bad("P20", format!("contract holds {} {} and owes {}", self.c.bal(&self.c.me, d), d, s2.esc(d))); }
        }
        if e.non_atomic > 0 { bad("P20", "a transfer may fail without undoing the transaction".into()); }
        if e.zero_send && !s.cfg.trading_fee_percent.is_zero() { bad("P20", "zero-amount transfer".into()); }
        for a in s2.aus.values() {
            if self.c.toks.get(&key(a)).map_or(true, |t| t.owner != self.c.me) { bad("P21", format!("auction {:?} without its NFT in custody", key(a))); }
        }
        for (k, t) in &self.c.toks { if t.owner == self.c.me && !s2.aus.contains_key(k) { bad("P21", format!("{:?} in custody without an auction", k)); } }
        if !s2.cfg_ok() { bad("P24", "configuration out of bounds".into()); }
        let tgt: Option<Key> = match msg { Msg::E(Ex::CreateAuction { collection, token_id, .. } | Ex::UpdateReservePrice { collection, token_id, .. } | Ex::CancelAuction { collection, token_id } | Ex::PlaceBid { collection, token_id } | Ex::SettleAuction { collection, token_id }) => Some((collection.clone(), token_id.clone())), _ => None };
        if !matches!(msg, Msg::S(Su::EndBlock {})) {
            for k in s.aus.keys().chain(s2.aus.keys()) { if Some(k) != tgt.as_ref() && s.aus.get(k) != s2.aus.get(k) { bad("P24", format!("auction {:?} was changed by a message about another", k)); } }
        }
        v.extend(self.gates(c0, s, who, funds, msg));
        let mut bad = |p: &'static str, w: String| v.push(Viol { prop: p, what: w });
        if let Msg::S(m) = msg { if !self.fresh(s, m) { bad("P24", "a minimum price was set over an existing one, or one that does not exist was unset".into()); } }
        if let Msg::E(Ex::PlaceBid { .. }) = msg {
            let b = s2.aus.get(tgt.as_ref().unwrap());
            if funds.first().map_or(true, |f| b.and_then(|b| b.high_bid.as_ref()) != Some(&High { coin: f.clone(), bidder: who.into() })) { bad("P19", "the accepted bid is not the high bid".into()); }
        }
        if matches!(msg, Msg::S(_)) && !matches!(msg, Msg::S(Su::EndBlock {})) && e.nfts.len() + e.paid.len() > 0 { bad("P21", "governance moved value".into()); }
        for (k, a) in &s.aus {
            let gone = !s2.aus.contains_key(k) && matches!(msg, Msg::E(Ex::SettleAuction { .. }) | Msg::S(Su::EndBlock {}));
            if gone && a.end_time.map_or(true, |e| e.seconds() > now) { bad("P22", "settled before the end".into()); }
            if let (true, Some(x)) = (gone, a.end_time) { if self.halts.iter().any(|w| x.seconds() > w.start_time && x.seconds() < w.end_time) { bad("P23", format!("auction {:?} ended in a halt and was settled", k)); } }
            if let Some(b) = s2.aus.get(k) { if let (Some(x), Some(y)) = (a.end_time, b.end_time) { if y < x && matches!(msg, Msg::E(Ex::PlaceBid { .. })) { bad("P22", "a bid brought the end forward".into()); } } }
        }
        if let Msg::S(Su::BeginBlock {}) = msg { if s.hm.prev_block_time > 0 && now - s.hm.prev_block_time >= s.cfg.halt_duration_threshold { self.halts.push(Win { start_time: s.hm.prev_block_time, end_time: now + s.cfg.halt_buffer_duration }); } }
        let w = match self.want(c0, s, who, funds, msg) { Some(w) => w, None => { bad("P21", "accepted although it cannot be carried out".into()); return; } };
        if w.nfts != e.nfts { bad("P21", format!("NFT transfers {:?} instead of {:?}", e.nfts, w.nfts)); }
        if strip(&w.pay) != strip(&e.paid) { bad(if matches!(msg, Msg::E(Ex::SettleAuction { .. }) | Msg::S(_)) { "P21" } else { "P20" }, format!("payments {:?} instead of {:?}", strip(&e.paid), strip(&w.pay))); }
        if w.s2.cfg != s2.cfg || w.s2.prices != s2.prices { bad("P24", "the settings are not the ones asked for".into()); }
        if w.s2.hm.prev_block_time != s2.hm.prev_block_time { bad("P23", "block time not recorded".into()); }
        if !matches!(msg, Msg::S(Su::EndBlock {})) && w.s2.hm != s2.hm { bad("P23", "halt windows differ from the halts detected".into()); }
        for k in w.s2.aus.keys().chain(s2.aus.keys()) {
            let (x, y) = (w.s2.aus.get(k), s2.aus.get(k));
            if x == y { continue; }
            let t = |a: Option<&Au>| a.map(|a| (a.end_time, a.first_bid_time));
            let p = match msg { Msg::E(Ex::PlaceBid { .. }) => if t(x) != t(y) { "P22" } else { "P19" }, Msg::E(Ex::SettleAuction { .. }) | Msg::S(_) => "P23", _ => "P24" };
            bad(p, format!("auction {:?} became {:?} instead of {:?}", k, y, x));
        }
    }
    fn run(&mut self, who: &str, funds: &[Coin], msg: Msg, v: &mut Vec<Viol>) -> bool {
        let c0 = self.c.clone();
        let s = snap(&c0);
        let r = match msg.clone() {
            Msg::E(x) => self.c.call(who, funds, |d, e, i| m::execute::execute(d, e, i, x).map_err(|e| e.to_string()), |_, _, _| Ok(sg_std::Response::new())),
            Msg::S(x) => self.c.call("chain0", &[], |d, e, _| m::sudo::sudo(d, e, x).map_err(|e| e.to_string()), |_, _, _| Ok(sg_std::Response::new())),
        };
        match r {
            Ok(r) => {
                let s2 = snap(&self.c);
                self.judge(&c0, &s, &s2, who, funds, &msg, &effects(&r.messages), v);
                true
            }
            Err(e) => {
                if (e.at == "contract" || e.at == "abort") && self.allowed(&c0, &s, who, funds, &msg) { v.push(Viol { prop: "P28", what: format!("a valid request was refused: {}", e.what) }); }
                let t = Timestamp::from_nanos(c0.time).seconds();
                match &msg {
                    Msg::S(Su::EndBlock {}) => if !s.due(t).iter().any(|a| !s.halted(a.end_time.unwrap().seconds()) && split(&c0, &s.cfg, a, &mut Pay::new()).is_none()) {
                        v.push(Viol { prop: "P23", what: format!("the end of the block failed: {}", e.what) });
                    },
                    Msg::S(Su::BeginBlock {}) => v.push(Viol { prop: "P23", what: format!("the begin of the block failed: {}", e.what) }),
                    _ => if e.at == "message" && !s.cfg.trading_fee_percent.is_zero() {
                        // the contract asked for something the chain refuses
                        let z = e.eff.as_ref().map_or(false, |x| x.zero_send);
                        if z { v.push(Viol { prop: "P20", what: format!("zero-amount transfer: {}", e.what) }); }
                        else if !matches!(msg, Msg::E(Ex::CreateAuction { .. })) { v.push(Viol { prop: "P21", what: format!("a transfer of an accepted message fails: {}", e.what) }); v.push(Viol { prop: "P20", what: e.what.clone() }); }
                    },
                }
                false
            }
        }
    }
    fn queries(&self, r: &mut Rng, v: &mut Vec<Viol>, log: &[String]) {
        let s = snap(&self.c);
        let mut check = |w: String, a: Result<serde_json::Value, String>, b: serde_json::Value| if a.as_ref() != Ok(&b) { v.push(Viol { prop: "P25", what: format!("query {} answers {:?} instead of {} after {} messages", w, a, b, log.len()) }); };
        let raw = |m: &Qm| q::<serde_json::Value>(&self.c, m);
        let val = |k: &Key| raw(&Qm::Auction { collection: k.0.clone(), token_id: k.1.clone() }).unwrap();
        let desc = *r.pick(&[None, Some(false), Some(true)]);
        let lim = *r.pick(&[None, Some(0u32), Some(1), Some(2), Some(100), Some(1000)]);
        let n = lim.unwrap_or(10).min(100) as usize;
        let off = if r.chance(1, 2) { Some((r.pick(&COLLS).to_string(), r.pick(&TOKS).to_string())) } else { None };
        let sa = off.as_ref().map(|k| AuctionKeyOffset { collection: k.0.clone(), token_id: k.1.clone() });
        let o = QueryOptions { descending: desc, start_after: sa, limit: lim };
        let down = desc == Some(true);
        fn cut<K: Ord + Clone, T>(mut v: Vec<(K, T)>, b: Option<K>, down: bool, n: usize) -> Vec<T> {
            if let Some(b) = b { v.retain(|x| if down { x.0 < b } else { x.0 > b }); }
            v.sort_by(|a, b| a.0.cmp(&b.0));
            if down { v.reverse(); }
            v.truncate(n);
            v.into_iter().map(|x| x.1).collect()
        }
        match r.below(3) {
            0 => {
                let who = r.pick(&USERS).to_string();
                let m = Qm::AuctionsBySeller { seller: who.clone(), query_options: if off.is_none() && desc.is_none() && lim.is_none() { None } else { Some(o) } };
                let l = cut(s.aus.iter().filter(|x| x.1.seller == who).map(|x| (x.0.clone(), val(x.0))).collect(), off, down, n);
                check(serde_json::to_string(&m).unwrap(), raw(&m), serde_json::Value::Array(l));
            }
            1 => {
                let mut ts: Vec<u64> = s.aus.values().filter_map(|a| a.end_time.map(|e| e.seconds())).collect();
                ts.push(0); ts.push(Timestamp::from_nanos(self.c.time).seconds()); ts.push(u64::MAX);
                let et = *r.pick(&ts);
                let m = Qm::AuctionsByEndTime { end_time: et, query_options: Some(o) };
                let b = (et, off.unwrap_or_default());
                let l = cut(s.aus.iter().map(|x| ((x.1.end_time.map_or(u64::MAX, |e| e.seconds()), x.0.clone()), val(x.0))).filter(|x| down || x.0 .0 < u64::MAX).collect(), Some(b), down, n);
                check(serde_json::to_string(&m).unwrap(), raw(&m), serde_json::Value::Array(l));
            }
            _ => {
                let d = if r.chance(1, 2) { Some(r.pick(&DEN).to_string()) } else { None };
                let m = Qm::MinReservePrices { query_options: Some(QueryOptions { descending: desc, start_after: d.clone().map(|denom| MinReservePriceOffset { denom }), limit: lim }) };
                let l = cut(s.prices.iter().map(|x| (x.0.clone(), serde_json::json!({"denom": x.0, "amount": x.1.to_string()}))).collect(), d, down, n);
                check(serde_json::to_string(&m).unwrap(), raw(&m), serde_json::Value::Array(l));
            }
        }
    }
}
impl World for W {
    fn new(r: &mut Rng, log: &mut Vec<String>, v: &mut Vec<Viol>) -> W {
        let t0 = 1_000_000_000_000 + r.below(3) * 400_000_000;
        let mut c = Chain { me: "auctionhouse".into(), height: 10, time: t0, registry: "registry".into(), ..Default::default() };
        for u in USERS { for d in DEN { c.bank.insert((u.to_string(), d.to_string()), u128::MAX >> 8); } }
        for (i, k) in COLLS.iter().enumerate() {
            let share = *r.pick(&[Decimal::zero(), Decimal::bps(1), Decimal::percent(5), Decimal::percent(10), Decimal::percent(97), Decimal::raw(33_333_333_333_333_333)]);
            let rec = if r.chance(1, 6) { "alice0".to_string() } else { format!("royal{}", i) };
            c.colls.insert(k.to_string(), Coll { creator: "creator".into(), start: if r.chance(1, 3) { Some(t0 + 1_000_000_000 * r.below(3)) } else { None }, royalty: if r.chance(1, 2) { Some((rec, share)) } else { None }, no_info: r.chance(1, 12) });
            for t in TOKS { let u = r.pick(&USERS).to_string(); let mut tok = Tok { owner: u, approved: Default::default() }; if r.chance(3, 4) { tok.approved.insert(c.me.clone(), None); } c.toks.insert((k.to_string(), t.to_string()), tok); }
        }
        let mut prices: Vec<Coin> = vec![];
        for d in DEN { if r.chance(3, 4) { prices.push(coin(*r.pick(&[1u128, 2, 100]), d)); } }
        let im = InstantiateMsg {
            fair_burn: "fairburner".into(), trading_fee_percent: *r.pick(&[Decimal::zero(), Decimal::bps(1), Decimal::percent(2), Decimal::percent(3), Decimal::percent(10)]),
            min_bid_increment_percent: *r.pick(&[Decimal::bps(1), Decimal::percent(1), Decimal::percent(5), Decimal::percent(50), Decimal::percent(99), Decimal::zero(), Decimal::one()]),
            min_duration: r.below(3), max_duration: *r.pick(&[5u64, 60, 100]), extend_duration: *r.pick(&[0u64, 1, 5, 20]), create_auction_fee: coin(*r.pick(&[0u128, 5, 50]), DEN[r.below(3) as usize]),
            max_auctions_to_settle_per_block: *r.pick(&[1u64, 1, 2, 3, 100]), halt_duration_threshold: *r.pick(&[10u64, 30, 30]), halt_buffer_duration: *r.pick(&[0u64, 1, 5, 20]), halt_postpone_duration: *r.pick(&[0u64, 3, 15, 40]), min_reserve_prices: prices.clone(),
        };
        log.push(format!("instantiate {}", serde_json::to_string(&im).unwrap()));
        log.push(format!("collections {:?} tokens {:?}", c.colls, c.toks.iter().map(|(k, t)| format!("{:?} of {}{}", k, t.owner, if t.approved.is_empty() { "" } else { " approved" })).collect::<Vec<_>>()));
        let mut w = W { c, ok: false, halts: vec![] };
        let imc = im.clone();
        let r = w.c.call("admin0", &[], |d, e, i| m::instantiate::instantiate(d, e, i, imc).map_err(|e| e.to_string()), |_, _, _| Ok(sg_std::Response::new()));
        if let Err(e) = &r {
            let inc = im.min_bid_increment_percent;
            if !inc.is_zero() && inc < Decimal::one() && im.min_duration > 0 && im.extend_duration > 0 { v.push(Viol { prop: "P28", what: format!("valid settings were refused: {}", e.what) }); }
        }
        if let Ok(resp) = r {
            w.ok = true;
            let s = snap(&w.c);
            if !s.cfg_ok() { v.push(Viol { prop: "P24", what: "instantiated with a configuration out of bounds".into() }); }
            let mut given = serde_json::to_value(&im).unwrap();
            given.as_object_mut().unwrap().remove("min_reserve_prices");
            let stored: serde_json::Value = q(&w.c, &Qm::Config {}).unwrap();
            if stored != given || s.prices != prices.iter().map(|p| (p.denom.clone(), p.amount.u128())).collect() { v.push(Viol { prop: "P24", what: "the stored settings are not the ones given".into() }); }
            if !resp.messages.is_empty() || !s.aus.is_empty() { v.push(Viol { prop: "P21", what: "instantiate moved value".into() }); }
            if s.hm.prev_block_time != 0 || !s.hm.halt_windows.is_empty() { v.push(Viol { prop: "P23", what: "instantiated with halts".into() }); }
        }
        w
    }
    fn step(&mut self, r: &mut Rng, log: &mut Vec<String>, v: &mut Vec<Viol>) {
        if !self.ok { return; }
        if r.chance(1, 30) { self.c.drift(r, log); return; }
        if r.chance(1, 25) { if let Some(what) = self.c.migration(r, log, "reserve-auction", Some("crates.io:stargaze-reserve-auction"), false, |d, e| m::migrate::migrate(d, e, m::migrate::MigrationMsg {}).map_err(|e| e.to_string())) { v.push(Viol { prop: "P30", what }); } return; }
        let s = snap(&self.c);
        let line = |w: &W, who: &str, m: &str, funds: &[Coin], ok: bool| format!("{} sends {} with {:?} at {} [{}]", who, m, funds.iter().map(|c| c.to_string()).collect::<Vec<_>>(), w.c.time, if ok { "accepted" } else { "rejected" });
        let j = |m: &Msg| match m { Msg::E(x) => serde_json::to_string(x).unwrap(), Msg::S(x) => serde_json::to_string(x).unwrap() };
        let dk = |s: &str| { s.to_string() };
        let mut k = r.below(40);
        if (20..=36).contains(&k) && s.aus.is_empty() && !r.chance(1, 40) { k = 13; }
        if k < 11 {
            // a block ends and the next one begins
            let m = Msg::S(Su::EndBlock {});
            let ok = self.run("", &[], m.clone(), v);
            log.push(line(self, "chain", &j(&m), &[], ok));
            if !v.is_empty() { return; }
            // aim at the ends of auctions and the edges of halts
            let mut ts: Vec<u64> = s.aus.values().filter_map(|a| a.end_time.map(|e| e.nanos())).collect();
            for w in &s.hm.halt_windows { ts.push(w.end_time * 1_000_000_000); }
            ts.push((s.hm.prev_block_time + s.cfg.halt_duration_threshold) * 1_000_000_000);
            ts.retain(|t| *t + 2_000_000_000 > self.c.time && *t < self.c.time + 200_000_000_000);
            let t = if !ts.is_empty() && r.chance(2, 5) { let d = *r.pick(&[0i64, -1_000_000_000, 1_000_000_000, -1, 1, -300_000_000, 300_000_000]); (*r.pick(&ts) as i64 + d) as u64 } else { self.c.time + *r.pick(&[0u64, 300_000_000, 700_000_000, 1_000_000_000, 5_000_000_000, 6_000_000_000, 9_000_000_000, 31_000_000_000]) };
            self.c.time = t.max(self.c.time);
            self.c.height += 1;
            let m = Msg::S(Su::BeginBlock {});
            let ok = self.run("", &[], m.clone(), v);
            log.push(line(self, "chain", &j(&m), &[], ok));
            return;
        }
        if k == 11 { self.queries(r, v, log); return; }
        if k == 12 {
            // an owner grants or withdraws the approval
            let kk = (r.pick(&COLLS).to_string(), r.pick(&TOKS).to_string());
            let e = *r.pick(&[None, None, Some(self.c.time), Some(self.c.time + 1), Some(self.c.time + 10_000_000_000)]);
            let (me, yes) = (self.c.me.clone(), r.chance(4, 5));
            if let Some(t) = self.c.toks.get_mut(&kk) { if t.owner != me { if yes { t.approved.insert(me, e); } else { t.approved.clear(); } } }
            log.push(format!("approval of {:?}: {} {:?}", kk, yes, e));
            return;
        }
        let mut who = r.pick(&USERS).to_string();
        let mut funds: Vec<Coin> = vec![];
        let live: Vec<Au> = s.aus.values().cloned().collect();
        let den = |r: &mut Rng, s: &Snap| { let ks: Vec<String> = s.prices.keys().cloned().collect(); if ks.is_empty() || r.chance(1, 10) { r.pick(&DEN).to_string() } else { r.pick(&ks).clone() } };
        let price = |r: &mut Rng, s: &Snap| { let d = den(r, s); let base = *s.prices.get(&d).unwrap_or(&1); let a = *r.pick(&[base, base, base, base + 1, base.saturating_sub(1), base * 10, 12345, 99]); coin(a, d) };
        let pick = |r: &mut Rng| -> Key { if live.is_empty() || r.chance(1, 20) { (r.pick(&COLLS).to_string(), r.pick(&TOKS).to_string()) } else { key(r.pick(&live)) } };
        let msg = match k {
            13..=19 => {
                let mine: Vec<Key> = self.c.toks.iter().filter(|(_, t)| t.owner == who && t.approved.contains_key(&self.c.me)).map(|(k, _)| k.clone()).collect();
                let (collection, token_id) = if !mine.is_empty() && r.chance(9, 10) { r.pick(&mine).clone() } else { pick(r) };
                let fee = s.cfg.create_auction_fee.clone();
                if !fee.amount.is_zero() && r.chance(9, 10) { funds.push(fee.clone()); }
                if r.chance(1, 15) { funds = vec![coin(fee.amount.u128() + 1, fee.denom.clone())]; }
                if r.chance(1, 10) { let d = r.pick(&DEN).to_string(); if !funds.iter().any(|c| c.denom == d) { funds.push(coin(*r.pick(&AMTS), d)); } }
                let duration = *r.pick(&[s.cfg.min_duration, s.cfg.max_duration, s.cfg.min_duration.saturating_sub(1), s.cfg.max_duration + 1, 5, 5, 5, 5, 5, 12]);
                Msg::E(Ex::CreateAuction { collection, token_id, reserve_price: price(r, &s), duration, seller_funds_recipient: if r.chance(1, 3) { Some(r.pick(&["bobby0", "payee0"]).to_string()) } else { None } })
            }
            20 | 21 => { let (collection, token_id) = pick(r); if let Some(a) = s.aus.get(&(collection.clone(), token_id.clone())) { if r.chance(4, 5) { who = a.seller.clone(); } } Msg::E(Ex::UpdateReservePrice { collection, token_id, reserve_price: price(r, &s) }) }
            22 => { let (collection, token_id) = pick(r); if let Some(a) = s.aus.get(&(collection.clone(), token_id.clone())) { if r.chance(4, 5) { who = a.seller.clone(); } } Msg::E(Ex::CancelAuction { collection, token_id }) }
            23..=32 => {
                let (collection, token_id) = pick(r);
                if let Some(a) = s.aus.get(&(collection.clone(), token_id.clone())) {
                    let min = match &a.high_bid { None => a.reserve_price.amount.u128(), Some(b) => mul_ceil(b.coin.amount.u128(), ONE + s.cfg.min_bid_increment_percent.atomics().u128()) };
                    let x = *r.pick(&[min, min, min + 1, min.saturating_sub(1), min + 5, min + 1000, min / 2 + 1]);
                    let d = if r.chance(9, 10) { a.reserve_price.denom.clone() } else { r.pick(&DEN).to_string() };
                    if x > 0 { funds.push(coin(x, d)); }
                    if r.chance(1, 15) { let d = r.pick(&DEN).to_string(); if !funds.iter().any(|c| c.denom == d) { funds.push(coin(5, d)); } }
                }
                Msg::E(Ex::PlaceBid { collection, token_id })
            }
            33..=36 => { let (collection, token_id) = pick(r); Msg::E(Ex::SettleAuction { collection, token_id }) }
            37 | 38 => {
                let o = |r: &mut Rng| r.chance(1, 5);
                Msg::S(Su::UpdateParams {
                    fair_burn: if o(r) { Some(dk(*r.pick(&["fairburner", "otherburner"]))) } else { None }, trading_fee_percent: if o(r) { Some(*r.pick(&[Decimal::zero(), Decimal::percent(2), Decimal::percent(4)])) } else { None },
                    min_bid_increment_percent: if o(r) { Some(*r.pick(&[Decimal::zero(), Decimal::bps(7), Decimal::percent(10), Decimal::one()])) } else { None }, min_duration: if o(r) { Some(r.below(4)) } else { None }, extend_duration: if o(r) { Some(*r.pick(&[0u64, 2, 10])) } else { None },
                    create_auction_fee: if o(r) { Some(coin(*r.pick(&[0u128, 7]), DEN[r.below(3) as usize])) } else { None }, max_auctions_to_settle_per_block: if o(r) { Some(*r.pick(&[1u64, 2, 50])) } else { None }, halt_duration_threshold: if o(r) { Some(*r.pick(&[10u64, 30])) } else { None },
                    halt_buffer_duration: if o(r) { Some(*r.pick(&[0u64, 2, 12])) } else { None }, halt_postpone_duration: if o(r) { Some(*r.pick(&[0u64, 4, 33])) } else { None },
                })
            }
            _ => if r.chance(1, 2) { Msg::S(Su::SetMinReservePrices { min_reserve_prices: (0..r.below(3)).map(|_| coin(*r.pick(&[1u128, 3, 50]), DEN[r.below(3) as usize])).collect() }) } else { Msg::S(Su::UnsetMinReservePrices { denoms: (0..1 + r.below(2)).map(|_| r.pick(&DEN).to_string()).collect() }) },
        };
        if matches!(msg, Msg::E(ref x) if !matches!(x, Ex::PlaceBid { .. } | Ex::CreateAuction { .. })) && r.chance(1, 15) { funds = vec![coin(5, DEN[r.below(3) as usize])]; }
        if matches!(msg, Msg::S(_)) { who = "chain".into(); funds.clear(); }
        funds.sort_by(|a, b| a.denom.cmp(&b.denom));
        let ok = self.run(&who, &funds, msg.clone(), v);
        log.push(line(self, &who, &j(&msg), &funds, ok));
    }
}
