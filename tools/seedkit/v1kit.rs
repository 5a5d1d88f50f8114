//! helpers for scenarios of the classic marketplace
use crate::chain::*;
pub use cosmwasm_std::*;
pub use sg_marketplace as m;
pub use m::msg::{ExecuteMsg as Ex, InstantiateMsg, QueryMsg as Qm, SudoMsg as Su};
pub use m::state::SaleType;
pub use serde_json::{json, Value};
pub const D: &str = "ustars";
pub const S: u64 = 1_000_000_000;
pub const T0: u64 = 1_000 * S;
pub const N: &str = "nftalpha";
pub const START: u128 = 1_000_000_000_000_000;
pub fn c(a: u128) -> Coin { coin(a, D) }
pub fn ts(n: u64) -> Timestamp { Timestamp::from_nanos(T0 + n) }
pub struct T(pub Chain);
pub fn init() -> Value { json!({"trading_fee_bps": 200, "ask_expiry": {"min": 10, "max": 1000}, "bid_expiry": {"min": 10, "max": 1000}, "operators": ["opera1", "opera2"], "sale_hook": null, "max_finders_fee_bps": 1000, "min_price": "5", "stale_bid_duration": {"time": 100}, "bid_removal_reward_bps": 500, "listing_fee": "0"}) }
pub fn setup() -> T { setup_with(init()) }
/// users with funds; collection nftalpha with 5 percent royalties, tokens 1..5 owned by alice0 and approved
pub fn setup_with(i: Value) -> T {
    let mut ch = Chain { me: "marketplace".into(), height: 10, time: T0, registry: "registry".into(), ..Default::default() };
    for u in ["alice0", "bobby0", "carol0", "dave00", "opera1"] { for d in [D, "uatom"] { ch.bank.insert((u.into(), d.into()), START); } }
    ch.colls.insert(N.into(), Coll { creator: "creator".into(), royalty: Some(("royal0".into(), Decimal::percent(5))), ..Default::default() });
    for t in ["1", "2", "3", "4", "5"] { let mut k = Tok { owner: "alice0".into(), approved: Default::default() }; k.approved.insert("marketplace".into(), None); ch.toks.insert((N.into(), t.into()), k); }
    let mut t = T(ch);
    let i: InstantiateMsg = serde_json::from_value(i).unwrap();
    t.0.call("admin0", &[], |d, e, x| m::execute::instantiate(d, e, x, i).map_err(|e| e.to_string()), |_, _, _| Ok(sg_std::Response::new())).unwrap();
    t
}
impl T {
    pub fn ex(&mut self, who: &str, funds: &[Coin], msg: Ex) -> Result<sg_std::Response, TxErr> { self.0.call(who, funds, |d, e, i| m::execute::execute(d, e, i, msg).map_err(|e| e.to_string()), |d, e, r| m::execute::reply(d, e, r).map_err(|e| e.to_string())) }
    pub fn su(&mut self, msg: Su) -> Result<sg_std::Response, TxErr> { self.0.call("chain0", &[], |d, e, _| m::sudo::sudo(d, e, msg).map_err(|e| e.to_string()), |_, _, _| Ok(sg_std::Response::new())) }
    pub fn at(&mut self, n: u64) { self.0.time = T0 + n; self.0.height += 1; }
    pub fn ask_as(&mut self, who: &str, t: u32, price: u128, sale_type: SaleType, reserve_for: Option<&str>, fee: u128) -> Result<sg_std::Response, TxErr> {
        let f = if fee > 0 { vec![c(fee)] } else { vec![] };
        let now = self.0.time;
        self.ex(who, &f, Ex::SetAsk { sale_type, collection: N.into(), token_id: t, price: c(price), funds_recipient: Some("payee0".into()), reserve_for: reserve_for.map(|x| x.to_string()), finders_fee_bps: Some(1000), expires: Timestamp::from_nanos(now + 500 * S) })
    }
    /// a fixed-price listing by alice0 that lasts 500 seconds and pays payee0
    pub fn ask(&mut self, t: u32, price: u128) { self.ask_as("alice0", t, price, SaleType::FixedPrice, None, 0).expect("listing refused"); }
    /// a bid that lasts 500 seconds
    pub fn bid(&mut self, who: &str, t: u32, amt: u128) -> Result<sg_std::Response, TxErr> { self.bid_f(who, t, amt, None) }
    pub fn bid_f(&mut self, who: &str, t: u32, amt: u128, finder: Option<&str>) -> Result<sg_std::Response, TxErr> {
        let now = self.0.time;
        self.ex(who, &[c(amt)], Ex::SetBid { collection: N.into(), token_id: t, expires: Timestamp::from_nanos(now + 500 * S), sale_type: SaleType::FixedPrice, finder: finder.map(|x| x.to_string()), finders_fee_bps: Some(1000) })
    }
    pub fn cbid(&mut self, who: &str, amt: u128) -> Result<sg_std::Response, TxErr> { let now = self.0.time; self.ex(who, &[c(amt)], Ex::SetCollectionBid { collection: N.into(), expires: Timestamp::from_nanos(now + 500 * S), finders_fee_bps: Some(1000) }) }
    pub fn accept(&mut self, who: &str, t: u32, bidder: &str) -> Result<sg_std::Response, TxErr> { self.ex(who, &[], Ex::AcceptBid { collection: N.into(), token_id: t, bidder: bidder.into(), finder: None }) }
    pub fn caccept(&mut self, who: &str, t: u32, bidder: &str, finder: Option<&str>) -> Result<sg_std::Response, TxErr> { self.ex(who, &[], Ex::AcceptCollectionBid { collection: N.into(), token_id: t, bidder: bidder.into(), finder: finder.map(|x| x.to_string()) }) }
    pub fn q(&self, msg: Qm) -> Value { let api = testing::MockApi::default(); from_json(m::query::query(Deps { storage: &self.0.store, api: &api, querier: QuerierWrapper::new(&Q(&self.0)) }, self.0.env(), msg).unwrap()).unwrap() }
    pub fn get_ask(&self, t: u32) -> Value { self.q(Qm::Ask { collection: N.into(), token_id: t })["ask"].clone() }
    pub fn get_bid(&self, t: u32, who: &str) -> Value { self.q(Qm::Bid { collection: N.into(), token_id: t, bidder: who.into() })["bid"].clone() }
    pub fn get_cbid(&self, who: &str) -> Value { self.q(Qm::CollectionBid { collection: N.into(), bidder: who.into() })["bid"].clone() }
    pub fn params(&self) -> Value { self.q(Qm::Params {})["params"].clone() }
    pub fn bal(&self, a: &str) -> u128 { self.0.bal(a, D) }
    pub fn owner(&self, t: &str) -> String { self.0.toks[&(N.to_string(), t.to_string())].owner.clone() }
    pub fn tok(&mut self, t: &str) -> &mut Tok { self.0.toks.get_mut(&(N.to_string(), t.to_string())).unwrap() }
}
