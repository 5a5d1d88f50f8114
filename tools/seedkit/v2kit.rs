//! helpers for scenarios of the order book
use crate::chain::*;
pub use cosmwasm_std::*;
pub use sg_index_query::{QueryBound, QueryOptions};
pub use stargaze_marketplace_v2 as m;
pub use m::msg::{ExecuteMsg as Ex, InstantiateMsg, PriceOffset, QueryMsg as Qm};
pub use m::orders::{Ask, Bid, CollectionBid, OrderDetails};
pub use m::state::*;
pub const D: &str = "ustars";
pub fn c(a: u128) -> Coin { coin(a, D) }
pub fn det(p: u128) -> OrderDetails<String> { OrderDetails { price: c(p), recipient: None, finder: None } }
pub fn detx(p: u128, r: Option<&str>, f: Option<&str>) -> OrderDetails<String> { OrderDetails { price: c(p), recipient: r.map(|x| x.into()), finder: f.map(|x| x.into()) } }
pub struct T(pub Chain);
pub fn config() -> Config<String> { Config { fee_manager: "feeman".into(), royalty_registry: "registry".into(), protocol_fee_bps: 200, max_royalty_fee_bps: 500, maker_reward_bps: 4000, taker_reward_bps: 1000, default_denom: D.into() } }
/// users alice0 bobby0 carol0 with funds; collection nftalpha, tokens 1..5 owned by alice0; listing fee 50
pub fn setup() -> T {
    let mut c = Chain { me: "market".into(), admin: Some("admin0".into()), height: 10, time: 1_000_000_000_000, registry: "registry".into(), ..Default::default() };
    for u in ["alice0", "bobby0", "carol0", "dave00", "admin0"] { for d in [D, "uatom"] { c.bank.insert((u.into(), d.into()), 1_000_000_000); } c.operators.insert((u.into(), "market".into())); }
    for n in ["nftalpha", "nftbravo"] {
        c.colls.insert(n.into(), Coll { creator: "creator".into(), ..Default::default() });
        for t in ["1", "2", "3", "4", "5"] { c.toks.insert((n.into(), t.into()), Tok { owner: "alice0".into(), approved: Default::default() }); }
    }
    let mut t = T(c);
    t.0.call("admin0", &[], |d, e, i| m::instantiate::instantiate(d, e, i, InstantiateMsg { config: config() }), |_, _, _| Ok(Response::new())).unwrap();
    t.ok("admin0", &[], Ex::SetListingFee { fee: coin(50, D) });
    t
}
impl T {
    pub fn ex(&mut self, who: &str, funds: &[Coin], msg: Ex) -> Result<Response, TxErr> { self.0.call(who, funds, |d, e, i| m::execute::execute(d, e, i, msg), |_, _, _| Ok(Response::new())) }
    pub fn ok(&mut self, who: &str, funds: &[Coin], msg: Ex) -> Response { self.ex(who, funds, msg).expect("message refused") }
    pub fn ask(&mut self, who: &str, t: &str, d: OrderDetails<String>) -> Response { self.ok(who, &[c(50)], Ex::SetAsk { collection: "nftalpha".into(), token_id: t.into(), details: d }) }
    pub fn bid(&mut self, who: &str, t: &str, d: OrderDetails<String>) -> Response { let f = d.price.clone(); self.ok(who, &[f], Ex::SetBid { collection: "nftalpha".into(), token_id: t.into(), details: d }) }
    pub fn cbid(&mut self, who: &str, d: OrderDetails<String>) -> Response { let f = d.price.clone(); self.ok(who, &[f], Ex::SetCollectionBid { collection: "nftalpha".into(), details: d }) }
    pub fn asks(&self) -> Vec<Ask> { asks().range(&self.0.store, None, None, Order::Ascending).map(|r| r.unwrap().1).collect() }
    pub fn bids(&self) -> Vec<Bid> { bids().range(&self.0.store, None, None, Order::Ascending).map(|r| r.unwrap().1).collect() }
    pub fn cbids(&self) -> Vec<CollectionBid> { collection_bids().range(&self.0.store, None, None, Order::Ascending).map(|r| r.unwrap().1).collect() }
    pub fn bal(&self, a: &str) -> u128 { self.0.bal(a, D) }
    pub fn owner(&self, t: &str) -> String { self.0.toks[&("nftalpha".to_string(), t.to_string())].owner.clone() }
    pub fn esc(&self) -> u128 { self.bids().iter().map(|b| b.details.price.amount.u128()).sum::<u128>() + self.cbids().iter().map(|b| b.details.price.amount.u128()).sum::<u128>() }
    pub fn q<R: serde::de::DeserializeOwned>(&self, msg: Qm) -> R { let api = testing::MockApi::default(); from_json(m::query::query(Deps { storage: &self.0.store, api: &api, querier: QuerierWrapper::new(&Q(&self.0)) }, self.0.env(), msg).unwrap()).unwrap() }
}
