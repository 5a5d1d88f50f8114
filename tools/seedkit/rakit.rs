//! helpers for scenarios of the reserve auction
use crate::chain::*;
pub use cosmwasm_std::*;
pub use sg_marketplace_common_ra::query::QueryOptions;
pub use stargaze_reserve_auction as m;
pub use m::msg::{AuctionKeyOffset, ExecuteMsg as Ex, InstantiateMsg, QueryMsg as Qm, SudoMsg as Su};
pub use serde_json::Value;
pub const D: &str = "ustars";
pub const S: u64 = 1_000_000_000;
pub const T0: u64 = 1_000 * S;
pub const N: &str = "nftalpha";
pub fn c(a: u128) -> Coin { coin(a, D) }
pub struct T(pub Chain);
pub fn init() -> InstantiateMsg { InstantiateMsg { fair_burn: "fairburner".into(), trading_fee_percent: Decimal::percent(2), min_bid_increment_percent: Decimal::percent(10), min_duration: 10, max_duration: 1000, extend_duration: 20, create_auction_fee: c(5), max_auctions_to_settle_per_block: 10, halt_duration_threshold: 100, halt_buffer_duration: 30, halt_postpone_duration: 50, min_reserve_prices: vec![c(10), coin(10, "uatom")] } }
pub fn setup() -> T { setup_with(init()) }
/// users with funds; collection nftalpha, tokens 1..5 owned by alice0 and approved
pub fn setup_with(i: InstantiateMsg) -> T {
    let mut ch = Chain { me: "auctionhouse".into(), height: 10, time: T0, registry: "registry".into(), ..Default::default() };
    for u in ["alice0", "bobby0", "carol0", "dave00"] { for d in [D, "uatom"] { ch.bank.insert((u.into(), d.into()), 1_000_000_000); } }
    ch.colls.insert(N.into(), Coll { creator: "creator".into(), royalty: Some(("royal0".into(), Decimal::percent(5))), ..Default::default() });
    for t in ["1", "2", "3", "4", "5"] { let mut k = Tok { owner: "alice0".into(), approved: Default::default() }; k.approved.insert("auctionhouse".into(), None); ch.toks.insert((N.into(), t.into()), k); }
    let mut t = T(ch);
    t.0.call("admin0", &[], |d, e, x| m::instantiate::instantiate(d, e, x, i).map_err(|e| e.to_string()), |_, _, _| Ok(sg_std::Response::new())).unwrap();
    t.begin();
    t
}
impl T {
    pub fn ex(&mut self, who: &str, funds: &[Coin], msg: Ex) -> Result<sg_std::Response, TxErr> { self.0.call(who, funds, |d, e, i| m::execute::execute(d, e, i, msg).map_err(|e| e.to_string()), |_, _, _| Ok(sg_std::Response::new())) }
    pub fn ok(&mut self, who: &str, funds: &[Coin], msg: Ex) -> sg_std::Response { self.ex(who, funds, msg).expect("message refused") }
    pub fn su(&mut self, msg: Su) -> Result<sg_std::Response, TxErr> { self.0.call("chain0", &[], |d, e, _| m::sudo::sudo(d, e, msg).map_err(|e| e.to_string()), |_, _, _| Ok(sg_std::Response::new())) }
    pub fn begin(&mut self) { self.su(Su::BeginBlock {}).expect("begin block"); }
    pub fn end(&mut self) { self.su(Su::EndBlock {}).expect("end block"); }
    /// ends the block and begins one at the given time (nanoseconds after the start)
    pub fn at(&mut self, n: u64) { self.end(); self.0.time = T0 + n; self.0.height += 1; self.begin(); }
    pub fn create(&mut self, t: &str, dur: u64) { self.ok("alice0", &[c(5)], Ex::CreateAuction { collection: N.into(), token_id: t.into(), reserve_price: c(100), duration: dur, seller_funds_recipient: Some("payee0".into()) }); }
    pub fn bid(&mut self, who: &str, t: &str, a: u128) -> Result<sg_std::Response, TxErr> { self.ex(who, &[c(a)], Ex::PlaceBid { collection: N.into(), token_id: t.into() }) }
    pub fn settle(&mut self, t: &str) -> Result<sg_std::Response, TxErr> { self.ex("dave00", &[], Ex::SettleAuction { collection: N.into(), token_id: t.into() }) }
    pub fn q(&self, msg: Qm) -> Value { let api = testing::MockApi::default(); from_json(m::query::query(Deps { storage: &self.0.store, api: &api, querier: QuerierWrapper::new(&Q(&self.0)) }, self.0.env(), msg).unwrap()).unwrap() }
    pub fn auction(&self, t: &str) -> Value { self.q(Qm::Auction { collection: N.into(), token_id: t.into() }) }
    pub fn end_of(&self, t: &str) -> u64 { self.auction(t)["end_time"].as_str().unwrap().parse::<u64>().unwrap() - T0 }
    pub fn bal(&self, a: &str) -> u128 { self.0.bal(a, D) }
    pub fn owner(&self, t: &str) -> String { self.0.toks[&(N.to_string(), t.to_string())].owner.clone() }
}
