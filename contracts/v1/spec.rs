// Specification of the classic marketplace.
use crate::v1::state::*;
use crate::v1::msg::*;
use crate::v1::helpers::*;
use crate::v1::execute::AskInfo;
use crate::v1::execute::BidInfo;
use crate::v1::sudo::ParamInfo;

// the version record this contract may be upgraded from, and the one it leaves
pub open spec fn own_name() -> Str { "crates.io:sg-marketplace"@ }
pub broadcast axiom fn axiom_own_version() ensures #[trigger] version_of(pkg_version_v1()) is Some;
pub open spec fn upgradable(v: Option<(Str, Str)>) -> bool { v is Some && (v->0).0 == own_name() && version_of((v->0).1) is Some && !version_lt(version_of(pkg_version_v1())->0, version_of((v->0).1)->0) }
pub open spec fn upgraded(v: Option<(Str, Str)>) -> bool { v is Some && (v->0).0 == own_name() && version_of((v->0).1) == version_of(pkg_version_v1()) }
// ------------------------------------------------------------------ one accepted message
pub struct Tx { pub s: Storage, pub s2: Storage, pub ms: Seq<SubMsg>, pub w: QuerierWrapper, pub me: Str, pub now: int, pub who: Addr, pub funds: Seq<Coin> }
pub open spec fn tx(s: Storage, s2: Storage, r: Response, w: QuerierWrapper, env: Env, info: MessageInfo) -> Tx {
    Tx { s, s2, ms: r.messages@, w, me: env.contract.address.g@, now: env.block.time.n as int, who: info.sender, funds: info.funds@ }
}
pub open spec fn txn(s: Storage, s2: Storage, r: Response, w: QuerierWrapper, info: MessageInfo) -> Tx {
    Tx { s, s2, ms: r.messages@, w, me: Seq::empty(), now: 0, who: info.sender, funds: info.funds@ }
}
pub open spec fn nat() -> Str { NATIVE_DENOM@ }
pub open spec fn to_addr(s: String) -> Addr { Addr { g: s.g } }
pub open spec fn opt_to_addr(s: Option<String>) -> Option<Addr> { match s { Some(x) => Some(to_addr(x)), None => None } }
pub open spec fn at(to: Str, who: Str, amt: int) -> int { if to == who { amt } else { 0 } }
pub open spec fn in_nat(d: Str, amt: int) -> int { if d == nat() { amt } else { 0 } }

// ------------------------------------------------------------------ state
impl Priced for Bid { open spec fn owed(self, d: Str) -> int { in_nat(d, self.price.v as int) } }
impl Priced for CollectionBid { open spec fn owed(self, d: Str) -> int { in_nat(d, self.price.v as int) } }
// what the contract owes to the bidders of the stored bids
pub open spec fn esc(s: Storage, d: Str) -> int { psum(s.v1_bids@, d) + psum(s.v1_collection_bids@, d) }
pub open spec fn pp(s: Storage) -> SudoParams { s.v1_SUDO_PARAMS@->0 }
pub open spec fn hundred() -> int { 100_000_000_000_000_000_000 }
pub open spec fn pct(bps: u64) -> int { bps as int * 10_000_000_000_000_000 }
pub open spec fn range_ok(r: ExpiryRange) -> bool { r.min <= r.max }
pub open spec fn par_ok(p: SudoParams) -> bool {
    &&& p.trading_fee_percent.a <= hundred() && p.max_finders_fee_percent.a <= hundred() && p.bid_removal_reward_percent.a <= hundred()
    &&& range_ok(p.ask_expiry) && range_ok(p.bid_expiry)
    &&& p.stale_bid_duration is Time
    &&& p.operators@.no_duplicates()
}
pub open spec fn inv_par(s: Storage) -> bool { s.v1_SUDO_PARAMS@ is Some && par_ok(pp(s)) }
pub open spec fn inv_key(s: Storage) -> bool {
    &&& forall|k: AskKey| #[trigger] s.v1_asks@.dom().contains(k) ==> k == (s.v1_asks@[k].collection, s.v1_asks@[k].token_id)
    &&& forall|k: BidKey| #[trigger] s.v1_bids@.dom().contains(k) ==> k == (s.v1_bids@[k].collection, s.v1_bids@[k].token_id, s.v1_bids@[k].bidder)
    &&& forall|k: CollectionBidKey| #[trigger] s.v1_collection_bids@.dom().contains(k) ==> k == (s.v1_collection_bids@[k].collection, s.v1_collection_bids@[k].bidder)
}
pub open spec fn inv_price(s: Storage) -> bool {
    &&& forall|k: BidKey| #[trigger] s.v1_bids@.dom().contains(k) ==> s.v1_bids@[k].price.v > 0
    &&& forall|k: CollectionBidKey| #[trigger] s.v1_collection_bids@.dom().contains(k) ==> s.v1_collection_bids@[k].price.v > 0
}
pub open spec fn max_ask() -> int { 100_000_000_000_000 }
pub open spec fn bps_in(f: Option<u64>) -> bool { match f { Some(x) => x <= 10_000, None => true } }
pub open spec fn ask_fine(a: Ask) -> bool {
    0 < a.price.v <= max_ask() && bps_in(a.finders_fee_bps) && (match a.reserve_for { Some(x) => a.sale_type is FixedPrice && x != a.seller, None => true })
}
pub open spec fn inv_ask(s: Storage) -> bool {
    &&& forall|k: AskKey| #[trigger] s.v1_asks@.dom().contains(k) ==> ask_fine(s.v1_asks@[k])
    &&& forall|k: BidKey| #[trigger] s.v1_bids@.dom().contains(k) ==> bps_in(s.v1_bids@[k].finders_fee_bps)
    &&& forall|k: CollectionBidKey| #[trigger] s.v1_collection_bids@.dom().contains(k) ==> bps_in(s.v1_collection_bids@[k].finders_fee_bps)
}
pub open spec fn inv_hooks(s: Storage) -> bool { s.v1_ASK_HOOKS@.no_duplicates() && s.v1_BID_HOOKS@.no_duplicates() && s.v1_SALE_HOOKS@.no_duplicates() && s.v1_COLLECTION_BID_HOOKS@.no_duplicates() }
pub open spec fn inv(s: Storage) -> bool { inv_par(s) && inv_key(s) && inv_price(s) && inv_ask(s) && inv_hooks(s) }
pub open spec fn w_asks(s: Storage, m: Map<AskKey, Ask>) -> Storage { Storage { v1_asks: Ghost(m), ..s } }
pub open spec fn w_bids(s: Storage, m: Map<BidKey, Bid>) -> Storage { Storage { v1_bids: Ghost(m), ..s } }
pub open spec fn w_cbids(s: Storage, m: Map<CollectionBidKey, CollectionBid>) -> Storage { Storage { v1_collection_bids: Ghost(m), ..s } }
pub open spec fn w_par(s: Storage, p: SudoParams) -> Storage { Storage { v1_SUDO_PARAMS: Ghost(Some(p)), ..s } }

// ------------------------------------------------------------------ the world outside
pub open spec fn owner_of_sp(w: QuerierWrapper, c: Addr, t: u32) -> Option<Str> {
    match smart_answer::<OwnerOfResponse>(w, c.g@, Query::OwnerOf { token: num_str(t as int), expired: false }) { Some(o) => Some(o.owner.g@), None => None }
}
pub open spec fn owner_is(w: QuerierWrapper, c: Addr, t: u32, who: Addr) -> bool { owner_of_sp(w, c, t) == Some(who.g@) }
pub open spec fn approved(w: QuerierWrapper, c: Addr, t: u32, me: Str) -> bool {
    smart_answer::<ApprovalResponse>(w, c.g@, Query::Approval { token: num_str(t as int), spender: me, expired: false }) is Some
}
pub open spec fn tradable(w: QuerierWrapper, c: Addr, now: int) -> bool {
    match smart_answer::<CollectionInfoResponse>(w, c.g@, Query::CollectionInfo) { Some(i) => match i.start_trading_time { Some(t) => t.n <= now, None => true }, None => true }
}
pub open spec fn info_known(w: QuerierWrapper, c: Addr) -> bool { smart_answer::<CollectionInfoResponse>(w, c.g@, Query::CollectionInfo) is Some }
// the collection's royalty: recipient and (non-zero) share
pub open spec fn roy_sp(w: QuerierWrapper, c: Addr) -> Option<(Str, int)> {
    match smart_answer::<CollectionInfoResponse>(w, c.g@, Query::CollectionInfo) { Some(i) => match i.royalty_info { Some(x) => if x.share.a > 0 { Some((x.payment_address.g@, x.share.a as int)) } else { None }, None => None }, None => None }
}

// ------------------------------------------------------------------ a sale
pub open spec fn net_fee(p: SudoParams, a: int) -> int { mul_floor(a, p.trading_fee_percent.a as int) / 100 }
pub open spec fn fin_fee(a: int, finder: Option<Addr>, bps: Option<u64>) -> int { if finder is Some && bps is Some { mul_floor(a, pct(bps->0)) / 100 } else { 0 } }
pub open spec fn roy_fee(a: int, r: Option<(Str, int)>) -> int { match r { Some(x) => mul_floor(a, x.1), None => 0 } }
pub open spec fn fits(p: SudoParams, a: int, finder: Option<Addr>, bps: Option<u64>, r: Option<(Str, int)>) -> bool { net_fee(p, a) + fin_fee(a, finder, bps) + roy_fee(a, r) <= a }
// finder, royalty, each rounded down; what the fair-burn pool and these leave goes to the seller
pub open spec fn split_to(p: SudoParams, a: int, seller: Str, finder: Option<Addr>, bps: Option<u64>, r: Option<(Str, int)>, to: Str, d: Str) -> int {
    if d != nat() { 0 } else {
        (match finder { Some(f) => at(to, f.g@, fin_fee(a, finder, bps)), None => 0 }) + (match r { Some(x) => at(to, x.0, roy_fee(a, r)), None => 0 })
            + at(to, seller, a - net_fee(p, a) - fin_fee(a, finder, bps) - roy_fee(a, r))
    }
}
pub broadcast proof fn fee_facts(v: int, a: int)
    requires v >= 0, a >= 0
    ensures #[trigger] mul_floor(v, a) >= 0, a <= hundred() ==> mul_floor(v, a) / 100 <= v, a <= ONE_DEC ==> mul_floor(v, a) <= v, a == ONE_DEC / 2 && v > 0 ==> mul_floor(v, a) < v
{
    assert(v * a >= 0) by (nonlinear_arith) requires v >= 0, a >= 0;
    if a <= hundred() { assert(v * a <= v * hundred()) by (nonlinear_arith) requires v >= 0, a <= hundred(); }
    if a <= ONE_DEC { assert(v * a <= v * ONE_DEC) by (nonlinear_arith) requires v >= 0, a <= ONE_DEC; }
    if a == ONE_DEC / 2 && v > 0 { assert(v * a * 2 == v * ONE_DEC) by (nonlinear_arith) requires a == ONE_DEC / 2; }
}
// messages were added that pay nobody and move nothing
pub open spec fn adds_none(a: Seq<SubMsg>, b: Seq<SubMsg>) -> bool {
    nfts(b) == nfts(a) && hook_log(b) == hook_log(a) && safe(b) == safe(a)
}

// ------------------------------------------------------------------ what hooks are told
pub open spec fn act(a: HookAction) -> int { match a { HookAction::Create => 0, HookAction::Update => 1, HookAction::Delete => 2 } }
pub uninterp spec fn json_ask(act: int, a: Ask) -> int;
pub uninterp spec fn json_bid(act: int, a: Bid) -> int;
pub uninterp spec fn json_cbid(act: int, a: CollectionBid) -> int;
pub uninterp spec fn json_sale(m: SaleHookMsg) -> int;
impl ToPayload for AskHookExecuteMsg { open spec fn payload(&self) -> Payload { match *self { AskHookExecuteMsg::AskCreatedHook(m) => p_ask(0, m.ask), AskHookExecuteMsg::AskUpdatedHook(m) => p_ask(1, m.ask), AskHookExecuteMsg::AskDeletedHook(m) => p_ask(2, m.ask) } } }
impl ToPayload for BidExecuteMsg { open spec fn payload(&self) -> Payload { match *self { BidExecuteMsg::BidCreatedHook(m) => p_bid(0, m.bid), BidExecuteMsg::BidUpdatedHook(m) => p_bid(1, m.bid), BidExecuteMsg::BidDeletedHook(m) => p_bid(2, m.bid) } } }
impl ToPayload for CollectionBidExecuteMsg { open spec fn payload(&self) -> Payload { match *self { CollectionBidExecuteMsg::CollectionBidCreatedHook(m) => p_cbid(0, m.collection_bid), CollectionBidExecuteMsg::CollectionBidUpdatedHook(m) => p_cbid(1, m.collection_bid), CollectionBidExecuteMsg::CollectionBidDeletedHook(m) => p_cbid(2, m.collection_bid) } } }
impl ToPayload for SaleExecuteMsg { open spec fn payload(&self) -> Payload { match *self { SaleExecuteMsg::SaleHook(m) => Payload::Other(json_sale(m)) } } }
pub open spec fn p_ask(a: int, x: Ask) -> Payload { Payload::Other(json_ask(a, x)) }
pub open spec fn p_bid(a: int, x: Bid) -> Payload { Payload::Other(json_bid(a, x)) }
pub open spec fn p_cbid(a: int, x: CollectionBid) -> Payload { Payload::Other(json_cbid(a, x)) }
pub open spec fn p_sale(c: Addr, t: u32, price: int, seller: Addr, buyer: Addr) -> Payload {
    Payload::Other(json_sale(SaleHookMsg { collection: String { g: c.g }, token_id: t, price: Coin { denom: String { g: Ghost(nat()) }, amount: Uint128 { v: price as u128 } }, seller: String { g: seller.g }, buyer: String { g: buyer.g } }))
}
pub open spec fn ask_log(s: Storage, a: int, x: Ask) -> Seq<HookCall> { calls(s.v1_ASK_HOOKS@, 1, p_ask(a, x)) }
pub open spec fn bid_log(s: Storage, a: int, x: Bid) -> Seq<HookCall> { calls(s.v1_BID_HOOKS@, 3, p_bid(a, x)) }
pub open spec fn cbid_log(s: Storage, a: int, x: CollectionBid) -> Seq<HookCall> { calls(s.v1_COLLECTION_BID_HOOKS@, 4, p_cbid(a, x)) }
// the sale hooks were each told of this sale, once
pub open spec fn sale_log(s: Storage, c: Addr, t: u32, price: int, seller: Addr, buyer: Addr) -> Seq<HookCall> { calls(s.v1_SALE_HOOKS@, 2, p_sale(c, t, price, seller, buyer)) }

// ------------------------------------------------------------------ guarantees of every message
pub open spec fn kept(s: Storage, s2: Storage, ms: Seq<SubMsg>, funds: Seq<Coin>) -> bool { forall|d: Str| esc(s2, d) + #[trigger] paid_all(ms, d) == esc(s, d) + coins_amt(funds, d) }
pub open spec fn g_funds(t: Tx) -> bool { kept(t.s, t.s2, t.ms, t.funds) }
pub open spec fn pays_none(t: Tx) -> bool { forall|to: Str, d: Str| #[trigger] paid(t.ms, to, d) == 0 }
pub open spec fn burns(t: Tx, amt: int) -> bool { forall|d: Str| #[trigger] burnt(t.ms, d) == in_nat(d, amt) }
pub open spec fn pays_one(t: Tx, who: Addr, amt: int) -> bool { forall|to: Str, d: Str| #[trigger] paid(t.ms, to, d) == in_nat(d, at(to, who.g@, amt)) }
pub open spec fn moves_none(t: Tx) -> bool { nfts(t.ms) == Seq::<NftMove>::empty() }
pub open spec fn move_of(c: Addr, t: u32, to: Addr) -> Seq<NftMove> { seq![NftMove { collection: c.g@, token: num_str(t as int), to: to.g@ }] }
pub open spec fn g_par(t: Tx) -> bool { t.s2.v1_SUDO_PARAMS == t.s.v1_SUDO_PARAMS && t.s2.v1_ASK_HOOKS == t.s.v1_ASK_HOOKS && t.s2.v1_BID_HOOKS == t.s.v1_BID_HOOKS && t.s2.v1_SALE_HOOKS == t.s.v1_SALE_HOOKS && t.s2.v1_COLLECTION_BID_HOOKS == t.s.v1_COLLECTION_BID_HOOKS }

// ------------------------------------------------------------------ limits
pub open spec fn within(r: ExpiryRange, now: int, e: Timestamp) -> bool { now + r.min as int * 1_000_000_000 < e.n <= now + r.max as int * 1_000_000_000 }
pub open spec fn price_ok(s: Storage, p: Coin) -> bool { p.denom.g@ == nat() && p.amount.v > 0 && p.amount.v >= pp(s).min_price.v }
pub open spec fn fee_ok(s: Storage, f: Option<u64>) -> bool { match f { Some(x) => pct(x) <= pp(s).max_finders_fee_percent.a, None => true } }
// one native coin, of at least the minimum
pub open spec fn bid_paid(t: Tx) -> int { t.funds[0].amount.v as int }
pub open spec fn paid_bid(t: Tx) -> bool { t.funds.len() == 1 && t.funds[0].denom.g@ == nat() && t.funds[0].amount.v > 0 && t.funds[0].amount.v >= pp(t.s).min_price.v }
pub open spec fn expired(e: Timestamp, now: int) -> bool { e.n <= now }

// ------------------------------------------------------------------ listings
pub open spec fn an_ask(t: Tx, k: AskKey) -> bool { t.s.v1_asks@.dom().contains(k) }
pub open spec fn old_ask(t: Tx, k: AskKey) -> Ask { t.s.v1_asks@[k] }
pub open spec fn key_of(i: AskInfo) -> AskKey { (i.collection, i.token_id) }
pub open spec fn new_ask(i: AskInfo, seller: Addr) -> Ask {
    Ask { sale_type: i.sale_type, collection: i.collection, token_id: i.token_id, seller, price: i.price.amount, funds_recipient: i.funds_recipient, reserve_for: i.reserve_for, finders_fee_bps: i.finders_fee_bps, expires_at: i.expires, is_active: true }
}
pub open spec fn set_ask_auth(t: Tx, i: AskInfo) -> bool { owner_is(t.w, i.collection, i.token_id, t.who) }
pub open spec fn set_ask_gate(t: Tx, i: AskInfo) -> bool {
    &&& price_ok(t.s, i.price) && i.price.amount.v <= max_ask()
    &&& within(pp(t.s).ask_expiry, t.now, i.expires)
    &&& fee_ok(t.s, i.finders_fee_bps)
    &&& approved(t.w, i.collection, i.token_id, t.me)
    &&& tradable(t.w, i.collection, t.now)
    &&& i.reserve_for is Some ==> i.sale_type is FixedPrice && i.reserve_for != Some(t.who)
}
pub open spec fn set_ask_fee(t: Tx) -> bool { coins_amt(t.funds, nat()) == pp(t.s).listing_fee.v && (t.funds.len() == 0 || (t.funds.len() == 1 && t.funds[0].denom.g@ == nat())) && pays_none(t) && burns(t, pp(t.s).listing_fee.v as int) }
pub open spec fn set_ask_state(t: Tx, i: AskInfo) -> bool { t.s2 == w_asks(t.s, t.s.v1_asks@.insert(key_of(i), new_ask(i, t.who))) }
pub open spec fn set_ask_hook(t: Tx, i: AskInfo) -> bool { hook_log(t.ms) == ask_log(t.s, 0, new_ask(i, t.who)) }
pub open spec fn own_k(t: Tx, k: AskKey) -> bool { owner_is(t.w, k.0, k.1, t.who) }
pub open spec fn remove_ask_state(t: Tx, k: AskKey) -> bool { t.funds.len() == 0 && an_ask(t, k) && t.s2 == w_asks(t.s, t.s.v1_asks@.remove(k)) }
pub open spec fn remove_ask_hook(t: Tx, k: AskKey) -> bool { hook_log(t.ms) == ask_log(t.s, 2, old_ask(t, k)) }
pub open spec fn no_pay(t: Tx) -> bool { pays_none(t) && burns(t, 0) }
pub open spec fn repriced(t: Tx, k: AskKey, p: Coin) -> Ask { Ask { price: p.amount, ..old_ask(t, k) } }
pub open spec fn reprice_gate(t: Tx, k: AskKey, p: Coin) -> bool { price_ok(t.s, p) && p.amount.v <= max_ask() && old_ask(t, k).is_active && !expired(old_ask(t, k).expires_at, t.now) }
pub open spec fn reprice_state(t: Tx, k: AskKey, p: Coin) -> bool { t.funds.len() == 0 && an_ask(t, k) && t.s2 == w_asks(t.s, t.s.v1_asks@.insert(k, repriced(t, k, p))) }
pub open spec fn reprice_hook(t: Tx, k: AskKey, p: Coin) -> bool { hook_log(t.ms) == ask_log(t.s, 1, repriced(t, k, p)) }

// ------------------------------------------------------------------ bids and purchases
pub open spec fn bkey(t: Tx, i: BidInfo) -> BidKey { (i.collection, i.token_id, t.who) }
pub open spec fn akey(i: BidInfo) -> AskKey { (i.collection, i.token_id) }
pub open spec fn new_bid(t: Tx, i: BidInfo) -> Bid { Bid { collection: i.collection, token_id: i.token_id, bidder: t.who, price: t.funds[0].amount, finders_fee_bps: i.finders_fee_bps, expires_at: i.expires } }
pub open spec fn set_bid_gate(t: Tx, i: BidInfo) -> bool { paid_bid(t) && within(pp(t.s).bid_expiry, t.now, i.expires) && fee_ok(t.s, i.finders_fee_bps) && i.finder != Some(t.who) }
pub open spec fn is_sale(t: Tx, i: BidInfo) -> bool { an_ask(t, akey(i)) && old_ask(t, akey(i)).sale_type is FixedPrice && old_ask(t, akey(i)).price.v == bid_paid(t) }
// the listing, if there is one, can be bid on by the sender at this price
pub open spec fn set_bid_listing(t: Tx, i: BidInfo, buy_now: bool) -> bool {
    let a = old_ask(t, akey(i));
    if an_ask(t, akey(i)) {
        &&& a.is_active && !expired(a.expires_at, t.now) && (a.reserve_for is Some ==> a.reserve_for == Some(t.who))
        &&& a.sale_type is FixedPrice ==> bid_paid(t) <= a.price.v
        &&& a.sale_type is Auction ==> bid_paid(t) >= a.price.v
        &&& is_sale(t, i) ==> owner_is(t.w, i.collection, i.token_id, a.seller)
    } else { !buy_now }
}
pub open spec fn set_bid_state(t: Tx, i: BidInfo) -> bool {
    t.s2 == (if is_sale(t, i) { w_bids(w_asks(t.s, t.s.v1_asks@.remove(akey(i))), t.s.v1_bids@.remove(bkey(t, i))) } else { w_bids(t.s, t.s.v1_bids@.insert(bkey(t, i), new_bid(t, i))) })
}
pub open spec fn set_bid_nft(t: Tx, i: BidInfo, to: Option<Addr>) -> bool { nfts(t.ms) == (if is_sale(t, i) { move_of(i.collection, i.token_id, match to { Some(x) => x, None => t.who }) } else { Seq::empty() }) }
// the bidder's earlier bid on the token comes back in full
pub open spec fn refund_of(t: Tx, i: BidInfo, to: Str, d: Str) -> int { if t.s.v1_bids@.dom().contains(bkey(t, i)) { in_nat(d, at(to, t.who.g@, t.s.v1_bids@[bkey(t, i)].price.v as int)) } else { 0 } }
pub open spec fn paid_ask(a: Ask) -> Str { match a.funds_recipient { Some(x) => x.g@, None => a.seller.g@ } }
pub open spec fn set_bid_refund(t: Tx, i: BidInfo) -> bool { !is_sale(t, i) ==> burns(t, 0) && forall|to: Str, d: Str| #[trigger] paid(t.ms, to, d) == refund_of(t, i, to, d) }
pub open spec fn buy_pay(t: Tx, i: BidInfo) -> bool {
    is_sale(t, i) ==> {
        let a = old_ask(t, akey(i)); let r = roy_sp(t.w, i.collection);
        &&& info_known(t.w, i.collection) && fits(pp(t.s), bid_paid(t), i.finder, a.finders_fee_bps, r)
        &&& burns(t, net_fee(pp(t.s), bid_paid(t)))
        &&& forall|to: Str, d: Str| #[trigger] paid(t.ms, to, d) == refund_of(t, i, to, d) + split_to(pp(t.s), bid_paid(t), paid_ask(a), i.finder, a.finders_fee_bps, r, to, d)
    }
}
pub open spec fn set_bid_hook(t: Tx, i: BidInfo) -> bool {
    if is_sale(t, i) { hook_log(t.ms) == sale_log(t.s, i.collection, i.token_id, bid_paid(t), old_ask(t, akey(i)).seller, t.who) } else { hook_log(t.ms) == bid_log(t.s, 0, new_bid(t, i)) }
}
pub open spec fn a_bid(t: Tx, k: BidKey) -> bool { t.s.v1_bids@.dom().contains(k) }
pub open spec fn old_bid(t: Tx, k: BidKey) -> Bid { t.s.v1_bids@[k] }
pub open spec fn drop_bid_state(t: Tx, k: BidKey) -> bool { t.funds.len() == 0 && a_bid(t, k) && t.s2 == w_bids(t.s, t.s.v1_bids@.remove(k)) }
pub open spec fn drop_bid_refund(t: Tx, k: BidKey) -> bool { pays_one(t, k.2, old_bid(t, k).price.v as int) && burns(t, 0) }
pub open spec fn drop_bid_hook(t: Tx, k: BidKey) -> bool { hook_log(t.ms) == bid_log(t.s, 2, old_bid(t, k)) }
// ---- accepting a bid
pub open spec fn accept_auth(t: Tx, c: Addr, tok: u32) -> bool { owner_is(t.w, c, tok, t.who) && t.funds.len() == 0 }
pub open spec fn accept_state(t: Tx, k: BidKey) -> bool { a_bid(t, k) && t.s2 == w_bids(w_asks(t.s, t.s.v1_asks@.remove((k.0, k.1))), t.s.v1_bids@.remove(k)) }
pub open spec fn accept_gate(t: Tx, c: Addr, e: Timestamp) -> bool { tradable(t.w, c, t.now) && !expired(e, t.now) }
pub open spec fn accept_pay(t: Tx, c: Addr, price: int, finder: Option<Addr>, bps: Option<u64>) -> bool {
    let r = roy_sp(t.w, c);
    &&& info_known(t.w, c) && fits(pp(t.s), price, finder, bps, r)
    &&& burns(t, net_fee(pp(t.s), price))
    &&& forall|to: Str, d: Str| #[trigger] paid(t.ms, to, d) == split_to(pp(t.s), price, t.who.g@, finder, bps, r, to, d)
}
pub open spec fn accept_nft(t: Tx, c: Addr, tok: u32, bidder: Addr) -> bool { nfts(t.ms) == move_of(c, tok, bidder) }
pub open spec fn accept_hook(t: Tx, c: Addr, tok: u32, price: int, bidder: Addr) -> bool { hook_log(t.ms) == sale_log(t.s, c, tok, price, t.who, bidder) }
// ---- collection bids
pub open spec fn a_cbid(t: Tx, k: CollectionBidKey) -> bool { t.s.v1_collection_bids@.dom().contains(k) }
pub open spec fn old_cbid(t: Tx, k: CollectionBidKey) -> CollectionBid { t.s.v1_collection_bids@[k] }
pub open spec fn new_cbid(t: Tx, c: Addr, f: Option<u64>, e: Timestamp) -> CollectionBid { CollectionBid { collection: c, bidder: t.who, price: t.funds[0].amount, finders_fee_bps: f, expires_at: e } }
pub open spec fn set_cbid_gate(t: Tx, f: Option<u64>, e: Timestamp) -> bool { paid_bid(t) && within(pp(t.s).bid_expiry, t.now, e) && fee_ok(t.s, f) }
pub open spec fn set_cbid_state(t: Tx, c: Addr, f: Option<u64>, e: Timestamp) -> bool { t.s2 == w_cbids(t.s, t.s.v1_collection_bids@.insert((c, t.who), new_cbid(t, c, f, e))) }
pub open spec fn set_cbid_refund(t: Tx, c: Addr) -> bool { burns(t, 0) && forall|to: Str, d: Str| #[trigger] paid(t.ms, to, d) == (if a_cbid(t, (c, t.who)) { in_nat(d, at(to, t.who.g@, old_cbid(t, (c, t.who)).price.v as int)) } else { 0 }) }
pub open spec fn set_cbid_hook(t: Tx, c: Addr, f: Option<u64>, e: Timestamp) -> bool { hook_log(t.ms) == cbid_log(t.s, 0, new_cbid(t, c, f, e)) }
pub open spec fn drop_cbid_state(t: Tx, k: CollectionBidKey) -> bool { t.funds.len() == 0 && a_cbid(t, k) && t.s2 == w_cbids(t.s, t.s.v1_collection_bids@.remove(k)) }
pub open spec fn drop_cbid_refund(t: Tx, k: CollectionBidKey) -> bool { pays_one(t, k.1, old_cbid(t, k).price.v as int) && burns(t, 0) }
pub open spec fn drop_cbid_hook(t: Tx, k: CollectionBidKey) -> bool { hook_log(t.ms) == cbid_log(t.s, 2, old_cbid(t, k)) }
pub open spec fn accept_c_state(t: Tx, k: CollectionBidKey, tok: u32) -> bool { a_cbid(t, k) && t.s2 == w_cbids(w_asks(t.s, t.s.v1_asks@.remove((k.0, tok))), t.s.v1_collection_bids@.remove(k)) }
// ---- operators
pub open spec fn operator(t: Tx) -> bool { pp(t.s).operators@.contains(t.who) && t.funds.len() == 0 }
pub open spec fn synced(t: Tx, k: AskKey) -> Ask { Ask { is_active: approved(t.w, k.0, k.1, t.me), ..old_ask(t, k) } }
pub open spec fn sync_state(t: Tx, k: AskKey) -> bool { an_ask(t, k) && t.s2 == w_asks(t.s, t.s.v1_asks@.insert(k, synced(t, k))) }
pub open spec fn sync_hook(t: Tx, k: AskKey) -> bool { hook_log(t.ms) == ask_log(t.s, 1, synced(t, k)) }
pub open spec fn stale_ask(t: Tx, k: AskKey) -> bool { an_ask(t, k) && (expired(old_ask(t, k).expires_at, t.now) || owner_of_sp(t.w, k.0, k.1) is None || !approved(t.w, k.0, k.1, t.me)) }
pub open spec fn stale_at(s: Storage, e: Timestamp) -> int { e.n as int + pp(s).stale_bid_duration->Time_0 as int * 1_000_000_000 }
pub open spec fn reward(s: Storage, price: int) -> int { mul_floor(price, pp(s).bid_removal_reward_percent.a as int) / 100 }
pub open spec fn stale_pay(t: Tx, bidder: Addr, price: int) -> bool {
    burns(t, 0) && forall|to: Str, d: Str| #[trigger] paid(t.ms, to, d) == in_nat(d, at(to, bidder.g@, price - reward(t.s, price)) + at(to, t.who.g@, reward(t.s, price)))
}

// ------------------------------------------------------------------ the message decides
pub open spec fn ak(c: String, tok: u32) -> AskKey { (to_addr(c), tok) }
pub open spec fn bk(c: String, tok: u32, b: String) -> BidKey { (to_addr(c), tok, to_addr(b)) }
pub open spec fn ck(c: String, b: String) -> CollectionBidKey { (to_addr(c), to_addr(b)) }
pub open spec fn bi(c: String, tok: u32, e: Timestamp, f: Option<String>, b: Option<u64>) -> BidInfo { BidInfo { collection: to_addr(c), token_id: tok, expires: e, finder: opt_to_addr(f), finders_fee_bps: b } }
pub open spec fn ai(sale_type: SaleType, c: String, tok: u32, price: Coin, fr: Option<String>, rf: Option<String>, b: Option<u64>, e: Timestamp) -> AskInfo {
    AskInfo { sale_type, collection: to_addr(c), token_id: tok, price, funds_recipient: opt_to_addr(fr), reserve_for: opt_to_addr(rf), finders_fee_bps: b, expires: e }
}
// ------------------------------------------------------------------ what may not be refused
// a message before it runs
pub open spec fn req(s: Storage, w: QuerierWrapper, env: Env, info: MessageInfo) -> Tx {
    Tx { s, s2: s, ms: Seq::empty(), w, me: env.contract.address.g@, now: env.block.time.n as int, who: info.sender, funds: info.funds@ }
}
pub open spec fn reqn(s: Storage, w: QuerierWrapper, info: MessageInfo) -> Tx { Tx { s, s2: s, ms: Seq::empty(), w, me: Seq::empty(), now: 0, who: info.sender, funds: info.funds@ } }
pub open spec fn free(t: Tx) -> bool { t.funds.len() == 0 }
pub open spec fn payable(t: Tx, c: Addr, price: int, finder: Option<Addr>, bps: Option<u64>) -> bool { info_known(t.w, c) && fits(pp(t.s), price, finder, bps, roy_sp(t.w, c)) }
pub open spec fn can_list(t: Tx, i: AskInfo) -> bool { set_ask_auth(t, i) && set_ask_gate(t, i) && coins_amt(t.funds, nat()) == pp(t.s).listing_fee.v && (t.funds.len() == 0 || (t.funds.len() == 1 && t.funds[0].denom.g@ == nat())) }
pub open spec fn can_delist(t: Tx, k: AskKey) -> bool { own_k(t, k) && free(t) && an_ask(t, k) }
pub open spec fn can_reprice(t: Tx, k: AskKey, p: Coin) -> bool { own_k(t, k) && free(t) && an_ask(t, k) && reprice_gate(t, k, p) }
pub open spec fn can_bid(t: Tx, i: BidInfo, buy_now: bool) -> bool {
    set_bid_gate(t, i) && set_bid_listing(t, i, buy_now) && (is_sale(t, i) ==> payable(t, i.collection, bid_paid(t), i.finder, old_ask(t, akey(i)).finders_fee_bps))
}
pub open spec fn can_withdraw(t: Tx, k: BidKey) -> bool { free(t) && a_bid(t, k) }
pub open spec fn can_reject(t: Tx, k: BidKey) -> bool { own_k(t, (k.0, k.1)) && can_withdraw(t, k) }
pub open spec fn can_accept(t: Tx, k: BidKey, finder: Option<Addr>) -> bool {
    accept_auth(t, k.0, k.1) && a_bid(t, k) && accept_gate(t, k.0, old_bid(t, k).expires_at) && payable(t, k.0, old_bid(t, k).price.v as int, finder, old_bid(t, k).finders_fee_bps)
}
pub open spec fn can_cbid(t: Tx, f: Option<u64>, e: Timestamp) -> bool { set_cbid_gate(t, f, e) }
pub open spec fn can_withdraw_c(t: Tx, k: CollectionBidKey) -> bool { free(t) && a_cbid(t, k) }
pub open spec fn can_accept_c(t: Tx, k: CollectionBidKey, tok: u32, finder: Option<Addr>) -> bool {
    accept_auth(t, k.0, tok) && a_cbid(t, k) && accept_gate(t, k.0, old_cbid(t, k).expires_at) && payable(t, k.0, old_cbid(t, k).price.v as int, finder, old_cbid(t, k).finders_fee_bps)
}
pub open spec fn can_sync(t: Tx, k: AskKey) -> bool { operator(t) && an_ask(t, k) && old_ask(t, k).is_active != approved(t.w, k.0, k.1, t.me) }
pub open spec fn can_clear_ask(t: Tx, k: AskKey) -> bool { operator(t) && stale_ask(t, k) }
pub open spec fn can_clear_bid(t: Tx, k: BidKey) -> bool { operator(t) && a_bid(t, k) && t.now >= stale_at(t.s, old_bid(t, k).expires_at) }
pub open spec fn can_clear_cbid(t: Tx, k: CollectionBidKey) -> bool { operator(t) && a_cbid(t, k) && t.now >= stale_at(t.s, old_cbid(t, k).expires_at) }
pub open spec fn good(a: String) -> bool { addr_ok(a.g@) }
pub open spec fn opt_good(a: Option<String>) -> bool { match a { Some(x) => good(x), None => true } }
pub open spec fn m_can(t: Tx, m: ExecuteMsg) -> bool {
    match m {
        ExecuteMsg::SetAsk { sale_type, collection, token_id, price, funds_recipient, reserve_for, finders_fee_bps, expires } => good(collection) && opt_good(funds_recipient) && opt_good(reserve_for) && can_list(t, ai(sale_type, collection, token_id, price, funds_recipient, reserve_for, finders_fee_bps, expires)),
        ExecuteMsg::RemoveAsk { collection, token_id } => good(collection) && can_delist(t, ak(collection, token_id)),
        ExecuteMsg::UpdateAskPrice { collection, token_id, price } => good(collection) && can_reprice(t, ak(collection, token_id), price),
        ExecuteMsg::SetBid { collection, token_id, expires, finder, finders_fee_bps, .. } => good(collection) && opt_good(finder) && can_bid(t, bi(collection, token_id, expires, finder, finders_fee_bps), false),
        ExecuteMsg::BuyNow { collection, token_id, expires, finder, finders_fee_bps } => good(collection) && opt_good(finder) && can_bid(t, bi(collection, token_id, expires, finder, finders_fee_bps), true),
        ExecuteMsg::BuyFor { collection, token_id, expires, finder, finders_fee_bps, asset_recipient } => good(collection) && opt_good(finder) && good(asset_recipient) && can_bid(t, bi(collection, token_id, expires, finder, finders_fee_bps), true),
        ExecuteMsg::RemoveBid { collection, token_id } => good(collection) && can_withdraw(t, (to_addr(collection), token_id, t.who)),
        ExecuteMsg::AcceptBid { collection, token_id, bidder, finder } => good(collection) && good(bidder) && opt_good(finder) && can_accept(t, bk(collection, token_id, bidder), opt_to_addr(finder)),
        ExecuteMsg::RejectBid { collection, token_id, bidder } => good(collection) && good(bidder) && can_reject(t, bk(collection, token_id, bidder)),
        ExecuteMsg::SetCollectionBid { collection, expires, finders_fee_bps } => good(collection) && can_cbid(t, finders_fee_bps, expires),
        ExecuteMsg::RemoveCollectionBid { collection } => good(collection) && can_withdraw_c(t, (to_addr(collection), t.who)),
        ExecuteMsg::AcceptCollectionBid { collection, token_id, bidder, finder } => good(collection) && good(bidder) && opt_good(finder) && can_accept_c(t, ck(collection, bidder), token_id, opt_to_addr(finder)),
        ExecuteMsg::SyncAsk { collection, token_id } => good(collection) && can_sync(t, ak(collection, token_id)),
        ExecuteMsg::RemoveStaleAsk { collection, token_id } => good(collection) && can_clear_ask(t, ak(collection, token_id)),
        ExecuteMsg::RemoveStaleBid { collection, token_id, bidder } => good(collection) && good(bidder) && can_clear_bid(t, bk(collection, token_id, bidder)),
        ExecuteMsg::RemoveStaleCollectionBid { collection, bidder } => good(collection) && good(bidder) && can_clear_cbid(t, ck(collection, bidder)),
    }
}
// what each message does
pub open spec fn m_auth(t: Tx, m: ExecuteMsg) -> bool {
    match m {
        ExecuteMsg::SetAsk { sale_type, collection, token_id, price, funds_recipient, reserve_for, finders_fee_bps, expires } => { let i = ai(sale_type, collection, token_id, price, funds_recipient, reserve_for, finders_fee_bps, expires); set_ask_auth(t, i) && set_ask_state(t, i) },
        ExecuteMsg::RemoveAsk { collection, token_id } => own_k(t, ak(collection, token_id)) && remove_ask_state(t, ak(collection, token_id)),
        ExecuteMsg::UpdateAskPrice { collection, token_id, price } => own_k(t, ak(collection, token_id)) && reprice_state(t, ak(collection, token_id), price),
        ExecuteMsg::SetBid { collection, token_id, expires, finder, finders_fee_bps, .. } => set_bid_state(t, bi(collection, token_id, expires, finder, finders_fee_bps)),
        ExecuteMsg::BuyNow { collection, token_id, expires, finder, finders_fee_bps } => set_bid_state(t, bi(collection, token_id, expires, finder, finders_fee_bps)),
        ExecuteMsg::BuyFor { collection, token_id, expires, finder, finders_fee_bps, .. } => set_bid_state(t, bi(collection, token_id, expires, finder, finders_fee_bps)),
        ExecuteMsg::RemoveBid { collection, token_id } => drop_bid_state(t, (to_addr(collection), token_id, t.who)),
        ExecuteMsg::AcceptBid { collection, token_id, bidder, .. } => accept_auth(t, to_addr(collection), token_id) && accept_state(t, bk(collection, token_id, bidder)),
        ExecuteMsg::RejectBid { collection, token_id, bidder } => own_k(t, ak(collection, token_id)) && drop_bid_state(t, bk(collection, token_id, bidder)),
        ExecuteMsg::SetCollectionBid { collection, expires, finders_fee_bps } => set_cbid_state(t, to_addr(collection), finders_fee_bps, expires),
        ExecuteMsg::RemoveCollectionBid { collection } => drop_cbid_state(t, (to_addr(collection), t.who)),
        ExecuteMsg::AcceptCollectionBid { collection, token_id, bidder, .. } => accept_auth(t, to_addr(collection), token_id) && accept_c_state(t, ck(collection, bidder), token_id),
        ExecuteMsg::SyncAsk { collection, token_id } => operator(t) && sync_state(t, ak(collection, token_id)),
        ExecuteMsg::RemoveStaleAsk { collection, token_id } => operator(t) && remove_ask_state(t, ak(collection, token_id)),
        ExecuteMsg::RemoveStaleBid { collection, token_id, bidder } => operator(t) && drop_bid_state(t, bk(collection, token_id, bidder)),
        ExecuteMsg::RemoveStaleCollectionBid { collection, bidder } => operator(t) && drop_cbid_state(t, ck(collection, bidder)),
    }
}
// who gets their escrow back
pub open spec fn m_refund(t: Tx, m: ExecuteMsg) -> bool {
    match m {
        ExecuteMsg::SetBid { collection, token_id, expires, finder, finders_fee_bps, .. } => set_bid_refund(t, bi(collection, token_id, expires, finder, finders_fee_bps)),
        ExecuteMsg::BuyNow { collection, token_id, expires, finder, finders_fee_bps } => set_bid_refund(t, bi(collection, token_id, expires, finder, finders_fee_bps)),
        ExecuteMsg::BuyFor { collection, token_id, expires, finder, finders_fee_bps, .. } => set_bid_refund(t, bi(collection, token_id, expires, finder, finders_fee_bps)),
        ExecuteMsg::RemoveBid { collection, token_id } => drop_bid_refund(t, (to_addr(collection), token_id, t.who)),
        ExecuteMsg::RejectBid { collection, token_id, bidder } => drop_bid_refund(t, bk(collection, token_id, bidder)),
        ExecuteMsg::SetCollectionBid { collection, .. } => set_cbid_refund(t, to_addr(collection)),
        ExecuteMsg::RemoveCollectionBid { collection } => drop_cbid_refund(t, (to_addr(collection), t.who)),
        ExecuteMsg::RemoveAsk { .. } => no_pay(t),
        ExecuteMsg::UpdateAskPrice { .. } => no_pay(t),
        ExecuteMsg::SyncAsk { .. } => no_pay(t),
        ExecuteMsg::RemoveStaleAsk { .. } => no_pay(t),
        _ => true,
    }
}
pub open spec fn m_sale(t: Tx, m: ExecuteMsg) -> bool {
    match m {
        ExecuteMsg::SetBid { collection, token_id, expires, finder, finders_fee_bps, .. } => { let i = bi(collection, token_id, expires, finder, finders_fee_bps); buy_pay(t, i) && set_bid_nft(t, i, None) },
        ExecuteMsg::BuyNow { collection, token_id, expires, finder, finders_fee_bps } => { let i = bi(collection, token_id, expires, finder, finders_fee_bps); buy_pay(t, i) && set_bid_nft(t, i, None) },
        ExecuteMsg::BuyFor { collection, token_id, expires, finder, finders_fee_bps, asset_recipient } => { let i = bi(collection, token_id, expires, finder, finders_fee_bps); buy_pay(t, i) && set_bid_nft(t, i, Some(to_addr(asset_recipient))) },
        ExecuteMsg::AcceptBid { collection, token_id, bidder, finder } => { let b = old_bid(t, bk(collection, token_id, bidder)); accept_pay(t, to_addr(collection), b.price.v as int, opt_to_addr(finder), b.finders_fee_bps) && accept_nft(t, to_addr(collection), token_id, to_addr(bidder)) },
        ExecuteMsg::AcceptCollectionBid { collection, token_id, bidder, finder } => { let b = old_cbid(t, ck(collection, bidder)); accept_pay(t, to_addr(collection), b.price.v as int, opt_to_addr(finder), b.finders_fee_bps) && accept_nft(t, to_addr(collection), token_id, to_addr(bidder)) },
        _ => moves_none(t),
    }
}
pub open spec fn m_buy(t: Tx, m: ExecuteMsg) -> bool {
    match m {
        ExecuteMsg::SetBid { collection, token_id, expires, finder, finders_fee_bps, .. } => { let i = bi(collection, token_id, expires, finder, finders_fee_bps); set_bid_listing(t, i, false) && set_bid_state(t, i) && set_bid_nft(t, i, None) },
        ExecuteMsg::BuyNow { collection, token_id, expires, finder, finders_fee_bps } => { let i = bi(collection, token_id, expires, finder, finders_fee_bps); set_bid_listing(t, i, true) && set_bid_state(t, i) && set_bid_nft(t, i, None) },
        ExecuteMsg::BuyFor { collection, token_id, expires, finder, finders_fee_bps, asset_recipient } => { let i = bi(collection, token_id, expires, finder, finders_fee_bps); set_bid_listing(t, i, true) && set_bid_state(t, i) && set_bid_nft(t, i, Some(to_addr(asset_recipient))) },
        _ => true,
    }
}
pub open spec fn m_gate(t: Tx, m: ExecuteMsg) -> bool {
    match m {
        ExecuteMsg::SetAsk { sale_type, collection, token_id, price, funds_recipient, reserve_for, finders_fee_bps, expires } => { let i = ai(sale_type, collection, token_id, price, funds_recipient, reserve_for, finders_fee_bps, expires); set_ask_gate(t, i) && set_ask_fee(t) },
        ExecuteMsg::UpdateAskPrice { collection, token_id, price } => reprice_gate(t, ak(collection, token_id), price),
        ExecuteMsg::SetBid { collection, token_id, expires, finder, finders_fee_bps, .. } => set_bid_gate(t, bi(collection, token_id, expires, finder, finders_fee_bps)),
        ExecuteMsg::BuyNow { collection, token_id, expires, finder, finders_fee_bps } => set_bid_gate(t, bi(collection, token_id, expires, finder, finders_fee_bps)),
        ExecuteMsg::BuyFor { collection, token_id, expires, finder, finders_fee_bps, .. } => set_bid_gate(t, bi(collection, token_id, expires, finder, finders_fee_bps)),
        ExecuteMsg::SetCollectionBid { collection, expires, finders_fee_bps } => set_cbid_gate(t, finders_fee_bps, expires),
        ExecuteMsg::AcceptBid { collection, token_id, bidder, .. } => accept_gate(t, to_addr(collection), old_bid(t, bk(collection, token_id, bidder)).expires_at),
        ExecuteMsg::AcceptCollectionBid { collection, token_id, bidder, .. } => accept_gate(t, to_addr(collection), old_cbid(t, ck(collection, bidder)).expires_at),
        _ => true,
    }
}
pub open spec fn m_stale(t: Tx, m: ExecuteMsg) -> bool {
    match m {
        ExecuteMsg::SyncAsk { collection, token_id } => sync_state(t, ak(collection, token_id)),
        ExecuteMsg::RemoveStaleAsk { collection, token_id } => stale_ask(t, ak(collection, token_id)),
        ExecuteMsg::RemoveStaleBid { collection, token_id, bidder } => { let k = bk(collection, token_id, bidder); t.now >= stale_at(t.s, old_bid(t, k).expires_at) && stale_pay(t, to_addr(bidder), old_bid(t, k).price.v as int) },
        ExecuteMsg::RemoveStaleCollectionBid { collection, bidder } => { let k = ck(collection, bidder); t.now >= stale_at(t.s, old_cbid(t, k).expires_at) && stale_pay(t, to_addr(bidder), old_cbid(t, k).price.v as int) },
        _ => true,
    }
}
pub open spec fn m_hook(t: Tx, m: ExecuteMsg) -> bool {
    match m {
        ExecuteMsg::SetAsk { sale_type, collection, token_id, price, funds_recipient, reserve_for, finders_fee_bps, expires } => set_ask_hook(t, ai(sale_type, collection, token_id, price, funds_recipient, reserve_for, finders_fee_bps, expires)),
        ExecuteMsg::RemoveAsk { collection, token_id } => remove_ask_hook(t, ak(collection, token_id)),
        ExecuteMsg::UpdateAskPrice { collection, token_id, price } => reprice_hook(t, ak(collection, token_id), price),
        ExecuteMsg::SetBid { collection, token_id, expires, finder, finders_fee_bps, .. } => set_bid_hook(t, bi(collection, token_id, expires, finder, finders_fee_bps)),
        ExecuteMsg::BuyNow { collection, token_id, expires, finder, finders_fee_bps } => set_bid_hook(t, bi(collection, token_id, expires, finder, finders_fee_bps)),
        ExecuteMsg::BuyFor { collection, token_id, expires, finder, finders_fee_bps, .. } => set_bid_hook(t, bi(collection, token_id, expires, finder, finders_fee_bps)),
        ExecuteMsg::RemoveBid { collection, token_id } => drop_bid_hook(t, (to_addr(collection), token_id, t.who)),
        ExecuteMsg::AcceptBid { collection, token_id, bidder, .. } => accept_hook(t, to_addr(collection), token_id, old_bid(t, bk(collection, token_id, bidder)).price.v as int, to_addr(bidder)),
        ExecuteMsg::RejectBid { collection, token_id, bidder } => drop_bid_hook(t, bk(collection, token_id, bidder)),
        ExecuteMsg::SetCollectionBid { collection, expires, finders_fee_bps } => set_cbid_hook(t, to_addr(collection), finders_fee_bps, expires),
        ExecuteMsg::RemoveCollectionBid { collection } => drop_cbid_hook(t, (to_addr(collection), t.who)),
        ExecuteMsg::AcceptCollectionBid { collection, token_id, bidder, .. } => accept_hook(t, to_addr(collection), token_id, old_cbid(t, ck(collection, bidder)).price.v as int, to_addr(bidder)),
        ExecuteMsg::SyncAsk { collection, token_id } => sync_hook(t, ak(collection, token_id)),
        ExecuteMsg::RemoveStaleAsk { collection, token_id } => remove_ask_hook(t, ak(collection, token_id)),
        ExecuteMsg::RemoveStaleBid { collection, token_id, bidder } => drop_bid_hook(t, bk(collection, token_id, bidder)),
        ExecuteMsg::RemoveStaleCollectionBid { collection, bidder } => drop_cbid_hook(t, ck(collection, bidder)),
    }
}

// ------------------------------------------------------------------ governance
pub open spec fn opt_u<T>(x: Option<T>, y: T) -> T { match x { Some(v) => v, None => y } }
pub open spec fn opt_pct(x: Option<u64>, y: Decimal) -> int { match x { Some(v) => pct(v), None => y.a as int } }
// exactly the fields given are replaced
pub open spec fn updated(p: SudoParams, q: SudoParams, i: ParamInfo) -> bool {
    &&& q.trading_fee_percent.a as int == opt_pct(i.trading_fee_bps, p.trading_fee_percent)
    &&& q.max_finders_fee_percent.a as int == opt_pct(i.max_finders_fee_bps, p.max_finders_fee_percent)
    &&& q.bid_removal_reward_percent.a as int == opt_pct(i.bid_removal_reward_bps, p.bid_removal_reward_percent)
    &&& q.ask_expiry == opt_u(i.ask_expiry, p.ask_expiry)
    &&& q.bid_expiry == opt_u(i.bid_expiry, p.bid_expiry)
    &&& q.min_price == opt_u(i.min_price, p.min_price)
    &&& q.listing_fee == opt_u(i.listing_fee, p.listing_fee)
    &&& q.stale_bid_duration == (match i.stale_bid_duration { Some(x) => Duration::Time(x), None => p.stale_bid_duration })
    &&& q.operators == p.operators
}
pub open spec fn quiet(ms: Seq<SubMsg>) -> bool { ms.len() == 0 }
pub open spec fn params_set(s: Storage, s2: Storage, i: ParamInfo) -> bool { s2 == w_par(s, pp(s2)) && s2.v1_SUDO_PARAMS@ is Some && updated(pp(s), pp(s2), i) }
pub open spec fn with_ops(p: SudoParams, q: SudoParams) -> bool { q == (SudoParams { operators: q.operators, ..p }) }
pub open spec fn op_added(s: Storage, s2: Storage, o: Addr) -> bool { s2 == w_par(s, pp(s2)) && with_ops(pp(s), pp(s2)) && !pp(s).operators@.contains(o) && forall|x: Addr| #[trigger] pp(s2).operators@.contains(x) <==> (x == o || pp(s).operators@.contains(x)) }
pub open spec fn op_removed(s: Storage, s2: Storage, o: Addr) -> bool { s2 == w_par(s, pp(s2)) && with_ops(pp(s), pp(s2)) && pp(s).operators@.contains(o) && forall|x: Addr| #[trigger] pp(s2).operators@.contains(x) <==> (x != o && pp(s).operators@.contains(x)) }
pub open spec fn hook_added(a: Seq<Addr>, b: Seq<Addr>, h: Addr) -> bool { !a.contains(h) && b == a.push(h) }
pub open spec fn hook_gone(a: Seq<Addr>, b: Seq<Addr>, h: Addr) -> bool { a.contains(h) && b == a.remove(a.index_of(h)) }
pub open spec fn w_ask_hooks(s: Storage, h: Seq<Addr>) -> Storage { Storage { v1_ASK_HOOKS: Ghost(h), ..s } }
pub open spec fn w_bid_hooks(s: Storage, h: Seq<Addr>) -> Storage { Storage { v1_BID_HOOKS: Ghost(h), ..s } }
pub open spec fn w_sale_hooks(s: Storage, h: Seq<Addr>) -> Storage { Storage { v1_SALE_HOOKS: Ghost(h), ..s } }
// governance and instantiation: what must be accepted
pub open spec fn par_in(i: ParamInfo) -> bool { bps_in(i.trading_fee_bps) && bps_in(i.max_finders_fee_bps) && bps_in(i.bid_removal_reward_bps) && (match i.ask_expiry { Some(r) => range_ok(r), None => true }) && (match i.bid_expiry { Some(r) => range_ok(r), None => true }) }
pub open spec fn can_hook(v: Seq<Addr>, h: Addr) -> bool { v.len() < 5 && !v.contains(h) }
pub open spec fn sudo_can(s: Storage, m: SudoMsg) -> bool {
    match m {
        SudoMsg::UpdateParams { trading_fee_bps, ask_expiry, bid_expiry, operators, max_finders_fee_bps, min_price, stale_bid_duration, bid_removal_reward_bps, listing_fee } =>
            par_in(ParamInfo { trading_fee_bps, ask_expiry, bid_expiry, operators, max_finders_fee_bps, min_price, stale_bid_duration, bid_removal_reward_bps, listing_fee }),
        SudoMsg::AddOperator { operator } => good(operator) && !pp(s).operators@.contains(to_addr(operator)),
        SudoMsg::RemoveOperator { operator } => good(operator) && pp(s).operators@.contains(to_addr(operator)),
        SudoMsg::AddSaleHook { hook } => good(hook) && can_hook(s.v1_SALE_HOOKS@, to_addr(hook)),
        SudoMsg::AddAskHook { hook } => good(hook) && can_hook(s.v1_ASK_HOOKS@, to_addr(hook)),
        SudoMsg::AddBidHook { hook } => good(hook) && can_hook(s.v1_BID_HOOKS@, to_addr(hook)),
        SudoMsg::RemoveSaleHook { hook } => good(hook) && s.v1_SALE_HOOKS@.contains(to_addr(hook)),
        SudoMsg::RemoveAskHook { hook } => good(hook) && s.v1_ASK_HOOKS@.contains(to_addr(hook)),
        SudoMsg::RemoveBidHook { hook } => good(hook) && s.v1_BID_HOOKS@.contains(to_addr(hook)),
    }
}
pub open spec fn init_can(s: Storage, m: InstantiateMsg) -> bool {
    &&& m.trading_fee_bps <= 10_000 && m.max_finders_fee_bps <= 10_000 && m.bid_removal_reward_bps <= 10_000 && range_ok(m.ask_expiry) && range_ok(m.bid_expiry) && m.stale_bid_duration is Time
    &&& forall|j: int| 0 <= j < m.operators@.len() ==> good(#[trigger] m.operators@[j])
    &&& match m.sale_hook { Some(h) => good(h) && can_hook(s.v1_SALE_HOOKS@, to_addr(h)), None => true }
}
pub open spec fn sudo_par(s: Storage, s2: Storage, m: SudoMsg) -> bool {
    match m {
        SudoMsg::UpdateParams { trading_fee_bps, ask_expiry, bid_expiry, operators, max_finders_fee_bps, min_price, stale_bid_duration, bid_removal_reward_bps, listing_fee } =>
            params_set(s, s2, ParamInfo { trading_fee_bps, ask_expiry, bid_expiry, operators, max_finders_fee_bps, min_price, stale_bid_duration, bid_removal_reward_bps, listing_fee }),
        SudoMsg::AddOperator { operator } => op_added(s, s2, to_addr(operator)),
        SudoMsg::RemoveOperator { operator } => op_removed(s, s2, to_addr(operator)),
        _ => s2.v1_SUDO_PARAMS == s.v1_SUDO_PARAMS,
    }
}
pub open spec fn sudo_hooks(s: Storage, s2: Storage, m: SudoMsg) -> bool {
    match m {
        SudoMsg::AddSaleHook { hook } => hook_added(s.v1_SALE_HOOKS@, s2.v1_SALE_HOOKS@, to_addr(hook)) && s2 == w_sale_hooks(s, s2.v1_SALE_HOOKS@),
        SudoMsg::AddAskHook { hook } => hook_added(s.v1_ASK_HOOKS@, s2.v1_ASK_HOOKS@, to_addr(hook)) && s2 == w_ask_hooks(s, s2.v1_ASK_HOOKS@),
        SudoMsg::AddBidHook { hook } => hook_added(s.v1_BID_HOOKS@, s2.v1_BID_HOOKS@, to_addr(hook)) && s2 == w_bid_hooks(s, s2.v1_BID_HOOKS@),
        SudoMsg::RemoveSaleHook { hook } => hook_gone(s.v1_SALE_HOOKS@, s2.v1_SALE_HOOKS@, to_addr(hook)) && s2 == w_sale_hooks(s, s2.v1_SALE_HOOKS@),
        SudoMsg::RemoveAskHook { hook } => hook_gone(s.v1_ASK_HOOKS@, s2.v1_ASK_HOOKS@, to_addr(hook)) && s2 == w_ask_hooks(s, s2.v1_ASK_HOOKS@),
        SudoMsg::RemoveBidHook { hook } => hook_gone(s.v1_BID_HOOKS@, s2.v1_BID_HOOKS@, to_addr(hook)) && s2 == w_bid_hooks(s, s2.v1_BID_HOOKS@),
        _ => s2 == w_par(s, pp(s2)),
    }
}
pub open spec fn init_par(p: SudoParams, m: InstantiateMsg) -> bool {
    &&& p.trading_fee_percent.a as int == pct(m.trading_fee_bps) && p.max_finders_fee_percent.a as int == pct(m.max_finders_fee_bps) && p.bid_removal_reward_percent.a as int == pct(m.bid_removal_reward_bps)
    &&& p.ask_expiry == m.ask_expiry && p.bid_expiry == m.bid_expiry && p.min_price == m.min_price && p.listing_fee == m.listing_fee && p.stale_bid_duration == m.stale_bid_duration
    &&& forall|x: Addr| #[trigger] p.operators@.contains(x) <==> named(m.operators@, m.operators@.len() as int, x)
}
pub open spec fn named(v: Seq<String>, n: int, x: Addr) -> bool { exists|i: int| 0 <= i < n && (#[trigger] v[i]).g@ == x.g@ }

// ------------------------------------------------------------------ histories
pub open spec fn linked(h: Seq<Tx>) -> bool { forall|i: int| 0 < i < h.len() ==> (#[trigger] h[i]).s == h[i - 1].s2 }
pub open spec fn bal_step(b: int, t: Tx, d: Str) -> int { b + coins_amt(t.funds, d) - paid_all(t.ms, d) }
pub open spec fn bal_n(h: Seq<Tx>, n: int, d: Str) -> int decreases n { if n <= 0 { 0 } else { bal_step(bal_n(h, n - 1, d), h[n - 1], d) } }
// after every history of accepted messages the contract holds exactly its open bids
pub proof fn solvent(h: Seq<Tx>, n: int, d: Str) /*#P11*/
    requires 0 <= n <= h.len(), linked(h), forall|i: int| 0 <= i < h.len() ==> g_funds(#[trigger] h[i]), h.len() > 0 ==> esc(h[0].s, d) == 0,
    ensures n > 0 ==> bal_n(h, n, d) == esc(h[n - 1].s2, d),
    decreases n
{
    reveal_with_fuel(bal_n, 2);
    if n > 0 { solvent(h, n - 1, d); if n > 1 { assert(h[n - 1].s == h[n - 2].s2); } let t = h[n - 1]; assert(g_funds(t)); assert(esc(t.s2, d) + paid_all(t.ms, d) == esc(t.s, d) + coins_amt(t.funds, d)); }
}
pub proof fn esc_empty(s: Storage, d: Str) requires s.v1_bids@ == Map::<BidKey, Bid>::empty(), s.v1_collection_bids@ == Map::<CollectionBidKey, CollectionBid>::empty() ensures esc(s, d) == 0 { psum_none::<BidKey, Bid>(d); psum_none::<CollectionBidKey, CollectionBid>(d); }
// every open bid is covered by what is held
pub proof fn covered(s: Storage, k: BidKey) /*#P11*/
    requires s.v1_bids@.dom().contains(k)
    ensures esc(s, nat()) >= s.v1_bids@[k].price.v
{ psum_ge(s.v1_bids@, nat()); psum_ge(s.v1_collection_bids@, nat()); assert(s.v1_bids@[k].owed(nat()) == s.v1_bids@[k].price.v); }
pub broadcast proof fn push_has<T>(s: Seq<T>, a: T, x: T)
    ensures #[trigger] s.push(a).contains(x) == (s.contains(x) || x == a)
{
    if s.contains(x) { assert(s.push(a)[s.index_of(x)] == x); }
    assert(s.push(a)[s.len() as int] == a);
    if s.push(a).contains(x) && x != a { let i = s.push(a).index_of(x); assert(s[i] == x); }
}
pub broadcast proof fn push_nodup<T>(s: Seq<T>, a: T)
    ensures s.no_duplicates() && !s.contains(a) ==> (#[trigger] s.push(a)).no_duplicates()
{}
pub broadcast proof fn remove_has<T>(s: Seq<T>, i: int, x: T)
    requires s.no_duplicates(), 0 <= i < s.len()
    ensures #[trigger] s.remove(i).contains(x) == (s.contains(x) && x != s[i])
{
    let r = s.remove(i);
    if s.contains(x) && x != s[i] { let j = s.index_of(x); if j < i { assert(r[j] == x); } else { assert(r[j - 1] == x); } }
    if r.contains(x) { let j = r.index_of(x); if j < i { assert(s[j] == x); } else { assert(s[j + 1] == x); } }
}
pub broadcast proof fn remove_nodup<T>(s: Seq<T>, i: int)
    requires s.no_duplicates(), 0 <= i < s.len()
    ensures (#[trigger] s.remove(i)).no_duplicates()
{ let r = s.remove(i); assert forall|a: int, b: int| 0 <= a < r.len() && 0 <= b < r.len() && a != b implies r[a] != r[b] by { assert(r[a] == s[if a < i { a } else { a + 1 }]); assert(r[b] == s[if b < i { b } else { b + 1 }]); } }
pub broadcast proof fn put_again<K, V>(m: Map<K, V>, k: K, v: V)
    ensures #[trigger] m.remove(k).insert(k, v) == m.insert(k, v)
{ assert(m.remove(k).insert(k, v) =~= m.insert(k, v)); }
// ------------------------------------------------------------------ queries
pub open spec fn qlim(l: Option<u32>) -> nat { match l { Some(n) => if n < 100 { n as nat } else { 100 }, None => 10 } }
pub open spec fn past<K>(o: Option<K>) -> Option<SBound<K>> { match o { Some(k) => Some(SBound::Exclusive(k)), None => None } }
pub open spec fn shown(inc: Option<bool>, a: Ask) -> bool { inc == Some(true) || a.is_active }
pub open spec fn asc() -> crate::shim::Order { crate::shim::Order::Ascending }
pub open spec fn desc() -> crate::shim::Order { crate::shim::Order::Descending }
// a collection some ask names, after the cursor
pub open spec fn on_sale(s: Storage, start: Option<Addr>, c: Addr) -> bool { (exists|t: TokenId| #[trigger] s.v1_asks@.dom().contains((c, t))) && match start { Some(b) => Addr::plt(b, c), None => true } }
pub open spec fn q_collections(s: Storage, start: Option<Addr>, lim: nat, out: Seq<Addr>) -> bool {
    &&& forall|i: int| 0 <= i < out.len() ==> on_sale(s, start, #[trigger] out[i])
    &&& forall|i: int, j: int| 0 <= i < j < out.len() ==> Addr::plt(#[trigger] out[i], #[trigger] out[j])
    &&& out.len() <= lim
    &&& forall|c: Addr| #[trigger] on_sale(s, start, c) ==> out.contains(c) || (out.len() == lim && forall|i: int| 0 <= i < out.len() ==> Addr::plt(#[trigger] out[i], c))
}
pub open spec fn q_asks(s: Storage, c: Addr, inc: Option<bool>, o: Option<TokenId>, lim: nat, out: Seq<Ask>) -> bool {
    page(s.v1_asks@, |v: Ask| v.collection == c && shown(inc, v), |k: AskKey, v: Ask| k, past(match o { Some(t) => Some((c, t)), None => None }), None, asc(), lim, out)
}
pub open spec fn q_asks_rev(s: Storage, c: Addr, inc: Option<bool>, o: Option<TokenId>, lim: nat, out: Seq<Ask>) -> bool {
    page(s.v1_asks@, |v: Ask| v.collection == c && shown(inc, v), |k: AskKey, v: Ask| k, None, past(match o { Some(t) => Some((c, t)), None => None }), desc(), lim, out)
}
pub open spec fn ask_at(c: Addr, o: Option<AskOffset>) -> Option<(u128, AskKey)> { match o { Some(x) => Some((x.price.v, (c, x.token_id))), None => None } }
pub open spec fn q_asks_price(s: Storage, c: Addr, inc: Option<bool>, o: Option<AskOffset>, lim: nat, out: Seq<Ask>) -> bool {
    page(s.v1_asks@, |v: Ask| v.collection == c && shown(inc, v), |k: AskKey, v: Ask| (v.price.v, k), past(ask_at(c, o)), None, asc(), lim, out)
}
pub open spec fn q_asks_price_rev(s: Storage, c: Addr, inc: Option<bool>, o: Option<AskOffset>, lim: nat, out: Seq<Ask>) -> bool {
    page(s.v1_asks@, |v: Ask| v.collection == c && shown(inc, v), |k: AskKey, v: Ask| (v.price.v, k), None, past(ask_at(c, o)), desc(), lim, out)
}
pub open spec fn key_at(o: Option<CollectionOffset>) -> Option<AskKey> { match o { Some(x) => Some((to_addr(x.collection), x.token_id)), None => None } }
pub open spec fn q_asks_seller(s: Storage, seller: Addr, inc: Option<bool>, o: Option<CollectionOffset>, lim: nat, out: Seq<Ask>) -> bool {
    page(s.v1_asks@, |v: Ask| v.seller == seller && shown(inc, v), |k: AskKey, v: Ask| k, past(key_at(o)), None, asc(), lim, out)
}
pub open spec fn ask_count(s: Storage, c: Addr) -> nat { s.v1_asks@.dom().filter(|k: AskKey| s.v1_asks@[k].collection == c).len() }
pub open spec fn q_bids_bidder(s: Storage, b: Addr, o: Option<CollectionOffset>, lim: nat, out: Seq<Bid>) -> bool {
    page(s.v1_bids@, |v: Bid| v.bidder == b, |k: BidKey, v: Bid| k, past(match o { Some(x) => Some((to_addr(x.collection), x.token_id, b)), None => None }), None, asc(), lim, out)
}
pub open spec fn q_bids(s: Storage, c: Addr, t: TokenId, o: Option<String>, lim: nat, out: Seq<Bid>) -> bool {
    page(s.v1_bids@, |v: Bid| v.collection == c && v.token_id == t, |k: BidKey, v: Bid| k, past(match o { Some(x) => Some((c, t, to_addr(x))), None => None }), None, asc(), lim, out)
}
pub open spec fn bid_at(c: Addr, o: Option<BidOffset>) -> Option<(u128, BidKey)> { match o { Some(x) => Some((x.price.v, (c, x.token_id, x.bidder))), None => None } }
pub open spec fn q_bids_price(s: Storage, c: Addr, o: Option<BidOffset>, lim: nat, out: Seq<Bid>) -> bool {
    page(s.v1_bids@, |v: Bid| v.collection == c, |k: BidKey, v: Bid| (v.price.v, k), past(bid_at(c, o)), None, asc(), lim, out)
}
pub open spec fn q_bids_price_rev(s: Storage, c: Addr, o: Option<BidOffset>, lim: nat, out: Seq<Bid>) -> bool {
    page(s.v1_bids@, |v: Bid| v.collection == c, |k: BidKey, v: Bid| (v.price.v, k), None, past(bid_at(c, o)), desc(), lim, out)
}
// a cursor by expiry names a stored bid; a bid that is gone gives no position
pub open spec fn bid_exp_at(s: Storage, b: Addr, o: Option<CollectionOffset>) -> Option<(u64, BidKey)> {
    match o { Some(x) => { let k = (to_addr(x.collection), x.token_id, b); if s.v1_bids@.dom().contains(k) { Some((s.v1_bids@[k].expires_at.seconds_sp(), k)) } else { None } }, None => None }
}
pub open spec fn q_bids_expiry(s: Storage, b: Addr, o: Option<CollectionOffset>, lim: nat, out: Seq<Bid>) -> bool {
    page(s.v1_bids@, |v: Bid| v.bidder == b, |k: BidKey, v: Bid| (v.expires_at.seconds_sp(), k), past(bid_exp_at(s, b, o)), None, asc(), lim, out)
}
pub open spec fn cbid_at(c: Addr, o: Option<CollectionBidOffset>) -> Option<(u128, CollectionBidKey)> { match o { Some(x) => Some((x.price.v, (c, to_addr(x.bidder)))), None => None } }
pub open spec fn q_cbids_price(s: Storage, c: Addr, o: Option<CollectionBidOffset>, lim: nat, out: Seq<CollectionBid>) -> bool {
    page(s.v1_collection_bids@, |v: CollectionBid| v.collection == c, |k: CollectionBidKey, v: CollectionBid| (v.price.v, k), past(cbid_at(c, o)), None, asc(), lim, out)
}
pub open spec fn q_cbids_price_rev(s: Storage, c: Addr, o: Option<CollectionBidOffset>, lim: nat, out: Seq<CollectionBid>) -> bool {
    page(s.v1_collection_bids@, |v: CollectionBid| v.collection == c, |k: CollectionBidKey, v: CollectionBid| (v.price.v, k), None, past(cbid_at(c, o)), desc(), lim, out)
}
pub open spec fn q_cbids_bidder(s: Storage, b: Addr, o: Option<CollectionOffset>, lim: nat, out: Seq<CollectionBid>) -> bool {
    page(s.v1_collection_bids@, |v: CollectionBid| v.bidder == b, |k: CollectionBidKey, v: CollectionBid| k, past(match o { Some(x) => Some((to_addr(x.collection), b)), None => None }), None, asc(), lim, out)
}
pub open spec fn cbid_exp_at(s: Storage, o: Option<CollectionBidOffset>) -> Option<(u64, CollectionBidKey)> {
    match o { Some(x) => { let k = (to_addr(x.collection), to_addr(x.bidder)); if s.v1_collection_bids@.dom().contains(k) { Some((s.v1_collection_bids@[k].expires_at.seconds_sp(), k)) } else { None } }, None => None }
}
pub open spec fn q_cbids_expiry(s: Storage, b: Addr, o: Option<CollectionBidOffset>, lim: nat, out: Seq<CollectionBid>) -> bool {
    page(s.v1_collection_bids@, |v: CollectionBid| v.bidder == b, |k: CollectionBidKey, v: CollectionBid| (v.expires_at.seconds_sp(), k), past(cbid_exp_at(s, o)), None, asc(), lim, out)
}
pub open spec fn found<K, V>(m: Map<K, V>, k: K) -> Option<V> { if m.dom().contains(k) { Some(m[k]) } else { None } }
// the answers' JSON text as a function of what is in them
impl ToPayload for CollectionsResponse { open spec fn payload(&self) -> Payload { Payload::Other(json_id(self.collections@)) } }
impl ToPayload for AskResponse { open spec fn payload(&self) -> Payload { Payload::Other(json_id(self.ask)) } }
impl ToPayload for AsksResponse { open spec fn payload(&self) -> Payload { Payload::Other(json_id(self.asks@)) } }
impl ToPayload for AskCountResponse { open spec fn payload(&self) -> Payload { Payload::Other(json_id(self.count)) } }
impl ToPayload for BidResponse { open spec fn payload(&self) -> Payload { Payload::Other(json_id(self.bid)) } }
impl ToPayload for BidsResponse { open spec fn payload(&self) -> Payload { Payload::Other(json_id(self.bids@)) } }
impl ToPayload for CollectionBidResponse { open spec fn payload(&self) -> Payload { Payload::Other(json_id(self.bid)) } }
impl ToPayload for CollectionBidsResponse { open spec fn payload(&self) -> Payload { Payload::Other(json_id(self.bids@)) } }
impl ToPayload for HooksResponse { open spec fn payload(&self) -> Payload { Payload::Other(json_id(str_texts(self.hooks@))) } }
impl ToPayload for ParamsResponse { open spec fn payload(&self) -> Payload { Payload::Other(json_id(self.params)) } }
pub open spec fn j<T>(x: T) -> Payload { Payload::Other(json_id(x)) }
pub open spec fn p_hooks(hs: Seq<Addr>) -> Payload { j(addr_texts(hs)) }
pub open spec fn aq_collections(s: Storage, start: Option<Addr>, lim: nat, p: Payload) -> bool { exists|out: Seq<Addr>| #[trigger] q_collections(s, start, lim, out) && p == j(out) }
pub open spec fn aq_asks(s: Storage, c: Addr, inc: Option<bool>, o: Option<TokenId>, lim: nat, p: Payload) -> bool { exists|out: Seq<Ask>| #[trigger] q_asks(s, c, inc, o, lim, out) && p == j(out) }
pub open spec fn aq_asks_rev(s: Storage, c: Addr, inc: Option<bool>, o: Option<TokenId>, lim: nat, p: Payload) -> bool { exists|out: Seq<Ask>| #[trigger] q_asks_rev(s, c, inc, o, lim, out) && p == j(out) }
pub open spec fn aq_asks_price(s: Storage, c: Addr, inc: Option<bool>, o: Option<AskOffset>, lim: nat, p: Payload) -> bool { exists|out: Seq<Ask>| #[trigger] q_asks_price(s, c, inc, o, lim, out) && p == j(out) }
pub open spec fn aq_asks_price_rev(s: Storage, c: Addr, inc: Option<bool>, o: Option<AskOffset>, lim: nat, p: Payload) -> bool { exists|out: Seq<Ask>| #[trigger] q_asks_price_rev(s, c, inc, o, lim, out) && p == j(out) }
pub open spec fn aq_asks_seller(s: Storage, c: Addr, inc: Option<bool>, o: Option<CollectionOffset>, lim: nat, p: Payload) -> bool { exists|out: Seq<Ask>| #[trigger] q_asks_seller(s, c, inc, o, lim, out) && p == j(out) }
pub open spec fn aq_bids_bidder(s: Storage, c: Addr, o: Option<CollectionOffset>, lim: nat, p: Payload) -> bool { exists|out: Seq<Bid>| #[trigger] q_bids_bidder(s, c, o, lim, out) && p == j(out) }
pub open spec fn aq_bids(s: Storage, c: Addr, t: TokenId, o: Option<String>, lim: nat, p: Payload) -> bool { exists|out: Seq<Bid>| #[trigger] q_bids(s, c, t, o, lim, out) && p == j(out) }
pub open spec fn aq_bids_price(s: Storage, c: Addr, o: Option<BidOffset>, lim: nat, p: Payload) -> bool { exists|out: Seq<Bid>| #[trigger] q_bids_price(s, c, o, lim, out) && p == j(out) }
pub open spec fn aq_bids_price_rev(s: Storage, c: Addr, o: Option<BidOffset>, lim: nat, p: Payload) -> bool { exists|out: Seq<Bid>| #[trigger] q_bids_price_rev(s, c, o, lim, out) && p == j(out) }
pub open spec fn aq_bids_expiry(s: Storage, c: Addr, o: Option<CollectionOffset>, lim: nat, p: Payload) -> bool { exists|out: Seq<Bid>| #[trigger] q_bids_expiry(s, c, o, lim, out) && p == j(out) }
pub open spec fn aq_cbids_price(s: Storage, c: Addr, o: Option<CollectionBidOffset>, lim: nat, p: Payload) -> bool { exists|out: Seq<CollectionBid>| #[trigger] q_cbids_price(s, c, o, lim, out) && p == j(out) }
pub open spec fn aq_cbids_price_rev(s: Storage, c: Addr, o: Option<CollectionBidOffset>, lim: nat, p: Payload) -> bool { exists|out: Seq<CollectionBid>| #[trigger] q_cbids_price_rev(s, c, o, lim, out) && p == j(out) }
pub open spec fn aq_cbids_bidder(s: Storage, c: Addr, o: Option<CollectionOffset>, lim: nat, p: Payload) -> bool { exists|out: Seq<CollectionBid>| #[trigger] q_cbids_bidder(s, c, o, lim, out) && p == j(out) }
pub open spec fn aq_cbids_expiry(s: Storage, c: Addr, o: Option<CollectionBidOffset>, lim: nat, p: Payload) -> bool { exists|out: Seq<CollectionBid>| #[trigger] q_cbids_expiry(s, c, o, lim, out) && p == j(out) }
pub open spec fn query_ok(s: Storage, m: QueryMsg, p: Payload) -> bool {
    match m {
        QueryMsg::Collections { start_after, limit } => aq_collections(s, opt_to_addr(start_after), qlim(limit), p),
        QueryMsg::Ask { collection, token_id } => p == j(found(s.v1_asks@, (to_addr(collection), token_id))),
        QueryMsg::Asks { collection, include_inactive, start_after, limit } => aq_asks(s, to_addr(collection), include_inactive, start_after, qlim(limit), p),
        QueryMsg::ReverseAsks { collection, include_inactive, start_before, limit } => aq_asks_rev(s, to_addr(collection), include_inactive, start_before, qlim(limit), p),
        QueryMsg::AsksSortedByPrice { collection, include_inactive, start_after, limit } => aq_asks_price(s, to_addr(collection), include_inactive, start_after, qlim(limit), p),
        QueryMsg::ReverseAsksSortedByPrice { collection, include_inactive, start_before, limit } => aq_asks_price_rev(s, to_addr(collection), include_inactive, start_before, qlim(limit), p),
        QueryMsg::AskCount { collection } => p == j(ask_count(s, to_addr(collection)) as u32),
        QueryMsg::AsksBySeller { seller, include_inactive, start_after, limit } => aq_asks_seller(s, to_addr(seller), include_inactive, start_after, qlim(limit), p),
        QueryMsg::Bid { collection, token_id, bidder } => p == j(found(s.v1_bids@, (to_addr(collection), token_id, to_addr(bidder)))),
        QueryMsg::BidsByBidder { bidder, start_after, limit } => aq_bids_bidder(s, to_addr(bidder), start_after, qlim(limit), p),
        QueryMsg::BidsByBidderSortedByExpiration { bidder, start_after, limit } => aq_bids_expiry(s, to_addr(bidder), start_after, qlim(limit), p),
        QueryMsg::Bids { collection, token_id, start_after, limit } => aq_bids(s, to_addr(collection), token_id, start_after, qlim(limit), p),
        QueryMsg::BidsSortedByPrice { collection, start_after, limit } => aq_bids_price(s, to_addr(collection), start_after, qlim(limit), p),
        QueryMsg::ReverseBidsSortedByPrice { collection, start_before, limit } => aq_bids_price_rev(s, to_addr(collection), start_before, qlim(limit), p),
        QueryMsg::CollectionBid { collection, bidder } => p == j(found(s.v1_collection_bids@, (to_addr(collection), to_addr(bidder)))),
        QueryMsg::CollectionBidsByBidder { bidder, start_after, limit } => aq_cbids_bidder(s, to_addr(bidder), start_after, qlim(limit), p),
        QueryMsg::CollectionBidsByBidderSortedByExpiration { bidder, start_after, limit } => aq_cbids_expiry(s, to_addr(bidder), start_after, qlim(limit), p),
        QueryMsg::CollectionBidsSortedByPrice { collection, start_after, limit } => aq_cbids_price(s, to_addr(collection), start_after, qlim(limit), p),
        QueryMsg::ReverseCollectionBidsSortedByPrice { collection, start_before, limit } => aq_cbids_price_rev(s, to_addr(collection), start_before, qlim(limit), p),
        QueryMsg::AskHooks {} => p == p_hooks(s.v1_ASK_HOOKS@),
        QueryMsg::BidHooks {} => p == p_hooks(s.v1_BID_HOOKS@),
        QueryMsg::SaleHooks {} => p == p_hooks(s.v1_SALE_HOOKS@),
        QueryMsg::Params {} => s.v1_SUDO_PARAMS@ is Some && p == j(pp(s)),
    }
}
// walking the asks in key order, `out` names the collections of the first n, once each
pub open spec fn col_walk(s: Storage, start: Option<Addr>, it: Seq<Result<(AskKey, Ask), StdError>>, n: int, out: Seq<Addr>) -> bool {
    &&& forall|i: int, j: int| 0 <= i < j < it.len() ==> (#[trigger] it[i]) is Ok && (#[trigger] it[j]) is Ok && ((it[i]->Ok_0).0.0 == (it[j]->Ok_0).0.0 || Addr::plt((it[i]->Ok_0).0.0, (it[j]->Ok_0).0.0))
    &&& forall|i: int| 0 <= i < it.len() ==> (#[trigger] it[i]) is Ok && on_sale(s, start, (it[i]->Ok_0).0.0)
    &&& forall|c: Addr| #[trigger] on_sale(s, start, c) ==> exists|i: int| 0 <= i < it.len() && (#[trigger] it[i]) is Ok && (it[i]->Ok_0).0.0 == c
    &&& forall|i: int| 0 <= i < n ==> out.contains((#[trigger] it[i]->Ok_0).0.0)
    &&& forall|i: int| 0 <= i < out.len() ==> exists|k: int| 0 <= k < n && #[trigger] (it[k]->Ok_0).0.0 == #[trigger] out[i]
    &&& forall|i: int, j: int| 0 <= i < j < out.len() ==> Addr::plt(#[trigger] out[i], #[trigger] out[j])
    &&& n > 0 ==> out.len() > 0 && out[out.len() - 1] == (it[n - 1]->Ok_0).0.0
    &&& n == 0 ==> out.len() == 0
}
pub broadcast proof fn walk_start(s: Storage, start: Option<Addr>, r: RangeIter<AskKey, AskKey, Ask>, it: Seq<Result<(AskKey, Ask), StdError>>)
    requires #[trigger] r.items_ok(it), r.min@ is None, r.max@ is None, r.limit@ is None, r.order == asc(), forall|v: Ask| #[trigger] (r.keep@)(v), forall|k: AskKey, v: Ask| #[trigger] (r.key@)(k, v) == k,
        forall|k: AskKey| #[trigger] r.m@.dom().contains(k) <==> s.v1_asks@.dom().contains(k) && match start { Some(b) => Addr::plt(b, k.0), None => true },
        forall|k: AskKey| #[trigger] r.m@.dom().contains(k) ==> r.m@[k] == s.v1_asks@[k],
    ensures #[trigger] col_walk(s, start, it, 0, Seq::<Addr>::empty())
{
    let ks = choose|ks: Seq<AskKey>| #[trigger] r.listing(ks) && ks.len() == it.len() && forall|i: int| 0 <= i < ks.len() ==> #[trigger] it[i] == Ok::<(AskKey, Ask), StdError>((ks[i], r.m@[ks[i]]));
    assert forall|i: int| 0 <= i < it.len() implies (#[trigger] it[i]) is Ok && on_sale(s, start, (it[i]->Ok_0).0.0) by { assert(r.in_range(ks[i])); assert(s.v1_asks@.dom().contains((ks[i].0, ks[i].1))); }
    assert forall|i: int, j: int| 0 <= i < j < it.len() implies (#[trigger] it[i]) is Ok && (#[trigger] it[j]) is Ok && ((it[i]->Ok_0).0.0 == (it[j]->Ok_0).0.0 || Addr::plt((it[i]->Ok_0).0.0, (it[j]->Ok_0).0.0)) by {
        assert(before(r.order, (r.key@)(ks[i], r.m@[ks[i]]), (r.key@)(ks[j], r.m@[ks[j]])));
    }
    assert forall|c: Addr| #[trigger] on_sale(s, start, c) implies exists|i: int| 0 <= i < it.len() && (#[trigger] it[i]) is Ok && (it[i]->Ok_0).0.0 == c by {
        let t = choose|t: TokenId| #[trigger] s.v1_asks@.dom().contains((c, t));
        let k = (c, t);
        assert(r.m@.dom().contains(k)); assert((r.keep@)(r.m@[k])); assert(r.in_range(k));
        let i = choose|i: int| 0 <= i < ks.len() && ks[i] == k;
        assert(it[i] is Ok && (it[i]->Ok_0).0.0 == c);
    }
}
pub broadcast proof fn walk_step(s: Storage, start: Option<Addr>, it: Seq<Result<(AskKey, Ask), StdError>>, n: int, out: Seq<Addr>, c: Addr)
    requires #[trigger] col_walk(s, start, it, n, out), 0 <= n < it.len(), c == (it[n]->Ok_0).0.0,
    ensures out.len() > 0 && out[out.len() - 1] == c ==> col_walk(s, start, it, n + 1, out),
        !(out.len() > 0 && out[out.len() - 1] == c) ==> col_walk(s, start, it, n + 1, #[trigger] out.push(c)),
{
    broadcast use {axiom_str_plt_irrefl, axiom_str_plt_asym};
    if out.len() > 0 && out[out.len() - 1] == c {
        let o2 = out;
        assert forall|i: int| 0 <= i < n + 1 implies o2.contains((#[trigger] it[i]->Ok_0).0.0) by { if i == n { assert(o2[o2.len() - 1] == c); } }
        assert forall|i: int| 0 <= i < o2.len() implies exists|k: int| 0 <= k < n + 1 && #[trigger] (it[k]->Ok_0).0.0 == #[trigger] o2[i] by { let k = choose|k: int| 0 <= k < n && #[trigger] (it[k]->Ok_0).0.0 == out[i]; assert((it[k]->Ok_0).0.0 == o2[i]); }
    } else {
        let o2 = out.push(c);
        assert forall|i: int| 0 <= i < n + 1 implies o2.contains((#[trigger] it[i]->Ok_0).0.0) by {
            if i == n { assert(o2[out.len() as int] == c); } else { let q = choose|q: int| 0 <= q < out.len() && out[q] == (it[i]->Ok_0).0.0; assert(o2[q] == out[q]); }
        }
        assert forall|i: int| 0 <= i < o2.len() implies exists|k: int| 0 <= k < n + 1 && #[trigger] (it[k]->Ok_0).0.0 == #[trigger] o2[i] by {
            if i == out.len() { assert((it[n]->Ok_0).0.0 == o2[i]); } else { let k = choose|k: int| 0 <= k < n && #[trigger] (it[k]->Ok_0).0.0 == out[i]; assert((it[k]->Ok_0).0.0 == o2[i]); }
        }
        assert forall|i: int, j: int| 0 <= i < j < o2.len() implies Addr::plt(#[trigger] o2[i], #[trigger] o2[j]) by {
            if j == out.len() {
                let k = choose|k: int| 0 <= k < n && #[trigger] (it[k]->Ok_0).0.0 == out[i];
                assert(it[k] is Ok && it[n] is Ok && it[n - 1] is Ok);
                let l = (it[n - 1]->Ok_0).0.0;
                // k <= n - 1 < n: were it[k] of the same collection as it[n], it[n - 1] would be too
                if (it[k]->Ok_0).0.0 == c && k < n - 1 { assert(l == c || Addr::plt(l, c)); assert(c == l || Addr::plt(c, l)); }
            } else { assert(o2[i] == out[i] && o2[j] == out[j]); }
        }
    }
}
pub broadcast proof fn walk_end(s: Storage, start: Option<Addr>, it: Seq<Result<(AskKey, Ask), StdError>>, n: int, out: Seq<Addr>, lim: nat)
    requires #[trigger] col_walk(s, start, it, n, out), 0 <= n <= it.len(), out.len() <= lim, n == it.len() || out.len() == lim
    ensures #[trigger] q_collections(s, start, lim, out)
{
    broadcast use {axiom_str_plt_irrefl, axiom_str_plt_asym};
    assert forall|i: int| 0 <= i < out.len() implies on_sale(s, start, #[trigger] out[i]) by { let k = choose|k: int| 0 <= k < n && #[trigger] (it[k]->Ok_0).0.0 == out[i]; assert(it[k] is Ok); }
    assert forall|c: Addr| #[trigger] on_sale(s, start, c) implies out.contains(c) || (out.len() == lim && forall|i: int| 0 <= i < out.len() ==> Addr::plt(#[trigger] out[i], c)) by {
        let q = choose|i: int| 0 <= i < it.len() && (#[trigger] it[i]) is Ok && (it[i]->Ok_0).0.0 == c;
        if q < n { assert(out.contains((it[q]->Ok_0).0.0)); }
        else if !out.contains(c) {
            assert forall|i: int| 0 <= i < out.len() implies Addr::plt(#[trigger] out[i], c) by { let k = choose|k: int| 0 <= k < n && #[trigger] (it[k]->Ok_0).0.0 == out[i]; assert(it[k] is Ok && it[q] is Ok); if out[i] == c { assert(out.contains(out[i])); } }
        }
    }
}
pub broadcast proof fn count_listing(s: Storage, r: RangeIter<AskKey, AskKey, Ask>, c: Addr, ks: Seq<AskKey>)
    requires #[trigger] r.listing(ks), r.m@ == s.v1_asks@, r.min@ is None, r.max@ is None, r.limit@ is None, forall|v: Ask| #[trigger] (r.keep@)(v) == (v.collection == c),
        forall|k: AskKey, v: Ask| #[trigger] (r.key@)(k, v) == k,
    ensures ks.len() == #[trigger] ask_count(s, c)
{
    broadcast use {axiom_str_plt_irrefl, axiom_str_lt_irrefl};
    let m = s.v1_asks@;
    let f = m.dom().filter(|k: AskKey| m[k].collection == c);
    assert forall|k: AskKey| f.contains(k) <==> #[trigger] ks.contains(k) by {
        if f.contains(k) { assert((r.keep@)(m[k])); assert(r.in_range(k)); }
        if ks.contains(k) { let i = choose|i: int| 0 <= i < ks.len() && ks[i] == k; assert(r.in_range(ks[i])); }
    }
    assert(ks.to_set() =~= f);
    assert(ks.no_duplicates());
    ks.unique_seq_to_set();
}
pub broadcast group group_c1 { fee_facts, push_has, push_nodup, remove_has, remove_nodup, put_again, page_from, walk_start, walk_step, walk_end, count_listing }
