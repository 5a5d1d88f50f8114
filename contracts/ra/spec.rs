// Specification of the reserve auction, and of the library functions it calls.
use crate::mc::sale::*;
use crate::ra::state::*;
use crate::ra::msg::*;

// ------------------------------------------------------------------ libraries
pub open spec fn sends(m: SubMsg, to: Str, cs: Seq<Coin>) -> bool {
    m.reply_on is Never && match m.msg { CosmosMsg::Bank(BankMsg::Send { to_address, amount }) => to_address.g@ == to && amount@ =~= cs, _ => false }
}
pub open spec fn moves(m: SubMsg, c: Str, t: Str, to: Str) -> bool {
    m.reply_on is Never && match m.msg {
        CosmosMsg::Wasm(WasmMsg::Execute { contract_addr, msg, funds }) => contract_addr.g@ == c && funds@.len() == 0 && match msg.p@ { Payload::Cw721(Cw721ExecuteMsg::TransferNft { recipient, token_id }) => token_id.g@ == t && recipient.g@ == to, _ => false },
        _ => false,
    }
}
// one message was added that hands cs to the fair-burn contract
pub open spec fn burnt(a: Seq<SubMsg>, b: Seq<SubMsg>, to: Str, cs: Seq<Coin>, plain: bool) -> bool {
    &&& forall|x: Str, d: Str| #[trigger] paid(b, x, d) == paid(a, x, d) + (if x == to { coins_amt(cs, d) } else { 0 })
    &&& forall|d: Str| #[trigger] paid_all(b, d) == paid_all(a, d) + coins_amt(cs, d)
    &&& nfts(b) == nfts(a)
    &&& all_atomic(b) == all_atomic(a)
    &&& no_zero_sends(b) == (no_zero_sends(a) && nonzero(cs))
    &&& fb_plain(b) == (fb_plain(a) && plain)
}
pub open spec fn owns(w: QuerierWrapper, c: Str, t: Str, who: Str) -> bool {
    match smart_answer::<OwnerOfResponse>(w, c, Query::OwnerOf { token: t, expired: false }) { Some(o) => o.owner.g@ == who, None => false }
}
pub open spec fn tradable(w: QuerierWrapper, c: Str, now: u64) -> bool {
    match smart_answer::<CollectionInfoResponse>(w, c, Query::CollectionInfo) { Some(i) => match i.start_trading_time { Some(t) => t.n <= now, None => true }, None => true }
}
// the collection's royalty: recipient and share
pub open spec fn royalty_known(w: QuerierWrapper, c: Str) -> bool {
    match smart_answer::<CollectionInfoResponse>(w, c, Query::CollectionInfo) { Some(i) => match i.royalty_info { Some(x) => addr_ok(x.payment_address.g@), None => true }, None => false }
}
pub open spec fn royalty_sp(w: QuerierWrapper, c: Str) -> Option<(Str, int)> {
    match smart_answer::<CollectionInfoResponse>(w, c, Query::CollectionInfo) { Some(i) => match i.royalty_info { Some(x) => Some((x.payment_address.g@, x.share.a as int)), None => None }, None => None }
}
pub open spec fn roy_sp(x: Option<RoyaltyInfo>) -> Option<(Str, int)> { match x { Some(x) => Some((x.payment_address.g@, x.share.a as int)), None => None } }
pub open spec fn fnd_sp(a: Option<&Addr>, p: Option<Decimal>) -> Option<(Str, int)> { match a { Some(x) => Some((x.g@, p->0.a as int)), None => None } }
pub open spec fn share_of(a: int, x: Option<(Str, int)>) -> int { match x { Some(x) => mul_ceil_sp(a, x.1), None => 0 } }
pub open spec fn fees_fit(c: Coin, tf: int, f: Option<(Str, int)>, r: Option<(Str, int)>) -> bool {
    let a = c.amount.v as int; mul_ceil_sp(a, tf) + share_of(a, f) + share_of(a, r) <= a
}
pub open spec fn at(to: Str, who: Str, amt: int) -> int { if to == who { amt } else { 0 } }
pub open spec fn share_at(a: int, x: Option<(Str, int)>, to: Str) -> int { match x { Some(x) => at(to, x.0, mul_ceil_sp(a, x.1)), None => 0 } }
// trading fee, finder, royalty, each rounded up; the remainder to the seller
pub open spec fn payout_to(c: Coin, seller: Str, fb: Str, tf: int, f: Option<(Str, int)>, r: Option<(Str, int)>, to: Str, d: Str) -> int {
    let a = c.amount.v as int;
    if d != c.denom.g@ { 0 } else { at(to, fb, mul_ceil_sp(a, tf)) + share_at(a, f, to) + share_at(a, r, to) + at(to, seller, a - mul_ceil_sp(a, tf) - share_of(a, f) - share_of(a, r)) }
}
pub open spec fn tp_one(p: TokenPayment, to: Str, d: Str) -> int { if p.recipient.g@ == to { coin_amt(p.coin, d) } else { 0 } }
pub open spec fn tp_n(ps: Seq<TokenPayment>, n: int, to: Str, d: Str) -> int decreases n { if n <= 0 { 0 } else { tp_n(ps, n - 1, to, d) + tp_one(ps[n - 1], to, d) } }
pub open spec fn tpall_n(ps: Seq<TokenPayment>, n: int, d: Str) -> int decreases n { if n <= 0 { 0 } else { tpall_n(ps, n - 1, d) + coin_amt(ps[n - 1].coin, d) } }
pub proof fn tp_n_push(ps: Seq<TokenPayment>, p: TokenPayment, n: int, to: Str, d: Str) requires n <= ps.len() ensures tp_n(ps.push(p), n, to, d) == tp_n(ps, n, to, d) decreases n { if n > 0 { tp_n_push(ps, p, n - 1, to, d); } }
pub proof fn tpall_n_push(ps: Seq<TokenPayment>, p: TokenPayment, n: int, d: Str) requires n <= ps.len() ensures tpall_n(ps.push(p), n, d) == tpall_n(ps, n, d) decreases n { if n > 0 { tpall_n_push(ps, p, n - 1, d); } }
pub broadcast proof fn tp_push(ps: Seq<TokenPayment>, p: TokenPayment, n: int, to: Str, d: Str) requires n == ps.len() + 1 ensures #[trigger] tp_n(ps.push(p), n, to, d) == tp_n(ps, n - 1, to, d) + tp_one(p, to, d) { tp_n_push(ps, p, ps.len() as int, to, d); }
pub broadcast proof fn tpall_push(ps: Seq<TokenPayment>, p: TokenPayment, n: int, d: Str) requires n == ps.len() + 1 ensures #[trigger] tpall_n(ps.push(p), n, d) == tpall_n(ps, n - 1, d) + coin_amt(p.coin, d) { tpall_n_push(ps, p, ps.len() as int, d); }

// ------------------------------------------------------------------ state
pub type Key = (Addr, String);
impl Priced for Auction { open spec fn owed(self, d: Str) -> int { match self.high_bid { Some(b) => coin_amt(b.coin, d), None => 0 } } }
// what the contract holds in escrow for the high bidders
pub open spec fn esc(s: Storage, d: Str) -> int { psum(s.ra_auctions@, d) }
pub open spec fn secs(t: Timestamp) -> int { t.seconds_sp() as int }
pub open spec fn plus(t: Timestamp, s: u64) -> Timestamp { Timestamp { n: (t.n as int + s as int * 1_000_000_000) as u64 } }
// the moment exists (u64 nanoseconds)
pub open spec fn later(t: Timestamp, s: u64) -> bool { t.n as int + s as int * 1_000_000_000 <= u64::MAX }
pub open spec fn akey(a: Auction) -> Key { (a.collection, a.token_id) }
pub open spec fn cfg(s: Storage) -> Config { s.ra_CONFIG@->0 }
pub open spec fn hm(s: Storage) -> HaltManager { s.ra_HALT_MANAGER@->0 }
pub open spec fn cfg_ok(c: Config) -> bool { 0 < c.min_bid_increment_percent.a < ONE_DEC && c.min_duration > 0 && c.extend_duration > 0 }
pub open spec fn inv_cfg(s: Storage) -> bool { s.ra_CONFIG@ is Some && cfg_ok(cfg(s)) }
pub open spec fn inv_halt(s: Storage) -> bool { s.ra_HALT_MANAGER@ is Some }
pub open spec fn key_ok(k: Key, a: Auction) -> bool { akey(a) == k && addr_ok(a.collection.g@) }
pub open spec fn clock_ok(a: Auction) -> bool { (a.end_time is Some <==> a.high_bid is Some) && (a.first_bid_time is Some <==> a.high_bid is Some) }
pub open spec fn bid_ok(a: Auction) -> bool { a.high_bid is Some ==> a.high_bid->0.coin.amount.v > 0 && a.high_bid->0.coin.denom == a.reserve_price.denom }
pub open spec fn auction_ok(k: Key, a: Auction) -> bool { key_ok(k, a) && clock_ok(a) && bid_ok(a) }
pub open spec fn inv_key(s: Storage) -> bool { forall|k: Key| #[trigger] s.ra_auctions@.dom().contains(k) ==> key_ok(k, s.ra_auctions@[k]) }
pub open spec fn inv_clock(s: Storage) -> bool { forall|k: Key| #[trigger] s.ra_auctions@.dom().contains(k) ==> clock_ok(s.ra_auctions@[k]) }
pub open spec fn inv_bid(s: Storage) -> bool { forall|k: Key| #[trigger] s.ra_auctions@.dom().contains(k) ==> bid_ok(s.ra_auctions@[k]) }
pub open spec fn inv(s: Storage) -> bool { inv_cfg(s) && inv_halt(s) && inv_key(s) && inv_clock(s) && inv_bid(s) }
pub open spec fn to_addr(s: String) -> Addr { Addr { g: s.g } }
pub open spec fn opt_to_addr(s: Option<String>) -> Option<Addr> { match s { Some(x) => Some(to_addr(x)), None => None } }

// one accepted call: state before and after, messages, and what it was called with
pub struct Tx { pub s: Storage, pub s2: Storage, pub ms: Seq<SubMsg>, pub w: QuerierWrapper, pub me: Str, pub now: Timestamp, pub who: Str, pub funds: Seq<Coin> }
pub open spec fn live_a(t: Tx, k: Key) -> bool { t.s.ra_auctions@.dom().contains(k) }
pub open spec fn old_a(t: Tx, k: Key) -> Auction { t.s.ra_auctions@[k] }
pub open spec fn with_auctions(s: Storage, m: Map<Key, Auction>) -> Storage { Storage { ra_auctions: Ghost(m), ..s } }
pub open spec fn quiet(ms: Seq<SubMsg>) -> bool { (forall|to: Str, d: Str| #[trigger] paid(ms, to, d) == 0) && nfts(ms) == Seq::<NftMove>::empty() }

// funds in = funds out + change of the escrow
pub open spec fn g_funds(t: Tx) -> bool {
    &&& forall|d: Str| #[trigger] esc(t.s2, d) + paid_all(t.ms, d) == esc(t.s, d) + coins_amt(t.funds, d)
    &&& all_atomic(t.ms)
    &&& cfg(t.s).trading_fee_percent.a > 0 ==> no_zero_sends(t.ms)
}
// an asset moves in exactly when its auction is created, out exactly when its auction is removed
pub open spec fn mv_of(k: Key, to: Str) -> NftMove { NftMove { collection: k.0.g@, token: k.1.g@, to } }
pub open spec fn is_mv(x: NftMove, k: Key) -> bool { x.collection == k.0.g@ && x.token == k.1.g@ }
pub open spec fn mv_any(ns: Seq<NftMove>, k: Key) -> bool { exists|i: int| 0 <= i < ns.len() && is_mv(#[trigger] ns[i], k) }
pub open spec fn mv_to(ns: Seq<NftMove>, k: Key, to: Str) -> bool { exists|i: int| 0 <= i < ns.len() && #[trigger] ns[i] == mv_of(k, to) }
pub broadcast proof fn one_move(x: NftMove) ensures #[trigger] Seq::<NftMove>::empty().push(x) == seq![x], seq![x][0] == x {}
pub open spec fn g_custody(t: Tx) -> bool {
    &&& forall|k: Key| #[trigger] t.s.ra_auctions@.dom().contains(k) && !t.s2.ra_auctions@.dom().contains(k) ==> mv_any(nfts(t.ms), k)
    &&& forall|k: Key| #[trigger] t.s2.ra_auctions@.dom().contains(k) && !t.s.ra_auctions@.dom().contains(k) ==> mv_to(nfts(t.ms), k, t.me)
    &&& forall|k: Key, i: int| #![trigger t.s2.ra_auctions@.dom().contains(k), nfts(t.ms)[i]] 0 <= i < nfts(t.ms).len() && t.s2.ra_auctions@.dom().contains(k) && is_mv(nfts(t.ms)[i], k) ==> !t.s.ra_auctions@.dom().contains(k) && nfts(t.ms)[i].to == t.me
}
pub open spec fn end_same(m: Map<Key, Auction>, k: Key, a: Auction) -> bool { m.dom().contains(k) && m[k].end_time == a.end_time }
// an end changes only to a time not before now
pub open spec fn ends_ok(m: Map<Key, Auction>, m2: Map<Key, Auction>, now: Timestamp) -> bool {
    forall|k: Key| #[trigger] m2.dom().contains(k) && m2[k].end_time is Some ==> end_same(m, k, m2[k]) || secs(m2[k].end_time->0) >= secs(now)
}
pub open spec fn g_clock(t: Tx) -> bool { ends_ok(t.s.ra_auctions@, t.s2.ra_auctions@, t.now) && t.s2.ra_HALT_MANAGER == t.s.ra_HALT_MANAGER }

// ------------------------------------------------------------------ creating, repricing, cancelling
pub open spec fn price_ok(s: Storage, p: Coin) -> bool { s.ra_MIN_RESERVE_PRICES@.dom().contains(p.denom) && p.amount.v >= s.ra_MIN_RESERVE_PRICES@[p.denom].v }
pub open spec fn new_auction(c: Addr, tk: String, seller: Str, p: Coin, dur: u64, rec: Option<Addr>) -> Auction {
    Auction { collection: c, token_id: tk, seller: Addr { g: Ghost(seller) }, reserve_price: p, duration: dur, end_time: None, seller_funds_recipient: rec, high_bid: None, first_bid_time: None }
}
pub open spec fn create_ok(t: Tx, c: Addr, tk: Str, p: Coin, dur: u64) -> bool {
    &&& owns(t.w, c.g@, tk, t.who)
    &&& smart_answer::<ApprovalResponse>(t.w, c.g@, Query::Approval { token: tk, spender: t.me, expired: false }) is Some
    &&& !live_a(t, (c, String { g: Ghost(tk) }))
    &&& tradable(t.w, c.g@, t.now.n)
    &&& price_ok(t.s, p)
    &&& cfg(t.s).min_duration <= dur <= cfg(t.s).max_duration
}
pub open spec fn create_new(t: Tx, c: Addr, tk: Str, p: Coin, dur: u64, rec: Option<Addr>) -> bool {
    t.s2 == with_auctions(t.s, t.s.ra_auctions@.insert((c, String { g: Ghost(tk) }), new_auction(c, String { g: Ghost(tk) }, t.who, p, dur, rec)))
}
pub open spec fn create_fee(t: Tx) -> bool {
    let fee = cfg(t.s).create_auction_fee;
    &&& if fee.amount.v == 0 { t.funds.len() == 0 } else { t.funds.len() == 1 && t.funds[0] == fee }
    &&& forall|to: Str, d: Str| #[trigger] paid(t.ms, to, d) == (if to == cfg(t.s).fair_burn.g@ { coins_amt(t.funds, d) } else { 0 })
    &&& fb_plain(t.ms)
}
pub open spec fn create_nft(t: Tx, c: Addr, tk: Str) -> bool { nfts(t.ms) =~= seq![NftMove { collection: c.g@, token: tk, to: t.me }] }
pub open spec fn idle_own(t: Tx, k: Key) -> bool { t.funds.len() == 0 && live_a(t, k) && old_a(t, k).seller.g@ == t.who && old_a(t, k).first_bid_time is None }
pub open spec fn reprice_ok(t: Tx, k: Key, p: Coin) -> bool { idle_own(t, k) && price_ok(t.s, p) && t.s2 == with_auctions(t.s, t.s.ra_auctions@.insert(k, Auction { reserve_price: p, ..old_a(t, k) })) }
pub open spec fn cancel_ok(t: Tx, k: Key) -> bool { idle_own(t, k) && t.s2 == with_auctions(t.s, t.s.ra_auctions@.remove(k)) }
pub open spec fn cancel_nft(t: Tx, k: Key) -> bool { nfts(t.ms) =~= seq![mv_of(k, old_a(t, k).seller.g@)] }
pub open spec fn pays_none(t: Tx) -> bool { forall|to: Str, d: Str| #[trigger] paid(t.ms, to, d) == 0 }

// ------------------------------------------------------------------ bidding
// the reserve for the first bid, else the high bid plus the increment, rounded up
pub open spec fn min_bid(a: Auction, c: Config) -> int { match a.high_bid { Some(b) => mul_ceil_sp(b.coin.amount.v as int, ONE_DEC + c.min_bid_increment_percent.a), None => a.reserve_price.amount.v as int } }
pub open spec fn bid_of(t: Tx, a: Auction) -> HighBid { HighBid { coin: Coin { denom: a.reserve_price.denom, amount: t.funds[0].amount }, bidder: Addr { g: Ghost(t.who) } } }
pub open spec fn bid_accept(t: Tx, k: Key) -> bool {
    let a = old_a(t, k);
    &&& live_a(t, k)
    &&& t.funds.len() == 1 && t.funds[0].amount.v > 0 && t.funds[0].denom.g@ == a.reserve_price.denom.g@
    &&& t.funds[0].amount.v >= min_bid(a, cfg(t.s))
    &&& a.high_bid is Some ==> t.funds[0].amount.v > a.high_bid->0.coin.amount.v
    &&& a.seller.g@ != t.who
}
pub open spec fn bid_live(t: Tx, k: Key) -> bool { old_a(t, k).end_time is Some ==> secs(old_a(t, k).end_time->0) > secs(t.now) }
pub open spec fn bid_high(t: Tx, k: Key) -> bool { t.s2.ra_auctions@.dom().contains(k) && t.s2.ra_auctions@[k].high_bid == Some(bid_of(t, old_a(t, k))) }
pub open spec fn bid_end(t: Tx, a: Auction) -> Timestamp {
    if a.first_bid_time is None { plus(t.now, a.duration) }
    else if secs(a.end_time->0) - secs(t.now) < cfg(t.s).extend_duration { plus(t.now, cfg(t.s).extend_duration) }
    else { a.end_time->0 }
}
pub open spec fn bid_clock(t: Tx, k: Key) -> bool {
    let (a, b) = (old_a(t, k), t.s2.ra_auctions@[k]);
    &&& b.end_time == Some(bid_end(t, a))
    &&& b.first_bid_time == (if a.first_bid_time is None { Some(t.now) } else { a.first_bid_time })
    &&& a.end_time is Some ==> a.end_time->0.n <= b.end_time->0.n
}
// nothing else of the auction, and no other auction, changes
pub open spec fn bid_frame(t: Tx, k: Key) -> bool {
    let (a, b) = (old_a(t, k), t.s2.ra_auctions@[k]);
    t.s2 == with_auctions(t.s, t.s.ra_auctions@.insert(k, Auction { end_time: b.end_time, first_bid_time: b.first_bid_time, high_bid: b.high_bid, ..a }))
}
pub open spec fn bid_refund(t: Tx, k: Key) -> bool {
    forall|to: Str, d: Str| #[trigger] paid(t.ms, to, d) == (match old_a(t, k).high_bid { Some(b) => at(to, b.bidder.g@, coin_amt(b.coin, d)), None => 0 })
}
pub broadcast proof fn raised(v: int, a: int) requires v > 0, a > ONE_DEC ensures #[trigger] mul_ceil_sp(v, a) > v {
    assert(v * a >= v * ONE_DEC + 1) by (nonlinear_arith) requires v > 0, a > ONE_DEC;
    assert((v * ONE_DEC + ONE_DEC) / ONE_DEC == v + 1) by (nonlinear_arith);
    assert((v * a + ONE_DEC - 1) / ONE_DEC >= (v * ONE_DEC + ONE_DEC) / ONE_DEC) by (nonlinear_arith) requires v * a >= v * ONE_DEC + 1;
}

// ------------------------------------------------------------------ settling
pub open spec fn due_at(a: Auction, s: int) -> bool { a.end_time is Some && secs(a.end_time->0) <= s }
pub open spec fn in_window(x: HaltWindow, e: int) -> bool { x.start_time < e && e < x.end_time }
pub open spec fn halted(h: HaltManager, e: int) -> bool { exists|i: int| 0 <= i < h.halt_windows@.len() && in_window(#[trigger] h.halt_windows@[i], e) }
pub open spec fn a_halted(h: HaltManager, a: Auction) -> bool { halted(h, secs(a.end_time->0)) }
pub open spec fn postponed(a: Auction, now: Timestamp, c: Config) -> Auction { Auction { end_time: Some(plus(now, c.halt_postpone_duration)), ..a } }
pub open spec fn recip(a: Auction) -> Str { match a.seller_funds_recipient { Some(x) => x.g@, None => a.seller.g@ } }
// a settlement that cannot be paid out: no royalty answer, or fees above the bid
pub open spec fn blocked(w: QuerierWrapper, c: Config, a: Auction) -> bool {
    !royalty_known(w, a.collection.g@) || !fees_fit(a.high_bid->0.coin, c.trading_fee_percent.a as int, None, royalty_sp(w, a.collection.g@))
}
pub open spec fn win_pay(w: QuerierWrapper, c: Config, a: Auction, to: Str, d: Str) -> int {
    payout_to(a.high_bid->0.coin, recip(a), c.fair_burn.g@, c.trading_fee_percent.a as int, None, royalty_sp(w, a.collection.g@), to, d)
}
pub open spec fn win_move(a: Auction) -> NftMove { mv_of(akey(a), a.high_bid->0.bidder.g@) }
pub open spec fn settle_state(t: Tx, k: Key) -> bool {
    let a = old_a(t, k);
    t.s2 == with_auctions(t.s, if a_halted(hm(t.s), a) { t.s.ra_auctions@.insert(k, postponed(a, t.now, cfg(t.s))) } else { t.s.ra_auctions@.remove(k) })
}
pub open spec fn settle_pay(t: Tx, k: Key) -> bool {
    let a = old_a(t, k);
    &&& forall|to: Str, d: Str| #[trigger] paid(t.ms, to, d) == (if a_halted(hm(t.s), a) { 0 } else { win_pay(t.w, cfg(t.s), a, to, d) })
    &&& fb_plain(t.ms)
}
pub open spec fn settle_nft(t: Tx, k: Key) -> bool {
    nfts(t.ms) =~= (if a_halted(hm(t.s), old_a(t, k)) { Seq::<NftMove>::empty() } else { seq![win_move(old_a(t, k))] })
}

// ------------------------------------------------------------------ blocks
pub open spec fn end_key(a: Auction) -> u64 { match a.end_time { Some(t) => t.seconds_sp(), None => u64::MAX } }
// a's end comes before b's (ties by key)
pub open spec fn sooner(m: Map<Key, Auction>, a: Key, b: Key) -> bool { <(u64, (Addr, String)) as KeyOrd>::klt((end_key(m[a]), a), (end_key(m[b]), b)) }
// the due auctions, earliest end first, cut at the limit
pub open spec fn due_list(m: Map<Key, Auction>, s: int, limit: nat, xs: Seq<Key>) -> bool {
    &&& forall|i: int| 0 <= i < xs.len() ==> m.dom().contains(#[trigger] xs[i]) && due_at(m[xs[i]], s)
    &&& forall|i: int, j: int| 0 <= i < j < xs.len() ==> sooner(m, #[trigger] xs[i], #[trigger] xs[j])
    &&& xs.len() <= limit
    &&& forall|k: Key| #[trigger] m.dom().contains(k) && due_at(m[k], s) ==> xs.contains(k) || (xs.len() == limit && forall|i: int| 0 <= i < xs.len() ==> sooner(m, #[trigger] xs[i], k))
}
pub open spec fn lists(m: Map<Key, Auction>, s: int, limit: nat, xs: Seq<Key>, out: Seq<Auction>) -> bool { due_list(m, s, limit, xs) && xs.len() == out.len() && forall|i: int| 0 <= i < xs.len() ==> #[trigger] out[i] == m[xs[i]] }
// the due list is determined by the auctions, the time and the limit
pub open spec fn due(m: Map<Key, Auction>, s: int, limit: nat) -> Seq<Key> { choose|xs: Seq<Key>| due_list(m, s, limit, xs) }
pub proof fn sooner_asym(m: Map<Key, Auction>, a: Key, b: Key) requires sooner(m, a, b) ensures !sooner(m, b, a), a != b { broadcast use {axiom_str_lt_asym, axiom_str_lt_irrefl, axiom_str_plt_asym, axiom_str_plt_irrefl}; }
pub proof fn due_prefix(m: Map<Key, Auction>, s: int, limit: nat, xs: Seq<Key>, ys: Seq<Key>, n: int)
    requires due_list(m, s, limit, xs), due_list(m, s, limit, ys), 0 <= n <= xs.len(), n <= ys.len()
    ensures forall|i: int| 0 <= i < n ==> xs[i] == ys[i]
    decreases n
{
    if n > 0 {
        due_prefix(m, s, limit, xs, ys, n - 1);
        if xs[n - 1] != ys[n - 1] {
            due_before(m, s, limit, xs, ys, n - 1); due_before(m, s, limit, ys, xs, n - 1);
            sooner_asym(m, xs[n - 1], ys[n - 1]);
        }
    }
}
// where two due lists first differ, each has the sooner key
pub proof fn due_before(m: Map<Key, Auction>, s: int, limit: nat, xs: Seq<Key>, ys: Seq<Key>, n: int)
    requires due_list(m, s, limit, xs), due_list(m, s, limit, ys), 0 <= n < xs.len(), n < ys.len(), xs[n] != ys[n], forall|i: int| 0 <= i < n ==> xs[i] == ys[i]
    ensures sooner(m, ys[n], xs[n])
{
    assert(m.dom().contains(xs[n]) && due_at(m[xs[n]], s));
    if ys.contains(xs[n]) {
        let p = choose|p: int| 0 <= p < ys.len() && #[trigger] ys[p] == xs[n];
        if p < n { assert(xs[p] == xs[n]); assert(sooner(m, xs[p], xs[n])); sooner_asym(m, xs[p], xs[n]); }
        assert(sooner(m, ys[n], ys[p]));
    }
}
pub proof fn due_len(m: Map<Key, Auction>, s: int, limit: nat, xs: Seq<Key>, ys: Seq<Key>)
    requires due_list(m, s, limit, xs), due_list(m, s, limit, ys)
    ensures ys.len() <= xs.len()
{
    let n = xs.len() as int;
    if n < ys.len() {
        due_prefix(m, s, limit, xs, ys, n);
        assert(m.dom().contains(ys[n]) && due_at(m[ys[n]], s));
        assert(xs.contains(ys[n]));
        let p = choose|p: int| 0 <= p < n && #[trigger] xs[p] == ys[n];
        assert(ys[p] == xs[p]); assert(sooner(m, ys[p], ys[n])); sooner_asym(m, ys[p], ys[n]);
    }
}
pub proof fn due_is(m: Map<Key, Auction>, s: int, limit: nat, xs: Seq<Key>) requires due_list(m, s, limit, xs) ensures due_list(m, s, limit, due(m, s, limit)), xs == due(m, s, limit)
{
    let ys = due(m, s, limit);
    due_len(m, s, limit, xs, ys); due_len(m, s, limit, ys, xs); due_prefix(m, s, limit, xs, ys, xs.len() as int);
    assert(xs =~= ys);
}
pub open spec fn is_due(m: Map<Key, Auction>, s: int, limit: nat, out: Seq<Auction>) -> bool { lists(m, s, limit, due(m, s, limit), out) }
pub broadcast proof fn due_from(r: RangeIter<(u64, (Addr, String)), Key, Auction>, out: Seq<Auction>)
    requires #[trigger] r.values_ok(out), r.order is Ascending, r.min@ is None, r.limit@ is Some,
        r.max@ is Some, r.max@->0 is Exclusive, r.max@->0->Exclusive_0.1.0.g@ == Seq::<char>::empty(), r.max@->0->Exclusive_0.1.1.g@ == Seq::<char>::empty(), r.max@->0->Exclusive_0.0 < u64::MAX,
        forall|v: Auction| #[trigger] (r.keep@)(v), forall|k: Key, v: Auction| #[trigger] (r.key@)(k, v) == (end_key(v), k),
    ensures is_due(r.m@, r.max@->0->Exclusive_0.0 - 1, r.limit@->0, out)
{
    broadcast use {axiom_str_lt_empty, axiom_str_plt_empty};
    let (m, s, limit) = (r.m@, r.max@->0->Exclusive_0.0 - 1, r.limit@->0);
    let ks = choose|ks: Seq<Key>| #[trigger] r.listing(ks) && ks.len() == out.len() && forall|i: int| 0 <= i < ks.len() ==> #[trigger] out[i] == r.m@[ks[i]];
    assert forall|i: int| 0 <= i < ks.len() implies m.dom().contains(#[trigger] ks[i]) && due_at(m[ks[i]], s) by { assert(r.in_range(ks[i])); assert((r.key@)(ks[i], m[ks[i]]) == (end_key(m[ks[i]]), ks[i])); }
    assert forall|i: int, j: int| 0 <= i < j < ks.len() implies sooner(m, #[trigger] ks[i], #[trigger] ks[j]) by { assert((r.key@)(ks[i], m[ks[i]]) == (end_key(m[ks[i]]), ks[i])); assert((r.key@)(ks[j], m[ks[j]]) == (end_key(m[ks[j]]), ks[j])); }
    assert forall|k: Key| #[trigger] m.dom().contains(k) && due_at(m[k], s) implies ks.contains(k) || (ks.len() == limit && forall|i: int| 0 <= i < ks.len() ==> sooner(m, #[trigger] ks[i], k)) by {
        assert((r.keep@)(m[k])); assert((r.key@)(k, m[k]) == (end_key(m[k]), k)); assert(r.in_range(k));
        if !ks.contains(k) { assert forall|i: int| 0 <= i < ks.len() implies sooner(m, #[trigger] ks[i], k) by { assert((r.key@)(ks[i], m[ks[i]]) == (end_key(m[ks[i]]), ks[i])); } }
    }
    assert(lists(m, s, limit, ks, out));
    due_is(m, s, limit, ks);
}
// the effect of settling xs[0..n] in order
pub open spec fn st_n(m: Map<Key, Auction>, xs: Seq<Key>, n: int, now: Timestamp, c: Config, h: HaltManager) -> Map<Key, Auction> decreases n {
    if n <= 0 { m } else { let k = xs[n - 1]; let p = st_n(m, xs, n - 1, now, c, h); if a_halted(h, m[k]) { p.insert(k, postponed(m[k], now, c)) } else { p.remove(k) } }
}
pub open spec fn pay_n(m: Map<Key, Auction>, xs: Seq<Key>, n: int, c: Config, h: HaltManager, w: QuerierWrapper, to: Str, d: Str) -> int decreases n {
    if n <= 0 { 0 } else { pay_n(m, xs, n - 1, c, h, w, to, d) + (if a_halted(h, m[xs[n - 1]]) { 0 } else { win_pay(w, c, m[xs[n - 1]], to, d) }) }
}
pub open spec fn out_n(m: Map<Key, Auction>, xs: Seq<Key>, n: int, h: HaltManager, d: Str) -> int decreases n {
    if n <= 0 { 0 } else { out_n(m, xs, n - 1, h, d) + (if a_halted(h, m[xs[n - 1]]) { 0 } else { m[xs[n - 1]].owed(d) }) }
}
pub open spec fn mv_n(m: Map<Key, Auction>, xs: Seq<Key>, n: int, h: HaltManager) -> Seq<NftMove> decreases n {
    if n <= 0 { Seq::empty() } else if a_halted(h, m[xs[n - 1]]) { mv_n(m, xs, n - 1, h) } else { mv_n(m, xs, n - 1, h).push(win_move(m[xs[n - 1]])) }
}
pub proof fn same_key(a: Key, b: Key) requires a.0.g@ == b.0.g@, a.1.g@ == b.1.g@ ensures a == b {}
pub proof fn sooner_irr(m: Map<Key, Auction>, a: Key) ensures !sooner(m, a, a) { broadcast use {axiom_str_lt_irrefl, axiom_str_plt_irrefl}; }
pub open spec fn settled(m: Map<Key, Auction>, q: Map<Key, Auction>, k: Key, now: Timestamp, c: Config, h: HaltManager) -> bool { (q.dom().contains(k) <==> a_halted(h, m[k])) && (a_halted(h, m[k]) ==> q[k] == postponed(m[k], now, c)) }
pub proof fn st_facts(m: Map<Key, Auction>, xs: Seq<Key>, n: int, now: Timestamp, c: Config, h: HaltManager, s: int, limit: nat)
    requires due_list(m, s, limit, xs), 0 <= n <= xs.len()
    ensures
        forall|k: Key| !xs.take(n).contains(k) ==> (#[trigger] st_n(m, xs, n, now, c, h).dom().contains(k) <==> m.dom().contains(k)) && st_n(m, xs, n, now, c, h)[k] == m[k],
        forall|i: int| 0 <= i < n ==> settled(m, st_n(m, xs, n, now, c, h), #[trigger] xs[i], now, c, h),
        n < xs.len() ==> !xs.take(n).contains(xs[n]),
    decreases n
{
    if n < xs.len() {
        if xs.take(n).contains(xs[n]) { let i = choose|i: int| 0 <= i < n && #[trigger] xs.take(n)[i] == xs[n]; assert(sooner(m, xs[i], xs[n])); sooner_irr(m, xs[n]); }
    }
    if n > 0 {
        st_facts(m, xs, n - 1, now, c, h, s, limit);
        let (p, q, x) = (st_n(m, xs, n - 1, now, c, h), st_n(m, xs, n, now, c, h), xs[n - 1]);
        assert forall|k: Key| !xs.take(n).contains(k) implies (#[trigger] q.dom().contains(k) <==> m.dom().contains(k)) && q[k] == m[k] by {
            if xs.take(n - 1).contains(k) { let i = choose|i: int| 0 <= i < n - 1 && #[trigger] xs.take(n - 1)[i] == k; assert(xs.take(n)[i] == k); }
            assert(p.dom().contains(k) <==> m.dom().contains(k));
            if k == x { assert(xs.take(n)[n - 1] == x); }
        }
        assert forall|i: int| 0 <= i < n implies settled(m, q, #[trigger] xs[i], now, c, h) by {
            if i < n - 1 { assert(settled(m, p, xs[i], now, c, h)); if xs[i] == x { assert(sooner(m, xs[i], xs[n - 1])); sooner_irr(m, x); } }
        }
    }
}
pub proof fn st_sum(m: Map<Key, Auction>, xs: Seq<Key>, n: int, now: Timestamp, c: Config, h: HaltManager, s: int, limit: nat, d: Str)
    requires due_list(m, s, limit, xs), 0 <= n <= xs.len()
    ensures psum(st_n(m, xs, n, now, c, h), d) == psum(m, d) - out_n(m, xs, n, h, d)
    decreases n
{
    broadcast use group_sums;
    if n > 0 {
        st_sum(m, xs, n - 1, now, c, h, s, limit, d);
        st_facts(m, xs, n - 1, now, c, h, s, limit);
        assert(m.dom().contains(xs[n - 1]));
        assert(st_n(m, xs, n - 1, now, c, h).dom().contains(xs[n - 1]));
        assert(postponed(m[xs[n - 1]], now, c).owed(d) == m[xs[n - 1]].owed(d));
    }
}
pub open spec fn won(m: Map<Key, Auction>, xs: Seq<Key>, n: int, h: HaltManager, x: NftMove) -> bool { exists|i: int| 0 <= i < n && !a_halted(h, m[#[trigger] xs[i]]) && x == win_move(m[xs[i]]) }
pub proof fn mv_facts(m: Map<Key, Auction>, xs: Seq<Key>, n: int, h: HaltManager)
    requires 0 <= n <= xs.len()
    ensures forall|i: int| 0 <= i < n && !a_halted(h, m[#[trigger] xs[i]]) ==> mv_n(m, xs, n, h).contains(win_move(m[xs[i]])),
        forall|j: int| 0 <= j < mv_n(m, xs, n, h).len() ==> won(m, xs, n, h, #[trigger] mv_n(m, xs, n, h)[j]),
    decreases n
{
    if n > 0 {
        mv_facts(m, xs, n - 1, h);
        let (p, q) = (mv_n(m, xs, n - 1, h), mv_n(m, xs, n, h));
        assert forall|i: int| 0 <= i < n && !a_halted(h, m[#[trigger] xs[i]]) implies q.contains(win_move(m[xs[i]])) by {
            if i < n - 1 { let j = choose|j: int| 0 <= j < p.len() && #[trigger] p[j] == win_move(m[xs[i]]); assert(q[j] == p[j]); } else { assert(q[q.len() - 1] == win_move(m[xs[i]])); }
        }
        assert forall|j: int| 0 <= j < q.len() implies won(m, xs, n, h, #[trigger] q[j]) by {
            if j < p.len() { assert(q[j] == p[j]); assert(won(m, xs, n - 1, h, p[j])); let i = choose|i: int| 0 <= i < n - 1 && !a_halted(h, m[#[trigger] xs[i]]) && p[j] == win_move(m[xs[i]]); assert(q[j] == win_move(m[xs[i]])); }
            else { assert(q[j] == win_move(m[xs[n - 1]])); }
        }
    }
}
pub broadcast proof fn st_next(m: Map<Key, Auction>, xs: Seq<Key>, n: int, now: Timestamp, c: Config, h: HaltManager, s: int, limit: nat)
    requires #[trigger] due_list(m, s, limit, xs), 0 <= n < xs.len()
    ensures (#[trigger] st_n(m, xs, n, now, c, h)).dom().contains(xs[n]), st_n(m, xs, n, now, c, h)[xs[n]] == m[xs[n]], m.dom().contains(xs[n])
{ st_facts(m, xs, n, now, c, h, s, limit); assert(m.dom().contains(xs[n])); assert(st_n(m, xs, n, now, c, h).dom().contains(xs[n]) <==> m.dom().contains(xs[n])); }
pub open spec fn drops(h: HaltManager, e: int) -> bool { h.halt_windows@.len() > 0 && e > h.halt_windows@[0].end_time }
pub open spec fn after_drop(h: HaltManager, h2: HaltManager, e: int) -> bool {
    h2.prev_block_time == h.prev_block_time && h2.halt_windows@ =~= (if drops(h, e) { h.halt_windows@.subrange(1, h.halt_windows@.len() as int) } else { h.halt_windows@ })
}
// the first due end, or now when nothing is due
pub open spec fn first_end(m: Map<Key, Auction>, xs: Seq<Key>, now: Timestamp) -> int { if xs.len() > 0 { secs(m[xs[0]].end_time->0) } else { secs(now) } }
pub open spec fn blk_limit(s: Storage) -> nat { (cfg(s).max_auctions_to_settle_per_block as usize) as nat }
pub open spec fn blk_due(t: Tx) -> Seq<Key> { due(t.s.ra_auctions@, secs(t.now), blk_limit(t.s)) }
pub open spec fn fits(m: Map<Key, Auction>, xs: Seq<Key>, n: int, now: Timestamp, c: Config, h: HaltManager) -> bool { later(now, c.halt_postpone_duration) || forall|i: int| 0 <= i < n ==> !a_halted(h, m[#[trigger] xs[i]]) }
// an end-of-block run that settled xs
pub open spec fn blk_state(t: Tx) -> bool { let xs = blk_due(t);
    &&& due_list(t.s.ra_auctions@, secs(t.now), blk_limit(t.s), xs)
    &&& t.s2.ra_auctions@ == st_n(t.s.ra_auctions@, xs, xs.len() as int, t.now, cfg(t.s), hm(t.s))
    &&& fits(t.s.ra_auctions@, xs, xs.len() as int, t.now, cfg(t.s), hm(t.s))
    &&& t.s2 == (Storage { ra_auctions: t.s2.ra_auctions, ra_HALT_MANAGER: t.s2.ra_HALT_MANAGER, ..t.s })
    &&& t.s2.ra_HALT_MANAGER@ is Some && after_drop(hm(t.s), hm(t.s2), first_end(t.s.ra_auctions@, xs, t.now))
}
pub open spec fn blk_pay(t: Tx) -> bool { let xs = blk_due(t);  (forall|to: Str, d: Str| #[trigger] paid(t.ms, to, d) == pay_n(t.s.ra_auctions@, xs, xs.len() as int, cfg(t.s), hm(t.s), t.w, to, d)) && fb_plain(t.ms) }
pub open spec fn blk_nft(t: Tx) -> bool { let xs = blk_due(t);  nfts(t.ms) == mv_n(t.s.ra_auctions@, xs, xs.len() as int, hm(t.s)) }
pub open spec fn blk_out(t: Tx) -> bool { let xs = blk_due(t);  (forall|d: Str| #[trigger] paid_all(t.ms, d) == out_n(t.s.ra_auctions@, xs, xs.len() as int, hm(t.s), d)) && all_atomic(t.ms) && (cfg(t.s).trading_fee_percent.a > 0 ==> no_zero_sends(t.ms)) }
// what settling a block's due auctions preserves
pub broadcast proof fn blk_close(t: Tx)
    requires #[trigger] blk_state(t), inv(t.s)
    ensures inv(t.s2), blk_out(t) && t.funds.len() == 0 ==> g_funds(t), blk_nft(t) ==> g_custody(t), ends_ok(t.s.ra_auctions@, t.s2.ra_auctions@, t.now)
{
    let xs = blk_due(t); let (m, m2, h, n) = (t.s.ra_auctions@, t.s2.ra_auctions@, hm(t.s), xs.len() as int);
    st_facts(m, xs, n, t.now, cfg(t.s), h, secs(t.now), blk_limit(t.s));
    mv_facts(m, xs, n, h);
    assert(xs.take(n) =~= xs);
    assert forall|k: Key| #[trigger] m2.dom().contains(k) implies m.dom().contains(k) && (m2[k] == m[k] && !xs.contains(k) || (xs.contains(k) && a_halted(h, m[k]) && m2[k] == postponed(m[k], t.now, cfg(t.s)))) by {
        if xs.contains(k) { let i = choose|i: int| 0 <= i < xs.len() && xs[i] == k; assert(m.dom().contains(xs[i])); assert(m2.dom().contains(xs[i])); }
    }
    assert forall|k: Key| #[trigger] m.dom().contains(k) && !m2.dom().contains(k) implies mv_any(mv_n(m, xs, n, h), k) by {
        assert(xs.contains(k)); let i = choose|i: int| 0 <= i < xs.len() && xs[i] == k; assert(!a_halted(h, m[xs[i]]));
        let mv = mv_n(m, xs, n, h); assert(mv.contains(win_move(m[xs[i]]))); let j = choose|j: int| 0 <= j < mv.len() && mv[j] == win_move(m[xs[i]]); assert(is_mv(mv[j], k));
    }
    assert forall|k: Key, j: int| #![trigger m2.dom().contains(k), mv_n(m, xs, n, h)[j]] 0 <= j < mv_n(m, xs, n, h).len() && m2.dom().contains(k) && is_mv(mv_n(m, xs, n, h)[j], k) implies false by {
        let mv = mv_n(m, xs, n, h); assert(won(m, xs, n, h, mv[j])); let i = choose|i: int| 0 <= i < n && !a_halted(h, m[#[trigger] xs[i]]) && mv[j] == win_move(m[xs[i]]);
        assert(m.dom().contains(xs[i])); assert(akey(m[xs[i]]) == xs[i]); same_key(xs[i], k); assert(!m2.dom().contains(xs[i]));
    }
    assert forall|d: Str| #[trigger] esc(t.s2, d) == esc(t.s, d) - out_n(m, xs, n, h, d) by { st_sum(m, xs, n, t.now, cfg(t.s), h, secs(t.now), blk_limit(t.s), d); }
}
// some listed auction cannot be paid out
pub open spec fn stuck(s: Storage, now: Timestamp, w: QuerierWrapper) -> bool {
    let xs = due(s.ra_auctions@, secs(now), blk_limit(s)); exists|i: int| 0 <= i < xs.len() && blocked(w, cfg(s), s.ra_auctions@[#[trigger] xs[i]])
}
pub open spec fn detects(c: Config, h: HaltManager, now: int) -> bool { h.prev_block_time > 0 && now - h.prev_block_time >= c.halt_duration_threshold }
pub open spec fn new_window(c: Config, h: HaltManager, now: int) -> HaltWindow { HaltWindow { start_time: h.prev_block_time, end_time: (now + c.halt_buffer_duration) as u64 } }
// a begin-of-block run records the block's time, and a window when the gap since the last block is a halt
pub open spec fn begin_blk(t: Tx) -> bool {
    &&& t.s2 == (Storage { ra_HALT_MANAGER: t.s2.ra_HALT_MANAGER, ..t.s })
    &&& t.s2.ra_HALT_MANAGER@ is Some && hm(t.s2).prev_block_time == secs(t.now)
    &&& hm(t.s2).halt_windows@ =~= (if detects(cfg(t.s), hm(t.s), secs(t.now)) { hm(t.s).halt_windows@.push(new_window(cfg(t.s), hm(t.s), secs(t.now))) } else { hm(t.s).halt_windows@ })
}

// ------------------------------------------------------------------ governance
pub open spec fn or<T>(x: Option<T>, y: T) -> T { match x { Some(v) => v, None => y } }
pub open spec fn params(c: Config, fb: Option<String>, tf: Option<Decimal>, inc: Option<Decimal>, min_d: Option<u64>, ext: Option<u64>, fee: Option<Coin>, lim: Option<u64>, thr: Option<u64>, buf: Option<u64>, post: Option<u64>) -> Config {
    Config { fair_burn: match fb { Some(x) => to_addr(x), None => c.fair_burn }, trading_fee_percent: or(tf, c.trading_fee_percent), min_bid_increment_percent: or(inc, c.min_bid_increment_percent), min_duration: or(min_d, c.min_duration), max_duration: c.max_duration,
        extend_duration: or(ext, c.extend_duration), create_auction_fee: or(fee, c.create_auction_fee), max_auctions_to_settle_per_block: or(lim, c.max_auctions_to_settle_per_block),
        halt_duration_threshold: or(thr, c.halt_duration_threshold), halt_buffer_duration: or(buf, c.halt_buffer_duration), halt_postpone_duration: or(post, c.halt_postpone_duration) }
}
pub open spec fn set_n(m: Map<String, Uint128>, cs: Seq<Coin>, n: int) -> Map<String, Uint128> decreases n { if n <= 0 { m } else { set_n(m, cs, n - 1).insert(cs[n - 1].denom, cs[n - 1].amount) } }
pub open spec fn unset_n(m: Map<String, Uint128>, ds: Seq<String>, n: int) -> Map<String, Uint128> decreases n { if n <= 0 { m } else { unset_n(m, ds, n - 1).remove(ds[n - 1]) } }
// minimum prices are set for denoms that have none, and unset for denoms that have one
pub open spec fn fresh_n(m: Map<String, Uint128>, cs: Seq<Coin>, n: int) -> bool decreases n { n <= 0 || (fresh_n(m, cs, n - 1) && !set_n(m, cs, n - 1).dom().contains(cs[n - 1].denom)) }
pub open spec fn known_n(m: Map<String, Uint128>, ds: Seq<String>, n: int) -> bool decreases n { n <= 0 || (known_n(m, ds, n - 1) && unset_n(m, ds, n - 1).dom().contains(ds[n - 1])) }
pub broadcast proof fn fresh_mono(m: Map<String, Uint128>, cs: Seq<Coin>, n: int, k: int) requires #[trigger] fresh_n(m, cs, n), 0 <= k < n ensures !(#[trigger] set_n(m, cs, k)).dom().contains(cs[k].denom) decreases n { if k < n - 1 { fresh_mono(m, cs, n - 1, k); } }
pub broadcast proof fn known_mono(m: Map<String, Uint128>, ds: Seq<String>, n: int, k: int) requires #[trigger] known_n(m, ds, n), 0 <= k < n ensures (#[trigger] unset_n(m, ds, k)).dom().contains(ds[k]) decreases n { if k < n - 1 { known_mono(m, ds, n - 1, k); } }
pub open spec fn sudo_can(s: Storage, m: SudoMsg) -> bool {
    match m {
        SudoMsg::UpdateParams { fair_burn, trading_fee_percent, min_bid_increment_percent, min_duration, extend_duration, create_auction_fee, max_auctions_to_settle_per_block, halt_duration_threshold, halt_buffer_duration, halt_postpone_duration } =>
            opt_good(fair_burn) && cfg_ok(params(cfg(s), fair_burn, trading_fee_percent, min_bid_increment_percent, min_duration, extend_duration, create_auction_fee, max_auctions_to_settle_per_block, halt_duration_threshold, halt_buffer_duration, halt_postpone_duration)),
        SudoMsg::SetMinReservePrices { min_reserve_prices } => fresh_n(s.ra_MIN_RESERVE_PRICES@, min_reserve_prices@, min_reserve_prices@.len() as int),
        SudoMsg::UnsetMinReservePrices { denoms } => known_n(s.ra_MIN_RESERVE_PRICES@, denoms@, denoms@.len() as int),
        _ => false,
    }
}
pub open spec fn init_cfg(m: InstantiateMsg) -> Config {
    Config { fair_burn: to_addr(m.fair_burn), trading_fee_percent: m.trading_fee_percent, min_bid_increment_percent: m.min_bid_increment_percent, min_duration: m.min_duration, max_duration: m.max_duration, extend_duration: m.extend_duration,
        create_auction_fee: m.create_auction_fee, max_auctions_to_settle_per_block: m.max_auctions_to_settle_per_block, halt_duration_threshold: m.halt_duration_threshold, halt_buffer_duration: m.halt_buffer_duration, halt_postpone_duration: m.halt_postpone_duration }
}
pub open spec fn sudo_ok(t: Tx, m: SudoMsg) -> bool {
    match m {
        SudoMsg::BeginBlock {} => begin_blk(t),
        SudoMsg::EndBlock {} => blk_state(t) && blk_pay(t) && blk_nft(t),
        SudoMsg::UpdateParams { fair_burn, trading_fee_percent, min_bid_increment_percent, min_duration, extend_duration, create_auction_fee, max_auctions_to_settle_per_block, halt_duration_threshold, halt_buffer_duration, halt_postpone_duration } =>
            t.s2 == (Storage { ra_CONFIG: Ghost(Some(params(cfg(t.s), fair_burn, trading_fee_percent, min_bid_increment_percent, min_duration, extend_duration, create_auction_fee, max_auctions_to_settle_per_block, halt_duration_threshold, halt_buffer_duration, halt_postpone_duration))), ..t.s }),
        SudoMsg::SetMinReservePrices { min_reserve_prices } => t.s2 == (Storage { ra_MIN_RESERVE_PRICES: Ghost(set_n(t.s.ra_MIN_RESERVE_PRICES@, min_reserve_prices@, min_reserve_prices@.len() as int)), ..t.s }),
        SudoMsg::UnsetMinReservePrices { denoms } => t.s2 == (Storage { ra_MIN_RESERVE_PRICES: Ghost(unset_n(t.s.ra_MIN_RESERVE_PRICES@, denoms@, denoms@.len() as int)), ..t.s }),
    }
}
pub open spec fn sudo_funds(t: Tx) -> bool { g_funds(t) }

// ------------------------------------------------------------------ dispatch
pub open spec fn k_of(c: String, tk: String) -> Key { (to_addr(c), tk) }
pub open spec fn msg_bid(t: Tx, m: ExecuteMsg) -> bool { match m { ExecuteMsg::PlaceBid { collection, token_id } => bid_accept(t, k_of(collection, token_id)) && bid_high(t, k_of(collection, token_id)) && bid_frame(t, k_of(collection, token_id)), _ => true } }
pub open spec fn msg_live(t: Tx, m: ExecuteMsg) -> bool { match m { ExecuteMsg::PlaceBid { collection, token_id } => bid_live(t, k_of(collection, token_id)), _ => true } }
pub open spec fn msg_clock(t: Tx, m: ExecuteMsg) -> bool {
    match m {
        ExecuteMsg::PlaceBid { collection, token_id } => bid_clock(t, k_of(collection, token_id)),
        ExecuteMsg::SettleAuction { collection, token_id } => live_a(t, k_of(collection, token_id)) && due_at(old_a(t, k_of(collection, token_id)), secs(t.now)),
        _ => true,
    }
}
pub open spec fn msg_life(t: Tx, m: ExecuteMsg) -> bool {
    match m {
        ExecuteMsg::CreateAuction { collection, token_id, reserve_price, duration, seller_funds_recipient } => create_ok(t, to_addr(collection), token_id.g@, reserve_price, duration) && create_new(t, to_addr(collection), token_id.g@, reserve_price, duration, opt_to_addr(seller_funds_recipient)),
        ExecuteMsg::UpdateReservePrice { collection, token_id, reserve_price } => reprice_ok(t, k_of(collection, token_id), reserve_price),
        ExecuteMsg::CancelAuction { collection, token_id } => cancel_ok(t, k_of(collection, token_id)),
        ExecuteMsg::PlaceBid { collection, token_id } => bid_frame(t, k_of(collection, token_id)),
        ExecuteMsg::SettleAuction { collection, token_id } => settle_state(t, k_of(collection, token_id)),
    }
}
pub open spec fn msg_settle(t: Tx, m: ExecuteMsg) -> bool { match m { ExecuteMsg::SettleAuction { collection, token_id } => settle_state(t, k_of(collection, token_id)), _ => true } }
pub open spec fn msg_pay(t: Tx, m: ExecuteMsg) -> bool {
    match m {
        ExecuteMsg::CreateAuction { .. } => create_fee(t),
        ExecuteMsg::PlaceBid { collection, token_id } => bid_refund(t, k_of(collection, token_id)),
        ExecuteMsg::SettleAuction { collection, token_id } => settle_pay(t, k_of(collection, token_id)),
        _ => pays_none(t),
    }
}
pub open spec fn msg_nft(t: Tx, m: ExecuteMsg) -> bool {
    match m {
        ExecuteMsg::CreateAuction { collection, token_id, .. } => create_nft(t, to_addr(collection), token_id.g@),
        ExecuteMsg::CancelAuction { collection, token_id } => cancel_nft(t, k_of(collection, token_id)),
        ExecuteMsg::SettleAuction { collection, token_id } => settle_nft(t, k_of(collection, token_id)),
        _ => nfts(t.ms) == Seq::<NftMove>::empty(),
    }
}

// ------------------------------------------------------------------ histories
pub open spec fn linked(h: Seq<Tx>) -> bool { forall|i: int| 0 < i < h.len() ==> (#[trigger] h[i]).s == h[i - 1].s2 && secs(h[i].now) >= secs(h[i - 1].now) }
pub open spec fn bal_step(b: int, t: Tx, d: Str) -> int { b + coins_amt(t.funds, d) - paid_all(t.ms, d) }
pub open spec fn bal_n(h: Seq<Tx>, n: int, d: Str) -> int decreases n { if n <= 0 { 0 } else { bal_step(bal_n(h, n - 1, d), h[n - 1], d) } }
// after every history of accepted messages and block hooks the contract holds exactly its high bids
pub proof fn solvent(h: Seq<Tx>, n: int, d: Str) /*#P20*/
    requires 0 <= n <= h.len(), linked(h), forall|i: int| 0 <= i < h.len() ==> g_funds(#[trigger] h[i]), h.len() > 0 ==> esc(h[0].s, d) == 0,
    ensures n > 0 ==> bal_n(h, n, d) == esc(h[n - 1].s2, d),
    decreases n
{
    reveal_with_fuel(bal_n, 2);
    if n > 0 { solvent(h, n - 1, d); if n > 1 { assert(h[n - 1].s == h[n - 2].s2); } let t = h[n - 1]; assert(g_funds(t)); assert(esc(t.s2, d) + paid_all(t.ms, d) == esc(t.s, d) + coins_amt(t.funds, d)); }
}
// which NFT the contract holds: the last move of it was to the contract
pub open spec fn hold_n(ns: Seq<NftMove>, n: int, k: Key, me: Str, b: bool) -> bool decreases n { if n <= 0 { b } else if is_mv(ns[n - 1], k) { ns[n - 1].to == me } else { hold_n(ns, n - 1, k, me, b) } }
pub open spec fn holds(h: Seq<Tx>, n: int, k: Key) -> bool decreases n { if n <= 0 { false } else { hold_n(nfts(h[n - 1].ms), nfts(h[n - 1].ms).len() as int, k, h[n - 1].me, holds(h, n - 1, k)) } }
pub proof fn hold_any(ns: Seq<NftMove>, n: int, k: Key, me: Str, b: bool)
    requires 0 <= n <= ns.len(), forall|i: int| 0 <= i < n && is_mv(#[trigger] ns[i], k) ==> ns[i].to == me
    ensures hold_n(ns, n, k, me, b) == (b || exists|i: int| 0 <= i < n && is_mv(#[trigger] ns[i], k))
    decreases n
{ if n > 0 { hold_any(ns, n - 1, k, me, b); if is_mv(ns[n - 1], k) { assert(0 <= n - 1 < n && is_mv(ns[n - 1], k)); } } }
// after every history the contract holds the NFT of every auction
pub proof fn custody(h: Seq<Tx>, n: int, k: Key) /*#P21*/
    requires 0 < n <= h.len(), linked(h), forall|i: int| 0 <= i < h.len() ==> g_custody(#[trigger] h[i]), !h[0].s.ra_auctions@.dom().contains(k), h[n - 1].s2.ra_auctions@.dom().contains(k)
    ensures holds(h, n, k)
    decreases n
{
    let t = h[n - 1]; assert(g_custody(t)); let ns = nfts(t.ms);
    assert(t.s2.ra_auctions@.dom().contains(k));
    if t.s.ra_auctions@.dom().contains(k) { if n > 1 { assert(h[n - 1].s == h[n - 2].s2); custody(h, n - 1, k); } }
    else { assert(mv_to(ns, k, t.me)); let i = choose|i: int| 0 <= i < ns.len() && #[trigger] ns[i] == mv_of(k, t.me); assert(is_mv(ns[i], k)); }
    hold_any(ns, ns.len() as int, k, t.me, holds(h, n - 1, k));
}
// a window is on record, or every auction now ends after it
pub open spec fn covered(x: HaltWindow, s: Storage, now: int) -> bool {
    hm(s).halt_windows@.contains(x) || (x.end_time < now && forall|k: Key| #[trigger] s.ra_auctions@.dom().contains(k) && s.ra_auctions@[k].end_time is Some ==> secs(s.ra_auctions@[k].end_time->0) > x.end_time)
}
// a message, a governance call, a begin-of-block or an end-of-block run
pub open spec fn tick(t: Tx) -> bool { inv(t.s) && (g_clock(t) || begin_blk(t) || (blk_state(t) && blk_limit(t.s) > 0)) }
pub proof fn cover_step(x: HaltWindow, t: Tx, before: int) /*#P23*/
    requires covered(x, t.s, before), secs(t.now) >= before, tick(t)
    ensures covered(x, t.s2, secs(t.now))
{
    let (ws, vs, now) = (hm(t.s).halt_windows@, hm(t.s2).halt_windows@, secs(t.now));
    let (m, m2) = (t.s.ra_auctions@, t.s2.ra_auctions@);
    if ws.contains(x) {
        let i = choose|i: int| 0 <= i < ws.len() && ws[i] == x;
        if g_clock(t) { assert(vs.contains(x)); }
        else if begin_blk(t) { assert(vs[i] == x); assert(vs.contains(x)); }
        else {
            let xs = blk_due(t); let e = first_end(m, xs, t.now);
            if drops(hm(t.s), e) {
                if i > 0 { assert(vs[i - 1] == x); assert(vs.contains(x)); }
                else {
                    assert(x.end_time < e);
                    if xs.len() > 0 { assert(due_at(m[xs[0]], now)); assert(e <= now); }
                    assert forall|k: Key| #[trigger] m.dom().contains(k) && m[k].end_time is Some implies secs(m[k].end_time->0) > x.end_time by {
                        if due_at(m[k], now) { if xs.contains(k) { let j = choose|j: int| 0 <= j < xs.len() && xs[j] == k; assert(m.dom().contains(xs[j])); assert(0 < j ==> sooner(m, xs[0], xs[j])); } else { assert(sooner(m, xs[0], k)); } }
                    }
                    blk_ends(t);
                    assert forall|k: Key| #[trigger] m2.dom().contains(k) && m2[k].end_time is Some implies secs(m2[k].end_time->0) > x.end_time by { if end_same(m, k, m2[k]) { assert(m.dom().contains(k)); } }
                }
            } else { assert(vs[i] == x); assert(vs.contains(x)); }
        }
    } else {
        if !g_clock(t) && !begin_blk(t) { blk_ends(t); }
        assert forall|k: Key| #[trigger] m2.dom().contains(k) && m2[k].end_time is Some implies secs(m2[k].end_time->0) > x.end_time by { if end_same(m, k, m2[k]) { assert(m.dom().contains(k)); } }
    }
}
pub proof fn blk_ends(t: Tx) requires blk_state(t), inv(t.s) ensures ends_ok(t.s.ra_auctions@, t.s2.ra_auctions@, t.now) { blk_close(t); }
// from the block that detects a halt on, at every later point of every history, an auction whose
// end lies inside the window is not settled with that end
pub proof fn halts_honoured(h: Seq<Tx>, a: int, n: int, k: Key) /*#P23*/
    requires 0 <= a < n < h.len(), linked(h), forall|i: int| 0 <= i < h.len() ==> tick(#[trigger] h[i]),
        begin_blk(h[a]), detects(cfg(h[a].s), hm(h[a].s), secs(h[a].now)),
        h[n].s.ra_auctions@.dom().contains(k), h[n].s.ra_auctions@[k].end_time is Some,
        in_window(new_window(cfg(h[a].s), hm(h[a].s), secs(h[a].now)), secs(h[n].s.ra_auctions@[k].end_time->0)),
    ensures a_halted(hm(h[n].s), h[n].s.ra_auctions@[k])
{
    let x = new_window(cfg(h[a].s), hm(h[a].s), secs(h[a].now));
    cover_n(h, a, n, x);
    let ws = hm(h[n].s).halt_windows@;
    assert(ws.contains(x));
    let i = choose|i: int| 0 <= i < ws.len() && ws[i] == x; assert(in_window(ws[i], secs(h[n].s.ra_auctions@[k].end_time->0)));
}
pub proof fn cover_n(h: Seq<Tx>, a: int, n: int, x: HaltWindow)
    requires 0 <= a < n < h.len(), linked(h), forall|i: int| 0 <= i < h.len() ==> tick(#[trigger] h[i]),
        begin_blk(h[a]), detects(cfg(h[a].s), hm(h[a].s), secs(h[a].now)), x == new_window(cfg(h[a].s), hm(h[a].s), secs(h[a].now)),
    ensures covered(x, h[n].s, secs(h[n - 1].now))
    decreases n
{
    assert(h[n].s == h[n - 1].s2);
    if n == a + 1 { let vs = hm(h[a].s2).halt_windows@; assert(vs[vs.len() - 1] == x); assert(vs.contains(x)); }
    else { cover_n(h, a, n - 1, x); assert(secs(h[n - 1].now) >= secs(h[n - 2].now)); assert(tick(h[n - 1])); cover_step(x, h[n - 1], secs(h[n - 2].now)); }
}

// ------------------------------------------------------------------ queries
pub open spec fn qo_lim(l: Option<u32>) -> nat { let x = match l { Some(x) => x, None => 10u32 }; if x <= 100 { x as nat } else { 100 } }
pub open spec fn qo_ord(d: Option<bool>) -> Order { if d == Some(true) { Order::Descending } else { Order::Ascending } }
pub open spec fn off_key(o: AuctionKeyOffset) -> Key { (to_addr(o.collection), o.token_id) }
pub open spec fn qb_key(o: Option<AuctionKeyOffset>) -> Option<SBound<Key>> { match o { Some(x) => Some(SBound::Exclusive(off_key(x))), None => None } }
pub open spec fn no_key() -> Key { (Addr { g: Ghost(Seq::empty()) }, String { g: Ghost(Seq::empty()) }) }
// the auctions of a seller, in key order from the given one on
pub open spec fn q_by_seller(s: Storage, seller: String, o: crate::mc::query::QueryOptions<AuctionKeyOffset>, out: Seq<Auction>) -> bool {
    let (b, ord) = (qb_key(o.start_after), qo_ord(o.descending));
    page(s.ra_auctions@, |v: Auction| v.seller.g@ == seller.g@, |k: Key, v: Auction| k, if ord is Ascending { b } else { None }, if ord is Ascending { None } else { b }, ord, qo_lim(o.limit), out)
}
// the auctions by end, from the given end (and key) on
pub open spec fn end_bound(e: u64, o: Option<AuctionKeyOffset>) -> (u64, Key) { (e, match o { Some(x) => off_key(x), None => no_key() }) }
pub open spec fn q_by_end(s: Storage, e: u64, o: crate::mc::query::QueryOptions<AuctionKeyOffset>, out: Seq<Auction>) -> bool {
    let (b, ord) = (SBound::Exclusive(end_bound(e, o.start_after)), qo_ord(o.descending));
    page(s.ra_auctions@, |v: Auction| true, |k: Key, v: Auction| (end_key(v), k), if ord is Ascending { Some(b) } else { None }, if ord is Ascending { Some(SBound::Exclusive((u64::MAX, no_key()))) } else { Some(b) }, ord, qo_lim(o.limit), out)
}
pub open spec fn qb_denom(o: Option<MinReservePriceOffset>) -> Option<SBound<String>> { match o { Some(x) => Some(SBound::Exclusive(x.denom)), None => None } }
pub open spec fn to_coins(ps: Seq<(String, Uint128)>) -> Seq<Coin> { ps.map_values(|p: (String, Uint128)| Coin { denom: p.0, amount: p.1 }) }
pub open spec fn is_prices(s: Storage, o: crate::mc::query::QueryOptions<MinReservePriceOffset>, ps: Seq<(String, Uint128)>) -> bool {
    let (b, ord) = (qb_denom(o.start_after), qo_ord(o.descending));
    page2(s.ra_MIN_RESERVE_PRICES@, |v: Uint128| true, |k: String, v: Uint128| k, if ord is Ascending { b } else { None }, if ord is Ascending { None } else { b }, ord, qo_lim(o.limit), ps)
}
// the accepted denoms with their minimum prices, in denom order
pub open spec fn q_prices(s: Storage, o: crate::mc::query::QueryOptions<MinReservePriceOffset>, out: Seq<Coin>) -> bool { exists|ps: Seq<(String, Uint128)>| #[trigger] is_prices(s, o, ps) && out =~= to_coins(ps) }
pub open spec fn qopt<T>(o: Option<crate::mc::query::QueryOptions<T>>) -> crate::mc::query::QueryOptions<T> { match o { Some(x) => x, None => crate::mc::query::QueryOptions { descending: None, limit: None, start_after: None } } }
pub uninterp spec fn json_cfg(c: Config) -> int;
impl ToPayload for Config { open spec fn payload(&self) -> Payload { Payload::Other(json_cfg(*self)) } }
pub uninterp spec fn json_halts(c: HaltManager) -> int;
impl ToPayload for HaltManager { open spec fn payload(&self) -> Payload { Payload::Other(json_halts(*self)) } }
pub open spec fn aq_by_seller(s: Storage, seller: String, o: crate::mc::query::QueryOptions<AuctionKeyOffset>, p: Payload) -> bool { exists|out: Seq<Auction>| #[trigger] q_by_seller(s, seller, o, out) && p == Payload::Other(json_seq(out)) }
pub open spec fn aq_by_end(s: Storage, e: u64, o: crate::mc::query::QueryOptions<AuctionKeyOffset>, p: Payload) -> bool { exists|out: Seq<Auction>| #[trigger] q_by_end(s, e, o, out) && p == Payload::Other(json_seq(out)) }
pub open spec fn aq_prices(s: Storage, o: crate::mc::query::QueryOptions<MinReservePriceOffset>, p: Payload) -> bool { exists|out: Seq<Coin>| #[trigger] q_prices(s, o, out) && p == Payload::Other(json_seq(out)) }
pub open spec fn query_ok(s: Storage, m: QueryMsg, p: Payload) -> bool {
    match m {
        QueryMsg::Config {} => s.ra_CONFIG@ is Some && p == Payload::Other(json_cfg(s.ra_CONFIG@->0)),
        QueryMsg::HaltManager {} => s.ra_HALT_MANAGER@ is Some && p == Payload::Other(json_halts(s.ra_HALT_MANAGER@->0)),
        QueryMsg::Auction { collection, token_id } => p == Payload::Other(json_opt(if s.ra_auctions@.dom().contains((to_addr(collection), token_id)) { Some(s.ra_auctions@[(to_addr(collection), token_id)]) } else { None })),
        QueryMsg::MinReservePrices { query_options } => aq_prices(s, qopt(query_options), p),
        QueryMsg::AuctionsBySeller { seller, query_options } => aq_by_seller(s, seller, qopt(query_options), p),
        QueryMsg::AuctionsByEndTime { end_time, query_options } => aq_by_end(s, end_time, qopt(query_options), p),
    }
}
pub broadcast group group_ra { one_move, st_next, blk_close, page_from, pairs_from, mul_ceil_facts, tp_push, tpall_push, raised, due_from, axiom_str_lt_irrefl, axiom_str_plt_irrefl }

// ------------------------------------------------------------------ what may not be refused (t: the message before it runs)
pub open spec fn can_create(t: Tx, c: Addr, tk: Str, p: Coin, dur: u64) -> bool {
    &&& create_ok(t, c, tk, p, dur)
    &&& if cfg(t.s).create_auction_fee.amount.v == 0 { t.funds.len() == 0 } else { t.funds == seq![cfg(t.s).create_auction_fee] }
}
pub open spec fn can_reprice(t: Tx, k: Key, p: Coin) -> bool { idle_own(t, k) && price_ok(t.s, p) }
pub open spec fn can_bid(t: Tx, k: Key) -> bool { bid_accept(t, k) && bid_live(t, k) }
pub open spec fn can_settle(t: Tx, k: Key) -> bool {
    t.funds.len() == 0 && live_a(t, k) && due_at(old_a(t, k), secs(t.now)) && (a_halted(hm(t.s), old_a(t, k)) || !blocked(t.w, cfg(t.s), old_a(t, k)))
}
pub open spec fn good(a: String) -> bool { addr_ok(a.g@) }
pub open spec fn opt_good(a: Option<String>) -> bool { match a { Some(x) => good(x), None => true } }
pub open spec fn msg_can(t: Tx, m: ExecuteMsg) -> bool {
    match m {
        ExecuteMsg::CreateAuction { collection, token_id, reserve_price, duration, seller_funds_recipient } => good(collection) && (seller_funds_recipient is Some ==> good(seller_funds_recipient->0)) && can_create(t, to_addr(collection), token_id.g@, reserve_price, duration),
        ExecuteMsg::UpdateReservePrice { collection, token_id, reserve_price } => good(collection) && can_reprice(t, k_of(collection, token_id), reserve_price),
        ExecuteMsg::CancelAuction { collection, token_id } => good(collection) && idle_own(t, k_of(collection, token_id)),
        ExecuteMsg::PlaceBid { collection, token_id } => good(collection) && can_bid(t, k_of(collection, token_id)),
        ExecuteMsg::SettleAuction { collection, token_id } => good(collection) && can_settle(t, k_of(collection, token_id)),
    }
}
// the name this contract is known by in its version record
pub open spec fn own_name() -> Str { "crates.io:stargaze-reserve-auction"@ }
