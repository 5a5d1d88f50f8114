// Specification of the v2 marketplace and of sg-marketplace-common.
use crate::common::sale::*;
use crate::common::types::*;
use crate::v2::state::*;
use crate::v2::orders::*;
use crate::v2::msg::*;
use crate::v2::query::*;

// ------------------------------------------------------------------ sg-marketplace-common
pub open spec fn owner_ok(w: QuerierWrapper, c: Str, t: Str, who: Str) -> bool {
    match smart_answer::<OwnerOfResponse>(w, c, Query::OwnerOf { token: t, expired: false }) { Some(o) => o.owner.g@ == who, None => true }
}
pub open spec fn tradable(w: QuerierWrapper, c: Str, now: u64) -> bool {
    match smart_answer::<CollectionInfoResponse>(w, c, Query::CollectionInfo) { Some(i) => match i.start_trading_time { Some(t) => t.n <= now, None => true }, None => true }
}
pub open spec fn entry_sp(e: Option<RoyaltyEntry>) -> Option<(Str, int)> { match e { Some(e) => Some((e.recipient.g@, e.share.a as int)), None => None } }
pub open spec fn reg_entry_sp(e: RegistryRoyaltyEntry) -> (Str, int) { (e.recipient.g@, e.share.a as int) }
// the registry's entry for this protocol, else its default entry
pub open spec fn registry_royalty(w: QuerierWrapper, reg: Str, c: Str, protocol: Option<Str>) -> Option<(Str, int)> {
    match smart_answer::<RoyaltyPaymentResponse>(w, reg, Query::RoyaltyPayment { collection: c, protocol }) {
        Some(a) => match a.royalty_protocol { Some(p) => Some(reg_entry_sp(p.royalty_entry)), None => match a.royalty_default { Some(p) => Some(reg_entry_sp(p.royalty_entry)), None => None } },
        None => None,
    }
}
// ... else the collection's own royalty info
pub open spec fn royalty_sp(w: QuerierWrapper, reg: Str, c: Str, protocol: Option<Str>) -> Option<(Str, int)> {
    match registry_royalty(w, reg, c, protocol) {
        Some(x) => Some(x),
        None => match smart_answer::<CollectionInfoResponse>(w, c, Query::CollectionInfo) {
            Some(i) => match i.royalty_info { Some(x) => Some((x.payment_address.g@, x.share.a as int)), None => None },
            None => None,
        },
    }
}
// the royalty of a sale can be found: the registry answers, and the collection's own royalty info, if it comes to that, names a valid address
pub open spec fn registry_answers(w: QuerierWrapper, reg: Str, c: Str, protocol: Option<Str>) -> bool { smart_answer::<RoyaltyPaymentResponse>(w, reg, Query::RoyaltyPayment { collection: c, protocol }) is Some }
pub open spec fn royalty_payable(w: QuerierWrapper, reg: Str, c: Str, protocol: Option<Str>) -> bool {
    registry_answers(w, reg, c, protocol) && (registry_royalty(w, reg, c, protocol) is None ==> match smart_answer::<CollectionInfoResponse>(w, c, Query::CollectionInfo) {
        Some(i) => match i.royalty_info { Some(x) => addr_ok(x.payment_address.g@), None => true },
        None => true,
    })
}
// payments
pub open spec fn pay_one(p: Payment, to: Str, d: Str) -> int { if p.recipient.g@ == to { coin_amt(p.funds, d) } else { 0 } }
pub open spec fn pays_n(ps: Seq<Payment>, n: int, to: Str, d: Str) -> int decreases n { if n <= 0 { 0 } else { pays_n(ps, n - 1, to, d) + pay_one(ps[n - 1], to, d) } }
pub open spec fn paysall_n(ps: Seq<Payment>, n: int, d: Str) -> int decreases n { if n <= 0 { 0 } else { paysall_n(ps, n - 1, d) + coin_amt(ps[n - 1].funds, d) } }
pub open spec fn pays(ps: Seq<Payment>, to: Str, d: Str) -> int { pays_n(ps, ps.len() as int, to, d) }
pub open spec fn pays_all(ps: Seq<Payment>, d: Str) -> int { paysall_n(ps, ps.len() as int, d) }
pub open spec fn pays_nz(ps: Seq<Payment>) -> bool { forall|i: int| 0 <= i < ps.len() ==> (#[trigger] ps[i]).funds.amount.v > 0 }
pub proof fn pays_n_push(ps: Seq<Payment>, p: Payment, n: int, to: Str, d: Str) requires n <= ps.len() ensures pays_n(ps.push(p), n, to, d) == pays_n(ps, n, to, d) decreases n { if n > 0 { pays_n_push(ps, p, n - 1, to, d); } }
pub proof fn paysall_n_push(ps: Seq<Payment>, p: Payment, n: int, d: Str) requires n <= ps.len() ensures paysall_n(ps.push(p), n, d) == paysall_n(ps, n, d) decreases n { if n > 0 { paysall_n_push(ps, p, n - 1, d); } }
pub broadcast proof fn pays_push(ps: Seq<Payment>, p: Payment, to: Str, d: Str) ensures #[trigger] pays(ps.push(p), to, d) == pays(ps, to, d) + pay_one(p, to, d) { pays_n_push(ps, p, ps.len() as int, to, d); }
pub broadcast proof fn pays_all_push(ps: Seq<Payment>, p: Payment, d: Str) ensures #[trigger] pays_all(ps.push(p), d) == pays_all(ps, d) + coin_amt(p.funds, d) { paysall_n_push(ps, p, ps.len() as int, d); }
// fees
pub open spec fn fee_amt(f: Fee, a: int) -> int { mul_ceil_sp(a, f.share.a as int) }
pub open spec fn fees_total_n(fs: Seq<Fee>, n: int, a: int) -> int decreases n { if n <= 0 { 0 } else { fees_total_n(fs, n - 1, a) + fee_amt(fs[n - 1], a) } }
pub open spec fn fees_to_n(fs: Seq<Fee>, n: int, a: int, to: Str) -> int decreases n { if n <= 0 { 0 } else { fees_to_n(fs, n - 1, a, to) + (if fs[n - 1].recipient.g@ == to { fee_amt(fs[n - 1], a) } else { 0 }) } }
pub open spec fn fees_total(fs: Seq<Fee>, a: int) -> int { fees_total_n(fs, fs.len() as int, a) }
pub open spec fn fees_to(fs: Seq<Fee>, a: int, to: Str) -> int { fees_to_n(fs, fs.len() as int, a, to) }
pub proof fn fees_total_n_push(fs: Seq<Fee>, f: Fee, n: int, a: int) requires n <= fs.len() ensures fees_total_n(fs.push(f), n, a) == fees_total_n(fs, n, a) decreases n { if n > 0 { fees_total_n_push(fs, f, n - 1, a); } }
pub proof fn fees_to_n_push(fs: Seq<Fee>, f: Fee, n: int, a: int, to: Str) requires n <= fs.len() ensures fees_to_n(fs.push(f), n, a, to) == fees_to_n(fs, n, a, to) decreases n { if n > 0 { fees_to_n_push(fs, f, n - 1, a, to); } }
pub broadcast proof fn fees_total_push(fs: Seq<Fee>, f: Fee, a: int) ensures #[trigger] fees_total(fs.push(f), a) == fees_total(fs, a) + fee_amt(f, a) { fees_total_n_push(fs, f, fs.len() as int, a); }
pub broadcast proof fn fees_to_push(fs: Seq<Fee>, f: Fee, a: int, to: Str) ensures #[trigger] fees_to(fs.push(f), a, to) == fees_to(fs, a, to) + at(f.recipient.g@, to, fee_amt(f, a)) { fees_to_n_push(fs, f, fs.len() as int, a, to); }
// no prefix of the fees exceeds the total
pub broadcast proof fn fees_prefix(fs: Seq<Fee>, n: int, a: int)
    requires 0 <= n <= fs.len(), a >= 0
    ensures 0 <= #[trigger] fees_total_n(fs, n, a) <= fees_total(fs, a), n < fs.len() ==> fees_total_n(fs, n, a) + fee_amt(fs[n], a) <= fees_total(fs, a)
{ fees_nonneg(fs, n, a); fees_up(fs, n, fs.len() as int, a); if n < fs.len() { fees_up(fs, n + 1, fs.len() as int, a); } }
pub proof fn fees_nonneg(fs: Seq<Fee>, n: int, a: int) requires 0 <= n <= fs.len(), a >= 0 ensures fees_total_n(fs, n, a) >= 0 decreases n { if n > 0 { fees_nonneg(fs, n - 1, a); mul_ceil_facts(a, fs[n - 1].share.a as int); } }
pub proof fn fees_up(fs: Seq<Fee>, n: int, m: int, a: int) requires 0 <= n <= m <= fs.len(), a >= 0 ensures fees_total_n(fs, n, a) <= fees_total_n(fs, m, a) decreases m { if n < m { fees_up(fs, n, m - 1, a); mul_ceil_facts(a, fs[m - 1].share.a as int); } }
pub open spec fn sale_pays(fs: Seq<Fee>, c: Coin, seller: Str, to: Str, d: Str) -> int {
    if d != c.denom.g@ { 0 } else { fees_to(fs, c.amount.v as int, to) + at(seller, to, c.amount.v as int - fees_total(fs, c.amount.v as int)) }
}
pub broadcast proof fn at_zero(x: Str, to: Str) ensures #[trigger] at(x, to, 0) == 0 {}
pub broadcast group group_pays { at_zero, pays_push, pays_all_push, fees_total_push, fees_to_push, mul_ceil_facts, fees_prefix }

// ------------------------------------------------------------------ v2 identifiers and keys
pub open spec fn ask_id_s(c: Str, t: Str) -> Str { hex_hash(utf8(c) + utf8(t)) }
pub open spec fn ask_key(c: Str, t: Str) -> String { String { g: Ghost(ask_id_s(c, t)) } }
pub open spec fn bid_id_s(c: Str, t: Str, h: u64, n: u64) -> Str { hex_hash(utf8(c) + utf8(t) + be64(h) + be64(n)) }
pub open spec fn cbid_id_s(c: Str, h: u64, n: u64) -> Str { hex_hash(utf8(c) + be64(h) + be64(n)) }
pub open spec fn cat_n(cs: Seq<&Bytes>, n: int) -> Seq<u8> decreases n { if n <= 0 { Seq::empty() } else { cat_n(cs, n - 1) + cs[n - 1].g@ } }
pub open spec fn cat(cs: Seq<&Bytes>) -> Seq<u8> { cat_n(cs, cs.len() as int) }
pub broadcast proof fn cat2(cs: Seq<&Bytes>) requires cs.len() == 2 ensures #[trigger] cat(cs) == cs[0].g@ + cs[1].g@ { reveal_with_fuel(cat_n, 3); assert(cat(cs) =~= cs[0].g@ + cs[1].g@); }
pub broadcast proof fn cat3(cs: Seq<&Bytes>) requires cs.len() == 3 ensures #[trigger] cat(cs) == cs[0].g@ + cs[1].g@ + cs[2].g@ { reveal_with_fuel(cat_n, 4); assert(cat(cs) =~= cs[0].g@ + cs[1].g@ + cs[2].g@); }
pub broadcast proof fn cat4(cs: Seq<&Bytes>) requires cs.len() == 4 ensures #[trigger] cat(cs) == cs[0].g@ + cs[1].g@ + cs[2].g@ + cs[3].g@ { reveal_with_fuel(cat_n, 5); assert(cat(cs) =~= cs[0].g@ + cs[1].g@ + cs[2].g@ + cs[3].g@); }
// Assumed: the 256-bit digest has no collisions on the inputs that occur, and validated addresses
// have one of the fixed formats of the chain (none is a prefix of another), so an ask id names one
// collection and one token.
pub broadcast axiom fn axiom_ask_id(c1: Str, t1: Str, c2: Str, t2: Str)
    requires addr_ok(c1), addr_ok(c2)
    ensures #[trigger] ask_id_s(c1, t1) == #[trigger] ask_id_s(c2, t2) ==> c1 == c2 && t1 == t2;
// an order id generated from a nonce is generated from no other nonce
pub proof fn tail_inj(a: Seq<u8>, b: Seq<u8>, x: u64, y: u64) requires a + be64(x) == b + be64(y) ensures x == y {
    broadcast use axiom_be64;
    let (p, q) = (a + be64(x), b + be64(y));
    assert(p.len() == a.len() + 8 && q.len() == b.len() + 8 && be64(y).len() == 8);
    assert(p.skip(p.len() - 8) =~= be64(x));
    assert(q.skip(q.len() - 8) =~= be64(y));
}
pub broadcast proof fn bid_id_nonce(c1: Str, t1: Str, h1: u64, n1: u64, c2: Str, t2: Str, h2: u64, n2: u64)
    ensures #[trigger] bid_id_s(c1, t1, h1, n1) == #[trigger] bid_id_s(c2, t2, h2, n2) ==> n1 == n2
{
    broadcast use axiom_hash_inj;
    if bid_id_s(c1, t1, h1, n1) == bid_id_s(c2, t2, h2, n2) { tail_inj(utf8(c1) + utf8(t1) + be64(h1), utf8(c2) + utf8(t2) + be64(h2), n1, n2); }
}
pub broadcast proof fn cbid_id_nonce(c1: Str, h1: u64, n1: u64, c2: Str, h2: u64, n2: u64)
    ensures #[trigger] cbid_id_s(c1, h1, n1) == #[trigger] cbid_id_s(c2, h2, n2) ==> n1 == n2
{
    broadcast use axiom_hash_inj;
    if cbid_id_s(c1, h1, n1) == cbid_id_s(c2, h2, n2) { tail_inj(utf8(c1) + be64(h1), utf8(c2) + be64(h2), n1, n2); }
}
pub open spec fn slash() -> Str { seq!['/'] }
pub open spec fn ct_key(c: Str, t: Str) -> Str { c + "/"@ + t }
// the bid index key names one collection and one token
pub broadcast proof fn ct_key_inj(c1: Str, t1: Str, c2: Str, t2: Str)
    requires addr_ok(c1), addr_ok(c2)
    ensures #[trigger] ct_key(c1, t1) == #[trigger] ct_key(c2, t2) ==> c1 == c2 && t1 == t2
{
    reveal_strlit("/");
    let (x, y) = (ct_key(c1, t1), ct_key(c2, t2));
    if x == y {
        assert(x[c1.len() as int] == '/');
        assert(y[c2.len() as int] == '/');
        if c1.len() < c2.len() { assert(y[c1.len() as int] == c2[c1.len() as int]); assert(c2.contains('/')); }
        if c2.len() < c1.len() { assert(x[c2.len() as int] == c1[c2.len() as int]); assert(c1.contains('/')); }
        assert(c1 =~= x.take(c1.len() as int));
        assert(c2 =~= y.take(c2.len() as int));
        assert(t1 =~= x.skip(c1.len() as int + 1));
        assert(t2 =~= y.skip(c2.len() as int + 1));
    }
}
pub broadcast group group_ids { page_from, found1, axiom_ask_id, bid_id_nonce, cbid_id_nonce, ct_key_inj, cat2, cat3, cat4 }

// ------------------------------------------------------------------ v2 state
impl Priced for Bid { open spec fn owed(self, d: Str) -> int { coin_amt(self.details.price, d) } }
impl Priced for CollectionBid { open spec fn owed(self, d: Str) -> int { coin_amt(self.details.price, d) } }
impl PriceOff for PriceOffset { open spec fn po_amount(&self) -> u128 { self.amount } open spec fn po_id(&self) -> String { self.id } }
// what the contract owes to the creators of the stored orders
pub open spec fn esc(s: Storage, d: Str) -> int { psum(s.v2_bids@, d) + psum(s.v2_collection_bids@, d) }
pub open spec fn cfg_ok(c: Config<Addr>) -> bool { c.protocol_fee_bps < 10_000 && c.maker_reward_bps + c.taker_reward_bps < 10_000 }
pub open spec fn ask_ok(k: String, a: Ask) -> bool { a.id == k && k.g@ == ask_id_s(a.collection.g@, a.token_id.g@) && addr_ok(a.collection.g@) }
// an id made from a nonce already used
pub open spec fn bid_id_used(c: Str, t: Str, n: u64, id: Str) -> bool { exists|h: u64, m: u64| m <= n && id == #[trigger] bid_id_s(c, t, h, m) }
pub open spec fn cbid_id_used(c: Str, n: u64, id: Str) -> bool { exists|h: u64, m: u64| m <= n && id == #[trigger] cbid_id_s(c, h, m) }
pub open spec fn bid_ok(k: String, b: Bid, n: u64) -> bool { b.id == k && bid_id_used(b.collection.g@, b.token_id.g@, n, k.g@) && addr_ok(b.collection.g@) }
pub open spec fn cbid_ok(k: String, b: CollectionBid, n: u64) -> bool { b.id == k && cbid_id_used(b.collection.g@, n, k.g@) && addr_ok(b.collection.g@) }
pub open spec fn inv_cfg(s: Storage) -> bool { s.v2_CONFIG@ is Some && cfg_ok(s.v2_CONFIG@->0) && s.v2_NONCE@ is Some }
pub open spec fn inv_id(s: Storage) -> bool {
    &&& forall|k: String| #[trigger] s.v2_asks@.dom().contains(k) ==> ask_ok(k, s.v2_asks@[k])
    &&& forall|k: String| #[trigger] s.v2_bids@.dom().contains(k) ==> bid_ok(k, s.v2_bids@[k], s.v2_NONCE@->0)
    &&& forall|k: String| #[trigger] s.v2_collection_bids@.dom().contains(k) ==> cbid_ok(k, s.v2_collection_bids@[k], s.v2_NONCE@->0)
}
pub open spec fn inv_price(s: Storage) -> bool {
    &&& forall|k: String| #[trigger] s.v2_asks@.dom().contains(k) ==> s.v2_asks@[k].details.price.amount.v > 0
    &&& forall|k: String| #[trigger] s.v2_bids@.dom().contains(k) ==> s.v2_bids@[k].details.price.amount.v > 0
    &&& forall|k: String| #[trigger] s.v2_collection_bids@.dom().contains(k) ==> s.v2_collection_bids@[k].details.price.amount.v > 0
}
pub open spec fn inv(s: Storage) -> bool { inv_cfg(s) && inv_id(s) && inv_price(s) }
pub open spec fn nonce(s: Storage) -> u64 { s.v2_NONCE@->0 }
pub open spec fn cfg(s: Storage) -> Config<Addr> { s.v2_CONFIG@->0 }
pub open spec fn denom_of(s: Storage, c: Config<Addr>, coll: Addr) -> Str { if s.v2_COLLECTION_DENOMS@.dom().contains(coll) { s.v2_COLLECTION_DENOMS@[coll].g@ } else { c.default_denom.g@ } }
pub open spec fn price_ok(s: Storage, c: Config<Addr>, coll: Addr, p: Coin) -> bool { p.amount.v > 0 && p.denom.g@ == denom_of(s, c, coll) }
pub open spec fn to_addr(s: String) -> Addr { Addr { g: s.g } }
pub open spec fn opt_to_addr(s: Option<String>) -> Option<Addr> { match s { Some(x) => Some(to_addr(x)), None => None } }
pub open spec fn details_addr(d: OrderDetails<String>) -> OrderDetails<Addr> { OrderDetails { price: d.price, recipient: opt_to_addr(d.recipient), finder: opt_to_addr(d.finder) } }
pub open spec fn config_addr(c: Config<String>) -> Config<Addr> {
    Config { fee_manager: to_addr(c.fee_manager), royalty_registry: to_addr(c.royalty_registry), protocol_fee_bps: c.protocol_fee_bps, max_royalty_fee_bps: c.max_royalty_fee_bps, maker_reward_bps: c.maker_reward_bps, taker_reward_bps: c.taker_reward_bps, default_denom: c.default_denom }
}
pub open spec fn new_ask(creator: Addr, collection: Addr, token_id: String, details: OrderDetails<Addr>) -> Ask { Ask { id: ask_key(collection.g@, token_id.g@), creator, collection, token_id, details } }
pub open spec fn new_bid(creator: Addr, collection: Addr, token_id: String, details: OrderDetails<Addr>, h: u64, n: u64) -> Bid { Bid { id: String { g: Ghost(bid_id_s(collection.g@, token_id.g@, h, n)) }, creator, collection, token_id, details } }
pub open spec fn new_cbid(creator: Addr, collection: Addr, details: OrderDetails<Addr>, h: u64, n: u64) -> CollectionBid { CollectionBid { id: String { g: Ghost(cbid_id_s(collection.g@, h, n)) }, creator, collection, details } }
pub open spec fn recip(d: OrderDetails<Addr>, creator: Addr) -> Str { match d.recipient { Some(r) => r.g@, None => creator.g@ } }
pub open spec fn mb_details(m: MatchingBid) -> OrderDetails<Addr> { match m { MatchingBid::Bid(b) => b.details, MatchingBid::CollectionBid(b) => b.details } }
pub open spec fn mb_recip(m: MatchingBid) -> Str { match m { MatchingBid::Bid(b) => recip(b.details, b.creator), MatchingBid::CollectionBid(b) => recip(b.details, b.creator) } }
pub open spec fn is_admin(w: QuerierWrapper, me: Str, who: Str) -> bool { contract_admin(w, me) == Some(Some(who)) }

// ------------------------------------------------------------------ v2 sale
pub open spec fn bps(x: u64) -> int { x as int * 100_000_000_000_000 }
pub open spec fn maker_share(c: Config<Addr>, e: bool) -> int { if e && c.maker_reward_bps > 0 && c.protocol_fee_bps > 0 { mul_floor(bps(c.protocol_fee_bps), bps(c.maker_reward_bps)) } else { 0 } }
pub open spec fn taker_share(c: Config<Addr>, e: bool) -> int { if e && c.taker_reward_bps > 0 && c.protocol_fee_bps > 0 { mul_floor(bps(c.protocol_fee_bps), bps(c.taker_reward_bps)) } else { 0 } }
pub open spec fn proto_share(c: Config<Addr>, m: bool, t: bool) -> int { bps(c.protocol_fee_bps) - maker_share(c, m) - taker_share(c, t) }
pub open spec fn lesser(a: int, b: int) -> int { if a <= b { a } else { b } }
pub open spec fn at(x: Str, to: Str, v: int) -> int { if x == to { v } else { 0 } }
pub open spec fn opt_at(x: Option<Addr>, to: Str, v: int) -> int { match x { Some(a) => at(a.g@, to, v), None => 0 } }
// what `to` receives when an order of `price` is sold: protocol fee, finder rewards, capped royalty,
// and the exact remainder to the seller
pub open spec fn sale_pay(c: Config<Addr>, price: Coin, maker: Option<Addr>, taker: Option<Addr>, roy: Option<(Str, int)>, seller: Str, to: Str, d: Str) -> int {
    if d != price.denom.g@ { 0 } else {
        let a = price.amount.v as int;
        let pf = mul_ceil_sp(a, proto_share(c, maker is Some, taker is Some));
        let mf = mul_ceil_sp(a, maker_share(c, maker is Some));
        let tf = mul_ceil_sp(a, taker_share(c, taker is Some));
        let rf = match roy { Some(r) => mul_ceil_sp(a, lesser(r.1, bps(c.max_royalty_fee_bps))), None => 0 };
        at(c.fee_manager.g@, to, pf) + opt_at(maker, to, mf) + opt_at(taker, to, tf) + (match roy { Some(r) => at(r.0, to, rf), None => 0 }) + at(seller, to, a - pf - mf - tf - rf)
    }
}
// what the fees of a sale come to
pub open spec fn sale_fees(c: Config<Addr>, price: Coin, maker: Option<Addr>, taker: Option<Addr>, roy: Option<(Str, int)>) -> int {
    let a = price.amount.v as int;
    mul_ceil_sp(a, proto_share(c, maker is Some, taker is Some)) + mul_ceil_sp(a, maker_share(c, maker is Some)) + mul_ceil_sp(a, taker_share(c, taker is Some))
        + (match roy { Some(r) => mul_ceil_sp(a, lesser(r.1, bps(c.max_royalty_fee_bps))), None => 0 })
}
// a sale of these two orders can be paid
pub open spec fn payable(c: Config<Addr>, w: QuerierWrapper, me: Str, ask: Ask, m: MatchingBid, ask_first: bool) -> bool {
    royalty_payable(w, c.royalty_registry.g@, ask.collection.g@, Some(me))
    && sale_fees(c, sale_price(ask, m, ask_first), sale_maker(ask, m, ask_first), sale_taker(ask, m, ask_first), royalty_sp(w, c.royalty_registry.g@, ask.collection.g@, Some(me))) <= sale_price(ask, m, ask_first).amount.v
}
pub open spec fn sale_price(ask: Ask, m: MatchingBid, ask_first: bool) -> Coin { if ask_first { ask.details.price } else { mb_details(m).price } }
pub open spec fn sale_maker(ask: Ask, m: MatchingBid, ask_first: bool) -> Option<Addr> { if ask_first { ask.details.finder } else { mb_details(m).finder } }
pub open spec fn sale_taker(ask: Ask, m: MatchingBid, ask_first: bool) -> Option<Addr> { if ask_first { mb_details(m).finder } else { ask.details.finder } }
pub open spec fn sale_to(c: Config<Addr>, w: QuerierWrapper, me: Str, ask: Ask, m: MatchingBid, ask_first: bool, to: Str, d: Str) -> int {
    sale_pay(c, sale_price(ask, m, ask_first), sale_maker(ask, m, ask_first), sale_taker(ask, m, ask_first), royalty_sp(w, c.royalty_registry.g@, ask.collection.g@, Some(me)), recip(ask.details, ask.creator), to, d)
}
// both orders leave the book, nothing else changes
pub open spec fn sold(s: Storage, ask: Ask, m: MatchingBid) -> Storage {
    match m {
        MatchingBid::Bid(b) => Storage { v2_asks: Ghost(s.v2_asks@.remove(ask.id)), v2_bids: Ghost(s.v2_bids@.remove(b.id)), ..s },
        MatchingBid::CollectionBid(b) => Storage { v2_asks: Ghost(s.v2_asks@.remove(ask.id)), v2_collection_bids: Ghost(s.v2_collection_bids@.remove(b.id)), ..s },
    }
}
pub open spec fn ask_move(ask: Ask, to: Str) -> NftMove { NftMove { collection: ask.collection.g@, token: ask.token_id.g@, to } }

// ------------------------------------------------------------------ v2 matching
pub open spec fn bid_meets(b: Bid, a: Ask) -> bool { b.collection.g@ == a.collection.g@ && b.token_id.g@ == a.token_id.g@ && b.details.price.denom.g@ == a.details.price.denom.g@ && b.details.price.amount.v >= a.details.price.amount.v }
pub open spec fn cbid_meets(b: CollectionBid, a: Ask) -> bool { b.collection.g@ == a.collection.g@ && b.details.price.denom.g@ == a.details.price.denom.g@ && b.details.price.amount.v >= a.details.price.amount.v }
// m is a best-priced stored bid or collection bid that meets the ask; None only when there is none
pub open spec fn best_bid(bids: Map<String, Bid>, cbids: Map<String, CollectionBid>, a: Ask, m: Option<MatchingBid>) -> bool {
    &&& match m {
        Some(MatchingBid::Bid(b)) => bids.dom().contains(b.id) && bids[b.id] == b && bid_meets(b, a),
        Some(MatchingBid::CollectionBid(b)) => cbids.dom().contains(b.id) && cbids[b.id] == b && cbid_meets(b, a),
        None => true,
    }
    &&& forall|k: String| #[trigger] bids.dom().contains(k) && bid_meets(bids[k], a) ==> m is Some && bids[k].details.price.amount.v <= mb_details(m->0).price.amount.v
    &&& forall|k: String| #[trigger] cbids.dom().contains(k) && cbid_meets(cbids[k], a) ==> m is Some && cbids[k].details.price.amount.v <= mb_details(m->0).price.amount.v
}
// the ask on the bid's token, when the bid meets its price
pub open spec fn ask_for_bid(asks: Map<String, Ask>, b: Bid, m: Option<Ask>) -> bool {
    let k = ask_key(b.collection.g@, b.token_id.g@);
    let hit = asks.dom().contains(k) && bid_meets(b, asks[k]);
    match m { Some(a) => hit && a == asks[k], None => !hit }
}
// a lowest-priced ask of the collection that the collection bid meets
pub open spec fn best_ask(asks: Map<String, Ask>, b: CollectionBid, m: Option<Ask>) -> bool {
    &&& match m { Some(a) => asks.dom().contains(a.id) && asks[a.id] == a && cbid_meets(b, a), None => true }
    &&& forall|k: String| #[trigger] asks.dom().contains(k) && cbid_meets(b, asks[k]) ==> m is Some && m->0.details.price.amount.v <= asks[k].details.price.amount.v
}

// ------------------------------------------------------------------ v2 messages
pub open spec fn conserve(s: Storage, s2: Storage, funds: Seq<Coin>, ms: Seq<SubMsg>) -> bool { forall|d: Str| #[trigger] esc(s2, d) + paid_all(ms, d) == esc(s, d) + coins_amt(funds, d) }
// the assets under custody are those of the stored asks, before and after
pub open spec fn custody(s: Storage, s2: Storage, ms: Seq<SubMsg>, me: Str) -> bool {
    &&& nfts(ms).len() <= 1
    &&& forall|k: String| #[trigger] s.v2_asks@.dom().contains(k) && !s2.v2_asks@.dom().contains(k) ==> nfts(ms).len() == 1 && nfts(ms)[0].collection == s.v2_asks@[k].collection.g@ && nfts(ms)[0].token == s.v2_asks@[k].token_id.g@
    &&& forall|k: String| #[trigger] s2.v2_asks@.dom().contains(k) && !s.v2_asks@.dom().contains(k) ==> nfts(ms) == seq![ask_move(s2.v2_asks@[k], me)]
    &&& forall|k: String| #[trigger] s2.v2_asks@.dom().contains(k) && s.v2_asks@.dom().contains(k) ==> s2.v2_asks@[k].collection == s.v2_asks@[k].collection && s2.v2_asks@[k].token_id == s.v2_asks@[k].token_id
            && (nfts(ms).len() == 1 ==> !(nfts(ms)[0].collection == s.v2_asks@[k].collection.g@ && nfts(ms)[0].token == s.v2_asks@[k].token_id.g@))
}
// nobody but its creator changes an order, and somebody else can make an order leave the book only
// by trading against it: the bid's recipient gets the asset, the ask's asset is handed over
pub open spec fn others_orders(s: Storage, s2: Storage, ms: Seq<SubMsg>, who: Str) -> bool {
    &&& forall|k: String| #[trigger] s.v2_asks@.dom().contains(k) && s.v2_asks@[k].creator.g@ != who ==> (if s2.v2_asks@.dom().contains(k) { s2.v2_asks@[k] == s.v2_asks@[k] } else { nfts(ms).len() == 1 })
    &&& forall|k: String| #[trigger] s.v2_bids@.dom().contains(k) && s.v2_bids@[k].creator.g@ != who ==> (if s2.v2_bids@.dom().contains(k) { s2.v2_bids@[k] == s.v2_bids@[k] } else {
            nfts(ms) == seq![NftMove { collection: s.v2_bids@[k].collection.g@, token: s.v2_bids@[k].token_id.g@, to: recip(s.v2_bids@[k].details, s.v2_bids@[k].creator) }] })
    &&& forall|k: String| #[trigger] s.v2_collection_bids@.dom().contains(k) && s.v2_collection_bids@[k].creator.g@ != who ==> (if s2.v2_collection_bids@.dom().contains(k) { s2.v2_collection_bids@[k] == s.v2_collection_bids@[k] } else {
            nfts(ms).len() == 1 && nfts(ms)[0].collection == s.v2_collection_bids@[k].collection.g@ && nfts(ms)[0].to == recip(s.v2_collection_bids@[k].details, s.v2_collection_bids@[k].creator) })
}
// order ids are never reused and new orders belong to the sender
pub open spec fn new_orders(s: Storage, s2: Storage, who: Str) -> bool {
    &&& s2.v2_NONCE@->0 >= s.v2_NONCE@->0
    &&& forall|k: String| #[trigger] s2.v2_asks@.dom().contains(k) && !s.v2_asks@.dom().contains(k) ==> s2.v2_asks@[k].creator.g@ == who
    &&& forall|k: String| #[trigger] s2.v2_bids@.dom().contains(k) && !s.v2_bids@.dom().contains(k) ==> s2.v2_bids@[k].creator.g@ == who && !bid_id_used(s2.v2_bids@[k].collection.g@, s2.v2_bids@[k].token_id.g@, nonce(s), k.g@)
    &&& forall|k: String| #[trigger] s2.v2_collection_bids@.dom().contains(k) && !s.v2_collection_bids@.dom().contains(k) ==> s2.v2_collection_bids@[k].creator.g@ == who && !cbid_id_used(s2.v2_collection_bids@[k].collection.g@, nonce(s), k.g@)
}
pub open spec fn admin_only(s: Storage, s2: Storage, w: QuerierWrapper, me: Str, who: Str) -> bool {
    (s2.v2_CONFIG == s.v2_CONFIG && s2.v2_COLLECTION_DENOMS == s.v2_COLLECTION_DENOMS && s2.v2_LISTING_FEES == s.v2_LISTING_FEES) || is_admin(w, me, who)
}
pub open spec fn limit_ok(offer: Coin, price: Coin) -> bool { offer.denom.g@ == price.denom.g@ && offer.amount.v >= price.amount.v }
pub open spec fn listing_ok(s: Storage, funds: Seq<Coin>) -> bool { funds.len() == 1 && funds[0].amount.v > 0 && s.v2_LISTING_FEES@.dom().contains(funds[0].denom) && s.v2_LISTING_FEES@[funds[0].denom] == funds[0].amount }
pub open spec fn step(s: Storage) -> Storage { Storage { v2_NONCE: Ghost(Some((nonce(s) + 1) as u64)), ..s } }
pub open spec fn with_ask(s: Storage, a: Ask) -> Storage { Storage { v2_asks: Ghost(s.v2_asks@.insert(a.id, a)), ..s } }
pub open spec fn with_bid(s: Storage, b: Bid) -> Storage { Storage { v2_bids: Ghost(s.v2_bids@.insert(b.id, b)), ..s } }
pub open spec fn with_cbid(s: Storage, b: CollectionBid) -> Storage { Storage { v2_collection_bids: Ghost(s.v2_collection_bids@.insert(b.id, b)), ..s } }
// the sender gets back what it sent (plus `held`) beyond `spent`
pub open spec fn back(funds: Seq<Coin>, held: Option<Coin>, spent: Coin, who: Str, to: Str, d: Str) -> int {
    if to == who { coins_amt(funds, d) + (match held { Some(c) => coin_amt(c, d), None => 0 }) - coin_amt(spent, d) } else { 0 }
}
pub open spec fn the_ask(s: Storage, c: Addr, t: String, mine: Ask) -> Ask { if s.v2_asks@.dom().contains(ask_key(c.g@, t.g@)) { s.v2_asks@[ask_key(c.g@, t.g@)] } else { mine } }
pub open spec fn build_collection_token_index_str_sp<A: StrLike, B: StrLike>(c: A, t: B) -> String { String { g: Ghost(ct_key(c.str_sp(), t.str_sp())) } }

// ------------------------------------------------------------------ v2: what each message does
// t: storage before and after, messages sent, and the call
pub struct Tx { pub s: Storage, pub s2: Storage, pub ms: Seq<SubMsg>, pub w: QuerierWrapper, pub env: Env, pub info: MessageInfo }
impl Tx {
    pub open spec fn me(self) -> Str { self.env.contract.address.g@ }
    pub open spec fn who(self) -> Str { self.info.sender.g@ }
    pub open spec fn c(self) -> Config<Addr> { cfg(self.s) }
    pub open spec fn now(self) -> u64 { self.env.block.time.n }
    pub open spec fn paid_is(self, f: spec_fn(Str, Str) -> int) -> bool { forall|to: Str, d: Str| #[trigger] paid(self.ms, to, d) == f(to, d) }
    pub open spec fn sale(self, ask: Ask, m: MatchingBid, ask_first: bool, to: Str, d: Str) -> int { sale_to(self.c(), self.w, self.me(), ask, m, ask_first, to, d) }
    pub open spec fn ask(self, id: String) -> Ask { self.s.v2_asks@[id] }
    pub open spec fn bid(self, id: String) -> Bid { self.s.v2_bids@[id] }
    pub open spec fn cbid(self, id: String) -> CollectionBid { self.s.v2_collection_bids@[id] }
}
// every message
pub open spec fn g_funds(t: Tx) -> bool { conserve(t.s, t.s2, t.info.funds@, t.ms) && clean(t.ms) }
pub open spec fn g_custody(t: Tx) -> bool { custody(t.s, t.s2, t.ms, t.me()) }
pub open spec fn g_auth(t: Tx) -> bool { others_orders(t.s, t.s2, t.ms, t.who()) && admin_only(t.s, t.s2, t.w, t.me(), t.who()) }
pub open spec fn g_ids(t: Tx) -> bool { inv_id(t.s2) && new_orders(t.s, t.s2, t.who()) }
pub open spec fn g_cfg(t: Tx) -> bool { inv_cfg(t.s2) && inv_price(t.s2) }
// set_ask / sell_nft
pub open spec fn set_ask_gate(t: Tx, c: Addr, tok: String, d: OrderDetails<Addr>) -> bool { tradable(t.w, c.g@, t.now()) && price_ok(t.s, t.c(), c, d.price) && listing_ok(t.s, t.info.funds@) }
pub open spec fn set_ask_auth(t: Tx, c: Addr, tok: String) -> bool { owner_ok(t.w, c.g@, tok.g@, t.who()) }
pub open spec fn set_ask_now(t: Tx, c: Addr, tok: String, d: OrderDetails<Addr>) -> bool { let a = new_ask(t.info.sender, c, tok, d); exists|m: Option<MatchingBid>| #[trigger] best_bid(t.s.v2_bids@, t.s.v2_collection_bids@, a, m) && m is Some && nfts(t.ms) == seq![ask_move(a, mb_recip(m->0))] }
pub open spec fn set_ask_book(t: Tx, c: Addr, tok: String, d: OrderDetails<Addr>) -> bool { let a = new_ask(t.info.sender, c, tok, d); exists|m: Option<MatchingBid>| #[trigger] best_bid(t.s.v2_bids@, t.s.v2_collection_bids@, a, m) && match m { Some(m) => t.s2 == sold(t.s, a, m), None => t.s2 == with_ask(t.s, a) && !t.s.v2_asks@.dom().contains(a.id) } }
pub open spec fn set_ask_pay(t: Tx, c: Addr, tok: String, d: OrderDetails<Addr>) -> bool { let a = new_ask(t.info.sender, c, tok, d); exists|m: Option<MatchingBid>| #[trigger] best_bid(t.s.v2_bids@, t.s.v2_collection_bids@, a, m) && t.paid_is(|to: Str, d: Str| at(t.c().fee_manager.g@, to, coins_amt(t.info.funds@, d)) + (match m { Some(m) => t.sale(a, m, false, to, d), None => 0 })) }
pub open spec fn set_ask_nft(t: Tx, c: Addr, tok: String, d: OrderDetails<Addr>) -> bool { let a = new_ask(t.info.sender, c, tok, d); exists|m: Option<MatchingBid>| #[trigger] best_bid(t.s.v2_bids@, t.s.v2_collection_bids@, a, m) && nfts(t.ms) == seq![ask_move(a, match m { Some(m) => mb_recip(m), None => t.me() })] }
// update_ask
pub open spec fn upd_ask(t: Tx, id: String, d: OrderDetails<Addr>) -> Ask { Ask { details: d, ..t.ask(id) } }
pub open spec fn own_ask(t: Tx, id: String) -> bool { t.s.v2_asks@.dom().contains(id) && t.ask(id).creator.g@ == t.who() }
pub open spec fn update_ask_gate(t: Tx, id: String, d: OrderDetails<Addr>) -> bool { price_ok(t.s, t.c(), t.ask(id).collection, d.price) }
pub open spec fn update_ask_book(t: Tx, id: String, d: OrderDetails<Addr>) -> bool { let a = upd_ask(t, id, d); exists|m: Option<MatchingBid>| #[trigger] best_bid(t.s.v2_bids@, t.s.v2_collection_bids@, a, m) && match m { Some(m) => t.s2 == sold(t.s, a, m), None => t.s2 == with_ask(t.s, a) } }
pub open spec fn update_ask_pay(t: Tx, id: String, d: OrderDetails<Addr>) -> bool { let a = upd_ask(t, id, d); exists|m: Option<MatchingBid>| #[trigger] best_bid(t.s.v2_bids@, t.s.v2_collection_bids@, a, m) && t.paid_is(|to: Str, d: Str| match m { Some(m) => t.sale(a, m, false, to, d), None => 0 }) }
pub open spec fn update_ask_nft(t: Tx, id: String, d: OrderDetails<Addr>) -> bool { let a = upd_ask(t, id, d); exists|m: Option<MatchingBid>| #[trigger] best_bid(t.s.v2_bids@, t.s.v2_collection_bids@, a, m) && nfts(t.ms) == (match m { Some(m) => seq![ask_move(a, mb_recip(m))], None => Seq::empty() }) }
// remove_ask
pub open spec fn remove_ask_out(t: Tx, id: String) -> bool { t.s2 == (Storage { v2_asks: Ghost(t.s.v2_asks@.remove(id)), ..t.s }) && nfts(t.ms) == seq![ask_move(t.ask(id), recip(t.ask(id).details, t.ask(id).creator))] && t.paid_is(|to: Str, d: Str| 0) }
// accept_ask
pub open spec fn accept_ask_bid(t: Tx, id: String, d: OrderDetails<Addr>) -> Bid { new_bid(t.info.sender, t.ask(id).collection, t.ask(id).token_id, d, t.env.block.height, (nonce(t.s) + 1) as u64) }
pub open spec fn accept_ask_limit(t: Tx, id: String, d: OrderDetails<Addr>) -> bool { t.s.v2_asks@.dom().contains(id) && limit_ok(d.price, t.ask(id).details.price) }
pub open spec fn accept_ask_book(t: Tx, id: String) -> bool { t.s2 == (Storage { v2_asks: Ghost(t.s.v2_asks@.remove(id)), ..step(t.s) }) }
pub open spec fn accept_ask_pay(t: Tx, id: String, d: OrderDetails<Addr>) -> bool { let a = t.ask(id); t.paid_is(|to: Str, dn: Str| t.sale(a, MatchingBid::Bid(accept_ask_bid(t, id, d)), true, to, dn) + back(t.info.funds@, None, a.details.price, t.who(), to, dn)) }
pub open spec fn accept_ask_nft(t: Tx, id: String, d: OrderDetails<Addr>) -> bool { nfts(t.ms) == seq![ask_move(t.ask(id), recip(d, t.info.sender))] }
// set_bid / buy_specific_nft
pub open spec fn mk_bid(t: Tx, c: Addr, tok: String, d: OrderDetails<Addr>) -> Bid { new_bid(t.info.sender, c, tok, d, t.env.block.height, (nonce(t.s) + 1) as u64) }
pub open spec fn set_bid_gate(t: Tx, c: Addr, tok: String, d: OrderDetails<Addr>) -> bool { tradable(t.w, c.g@, t.now()) && price_ok(t.s, t.c(), c, d.price) }
pub open spec fn set_bid_now(t: Tx, c: Addr, tok: String, d: OrderDetails<Addr>) -> bool { let b = mk_bid(t, c, tok, d); exists|m: Option<Ask>| #[trigger] ask_for_bid(t.s.v2_asks@, b, m) && m is Some && nfts(t.ms) == seq![ask_move(m->0, recip(d, t.info.sender))] }
pub open spec fn set_bid_book(t: Tx, c: Addr, tok: String, d: OrderDetails<Addr>) -> bool { let b = mk_bid(t, c, tok, d); exists|m: Option<Ask>| #[trigger] ask_for_bid(t.s.v2_asks@, b, m) && match m { Some(a) => t.s2 == (Storage { v2_asks: Ghost(t.s.v2_asks@.remove(a.id)), ..step(t.s) }), None => t.s2 == with_bid(step(t.s), b) } }
pub open spec fn set_bid_pay(t: Tx, c: Addr, tok: String, d: OrderDetails<Addr>) -> bool { let b = mk_bid(t, c, tok, d); exists|m: Option<Ask>| #[trigger] ask_for_bid(t.s.v2_asks@, b, m) && t.paid_is(|to: Str, dn: Str| (match m { Some(a) => t.sale(a, MatchingBid::Bid(b), true, to, dn), None => 0 }) + back(t.info.funds@, None, match m { Some(a) => a.details.price, None => d.price }, t.who(), to, dn)) }
pub open spec fn set_bid_nft(t: Tx, c: Addr, tok: String, d: OrderDetails<Addr>) -> bool { let b = mk_bid(t, c, tok, d); exists|m: Option<Ask>| #[trigger] ask_for_bid(t.s.v2_asks@, b, m) && nfts(t.ms) == (match m { Some(a) => seq![ask_move(a, recip(d, t.info.sender))], None => Seq::empty() }) }
pub open spec fn own_bid(t: Tx, id: String) -> bool { t.s.v2_bids@.dom().contains(id) && t.bid(id).creator.g@ == t.who() }
pub open spec fn upd_bid(t: Tx, id: String, d: OrderDetails<Addr>) -> Bid { Bid { details: d, ..t.bid(id) } }
pub open spec fn update_bid_gate(t: Tx, id: String, d: OrderDetails<Addr>) -> bool { price_ok(t.s, t.c(), t.bid(id).collection, d.price) }
pub open spec fn update_bid_book(t: Tx, id: String, d: OrderDetails<Addr>) -> bool { let b = upd_bid(t, id, d); exists|m: Option<Ask>| #[trigger] ask_for_bid(t.s.v2_asks@, b, m) && match m { Some(a) => t.s2 == sold(t.s, a, MatchingBid::Bid(b)), None => t.s2 == with_bid(t.s, b) } }
pub open spec fn update_bid_pay(t: Tx, id: String, d: OrderDetails<Addr>) -> bool { let b = upd_bid(t, id, d); exists|m: Option<Ask>| #[trigger] ask_for_bid(t.s.v2_asks@, b, m) && t.paid_is(|to: Str, dn: Str| (match m { Some(a) => t.sale(a, MatchingBid::Bid(b), true, to, dn), None => 0 }) + back(t.info.funds@, Some(t.bid(id).details.price), match m { Some(a) => a.details.price, None => d.price }, t.who(), to, dn)) }
pub open spec fn update_bid_nft(t: Tx, id: String, d: OrderDetails<Addr>) -> bool { let b = upd_bid(t, id, d); exists|m: Option<Ask>| #[trigger] ask_for_bid(t.s.v2_asks@, b, m) && nfts(t.ms) == (match m { Some(a) => seq![ask_move(a, recip(d, b.creator))], None => Seq::empty() }) }
pub open spec fn remove_bid_out(t: Tx, id: String) -> bool { t.s2 == (Storage { v2_bids: Ghost(t.s.v2_bids@.remove(id)), ..t.s }) && nfts(t.ms) == Seq::<NftMove>::empty() && t.paid_is(|to: Str, dn: Str| at(t.who(), to, coin_amt(t.bid(id).details.price, dn))) }
pub open spec fn accept_bid_ask(t: Tx, id: String, d: OrderDetails<Addr>) -> Ask { the_ask(t.s, t.bid(id).collection, t.bid(id).token_id, new_ask(t.info.sender, t.bid(id).collection, t.bid(id).token_id, d)) }
pub open spec fn accept_bid_limit(t: Tx, id: String, d: OrderDetails<Addr>) -> bool { t.s.v2_bids@.dom().contains(id) && limit_ok(t.bid(id).details.price, d.price) }
pub open spec fn accept_bid_auth(t: Tx, id: String, d: OrderDetails<Addr>) -> bool { if t.s.v2_asks@.dom().contains(ask_key(t.bid(id).collection.g@, t.bid(id).token_id.g@)) { t.ask(ask_key(t.bid(id).collection.g@, t.bid(id).token_id.g@)).creator.g@ == t.who() } else { owner_ok(t.w, t.bid(id).collection.g@, t.bid(id).token_id.g@, t.who()) } }
pub open spec fn accept_bid_book(t: Tx, id: String, d: OrderDetails<Addr>) -> bool { t.s2 == sold(t.s, accept_bid_ask(t, id, d), MatchingBid::Bid(t.bid(id))) }
pub open spec fn accept_bid_pay(t: Tx, id: String, d: OrderDetails<Addr>) -> bool { t.paid_is(|to: Str, dn: Str| t.sale(accept_bid_ask(t, id, d), MatchingBid::Bid(t.bid(id)), false, to, dn)) }
pub open spec fn accept_bid_nft(t: Tx, id: String, d: OrderDetails<Addr>) -> bool { nfts(t.ms) == seq![NftMove { collection: t.bid(id).collection.g@, token: t.bid(id).token_id.g@, to: recip(t.bid(id).details, t.bid(id).creator) }] }
// set_bid / buy_specific_nft
pub open spec fn mk_cbid(t: Tx, c: Addr, d: OrderDetails<Addr>) -> CollectionBid { new_cbid(t.info.sender, c, d, t.env.block.height, (nonce(t.s) + 1) as u64) }
pub open spec fn set_cbid_gate(t: Tx, c: Addr, d: OrderDetails<Addr>) -> bool { tradable(t.w, c.g@, t.now()) && price_ok(t.s, t.c(), c, d.price) }
pub open spec fn set_cbid_now(t: Tx, c: Addr, d: OrderDetails<Addr>) -> bool { let b = mk_cbid(t, c, d); exists|m: Option<Ask>| #[trigger] best_ask(t.s.v2_asks@, b, m) && m is Some && nfts(t.ms) == seq![ask_move(m->0, recip(d, t.info.sender))] }
pub open spec fn set_cbid_book(t: Tx, c: Addr, d: OrderDetails<Addr>) -> bool { let b = mk_cbid(t, c, d); exists|m: Option<Ask>| #[trigger] best_ask(t.s.v2_asks@, b, m) && match m { Some(a) => t.s2 == (Storage { v2_asks: Ghost(t.s.v2_asks@.remove(a.id)), ..step(t.s) }), None => t.s2 == with_cbid(step(t.s), b) } }
pub open spec fn set_cbid_pay(t: Tx, c: Addr, d: OrderDetails<Addr>) -> bool { let b = mk_cbid(t, c, d); exists|m: Option<Ask>| #[trigger] best_ask(t.s.v2_asks@, b, m) && t.paid_is(|to: Str, dn: Str| (match m { Some(a) => t.sale(a, MatchingBid::CollectionBid(b), true, to, dn), None => 0 }) + back(t.info.funds@, None, match m { Some(a) => a.details.price, None => d.price }, t.who(), to, dn)) }
pub open spec fn set_cbid_nft(t: Tx, c: Addr, d: OrderDetails<Addr>) -> bool { let b = mk_cbid(t, c, d); exists|m: Option<Ask>| #[trigger] best_ask(t.s.v2_asks@, b, m) && nfts(t.ms) == (match m { Some(a) => seq![ask_move(a, recip(d, t.info.sender))], None => Seq::empty() }) }
pub open spec fn own_cbid(t: Tx, id: String) -> bool { t.s.v2_collection_bids@.dom().contains(id) && t.cbid(id).creator.g@ == t.who() }
pub open spec fn upd_cbid(t: Tx, id: String, d: OrderDetails<Addr>) -> CollectionBid { CollectionBid { details: d, ..t.cbid(id) } }
pub open spec fn update_cbid_gate(t: Tx, id: String, d: OrderDetails<Addr>) -> bool { price_ok(t.s, t.c(), t.cbid(id).collection, d.price) }
pub open spec fn update_cbid_book(t: Tx, id: String, d: OrderDetails<Addr>) -> bool { let b = upd_cbid(t, id, d); exists|m: Option<Ask>| #[trigger] best_ask(t.s.v2_asks@, b, m) && match m { Some(a) => t.s2 == sold(t.s, a, MatchingBid::CollectionBid(b)), None => t.s2 == with_cbid(t.s, b) } }
pub open spec fn update_cbid_pay(t: Tx, id: String, d: OrderDetails<Addr>) -> bool { let b = upd_cbid(t, id, d); exists|m: Option<Ask>| #[trigger] best_ask(t.s.v2_asks@, b, m) && t.paid_is(|to: Str, dn: Str| (match m { Some(a) => t.sale(a, MatchingBid::CollectionBid(b), true, to, dn), None => 0 }) + back(t.info.funds@, Some(t.cbid(id).details.price), match m { Some(a) => a.details.price, None => d.price }, t.who(), to, dn)) }
pub open spec fn update_cbid_nft(t: Tx, id: String, d: OrderDetails<Addr>) -> bool { let b = upd_cbid(t, id, d); exists|m: Option<Ask>| #[trigger] best_ask(t.s.v2_asks@, b, m) && nfts(t.ms) == (match m { Some(a) => seq![ask_move(a, recip(d, b.creator))], None => Seq::empty() }) }
pub open spec fn remove_cbid_out(t: Tx, id: String) -> bool { t.s2 == (Storage { v2_collection_bids: Ghost(t.s.v2_collection_bids@.remove(id)), ..t.s }) && nfts(t.ms) == Seq::<NftMove>::empty() && t.paid_is(|to: Str, dn: Str| at(t.who(), to, coin_amt(t.cbid(id).details.price, dn))) }
pub open spec fn accept_cbid_ask(t: Tx, id: String, tok: String, d: OrderDetails<Addr>) -> Ask { the_ask(t.s, t.cbid(id).collection, tok, new_ask(t.info.sender, t.cbid(id).collection, tok, d)) }
pub open spec fn accept_cbid_limit(t: Tx, id: String, d: OrderDetails<Addr>) -> bool { t.s.v2_collection_bids@.dom().contains(id) && limit_ok(t.cbid(id).details.price, d.price) }
pub open spec fn accept_cbid_auth(t: Tx, id: String, tok: String, d: OrderDetails<Addr>) -> bool { if t.s.v2_asks@.dom().contains(ask_key(t.cbid(id).collection.g@, tok.g@)) { t.ask(ask_key(t.cbid(id).collection.g@, tok.g@)).creator.g@ == t.who() } else { owner_ok(t.w, t.cbid(id).collection.g@, tok.g@, t.who()) } }
pub open spec fn accept_cbid_book(t: Tx, id: String, tok: String, d: OrderDetails<Addr>) -> bool { t.s2 == sold(t.s, accept_cbid_ask(t, id, tok, d), MatchingBid::CollectionBid(t.cbid(id))) }
pub open spec fn accept_cbid_pay(t: Tx, id: String, tok: String, d: OrderDetails<Addr>) -> bool { t.paid_is(|to: Str, dn: Str| t.sale(accept_cbid_ask(t, id, tok, d), MatchingBid::CollectionBid(t.cbid(id)), false, to, dn)) }
pub open spec fn accept_cbid_nft(t: Tx, id: String, tok: String, d: OrderDetails<Addr>) -> bool { nfts(t.ms) == seq![NftMove { collection: t.cbid(id).collection.g@, token: tok.g@, to: recip(t.cbid(id).details, t.cbid(id).creator) }] }

// ------------------------------------------------------------------ v2: the entry point
pub open spec fn msg_auth(t: Tx, m: ExecuteMsg) -> bool {
    match m {
        ExecuteMsg::UpdateConfig { .. } | ExecuteMsg::UpdateCollectionDenom { .. } | ExecuteMsg::SetListingFee { .. } | ExecuteMsg::RemoveListingFee { .. } => is_admin(t.w, t.me(), t.who()),
        ExecuteMsg::SetAsk { collection, token_id, details } => set_ask_auth(t, to_addr(collection), token_id),
        ExecuteMsg::SellNft { collection, token_id, details } => set_ask_auth(t, to_addr(collection), token_id),
        ExecuteMsg::UpdateAsk { id, details } => own_ask(t, id),
        ExecuteMsg::RemoveAsk { id } => own_ask(t, id),
        ExecuteMsg::UpdateBid { id, details } => own_bid(t, id),
        ExecuteMsg::RemoveBid { id } => own_bid(t, id),
        ExecuteMsg::UpdateCollectionBid { id, details } => own_cbid(t, id),
        ExecuteMsg::RemoveCollectionBid { id } => own_cbid(t, id),
        ExecuteMsg::AcceptBid { id, details } => accept_bid_auth(t, id, details_addr(details)),
        ExecuteMsg::AcceptCollectionBid { id, token_id, details } => accept_cbid_auth(t, id, token_id, details_addr(details)),
        _ => true,
    }
}
pub open spec fn msg_gate(t: Tx, m: ExecuteMsg) -> bool {
    match m {
        ExecuteMsg::UpdateConfig { config } => cfg_ok(config_addr(config)) && t.s2 == (Storage { v2_CONFIG: Ghost(Some(config_addr(config))), ..t.s }),
        ExecuteMsg::UpdateCollectionDenom { collection, denom } => t.s2 == (Storage { v2_COLLECTION_DENOMS: Ghost(t.s.v2_COLLECTION_DENOMS@.insert(to_addr(collection), denom)), ..t.s }),
        ExecuteMsg::SetListingFee { fee } => t.s2 == (Storage { v2_LISTING_FEES: Ghost(t.s.v2_LISTING_FEES@.insert(fee.denom, fee.amount)), ..t.s }),
        ExecuteMsg::RemoveListingFee { denom } => t.s2 == (Storage { v2_LISTING_FEES: Ghost(t.s.v2_LISTING_FEES@.remove(denom)), ..t.s }),
        ExecuteMsg::SetAsk { collection, token_id, details } => set_ask_gate(t, to_addr(collection), token_id, details_addr(details)),
        ExecuteMsg::SellNft { collection, token_id, details } => set_ask_gate(t, to_addr(collection), token_id, details_addr(details)),
        ExecuteMsg::UpdateAsk { id, details } => update_ask_gate(t, id, details_addr(details)),
        ExecuteMsg::SetBid { collection, token_id, details } => set_bid_gate(t, to_addr(collection), token_id, details_addr(details)),
        ExecuteMsg::BuySpecificNft { collection, token_id, details } => set_bid_gate(t, to_addr(collection), token_id, details_addr(details)),
        ExecuteMsg::UpdateBid { id, details } => update_bid_gate(t, id, details_addr(details)),
        ExecuteMsg::SetCollectionBid { collection, details } => set_cbid_gate(t, to_addr(collection), details_addr(details)),
        ExecuteMsg::BuyCollectionNft { collection, details } => set_cbid_gate(t, to_addr(collection), details_addr(details)),
        ExecuteMsg::UpdateCollectionBid { id, details } => update_cbid_gate(t, id, details_addr(details)),
        _ => true,
    }
}
pub open spec fn msg_limit(t: Tx, m: ExecuteMsg) -> bool {
    match m {
        ExecuteMsg::SellNft { collection, token_id, details } => set_ask_now(t, to_addr(collection), token_id, details_addr(details)),
        ExecuteMsg::BuySpecificNft { collection, token_id, details } => set_bid_now(t, to_addr(collection), token_id, details_addr(details)),
        ExecuteMsg::BuyCollectionNft { collection, details } => set_cbid_now(t, to_addr(collection), details_addr(details)),
        ExecuteMsg::AcceptAsk { id, details } => accept_ask_limit(t, id, details_addr(details)),
        ExecuteMsg::AcceptBid { id, details } => accept_bid_limit(t, id, details_addr(details)),
        ExecuteMsg::AcceptCollectionBid { id, token_id, details } => accept_cbid_limit(t, id, details_addr(details)),
        _ => true,
    }
}
// every stored order is the one that was there before, or exactly the one the message describes
pub open spec fn stores(t: Tx, a: Option<Ask>, b: Option<Bid>, c: Option<CollectionBid>) -> bool {
    &&& forall|k: String| #[trigger] t.s2.v2_asks@.dom().contains(k) ==> (t.s.v2_asks@.dom().contains(k) && t.s2.v2_asks@[k] == t.s.v2_asks@[k]) || a == Some(t.s2.v2_asks@[k])
    &&& forall|k: String| #[trigger] t.s2.v2_bids@.dom().contains(k) ==> (t.s.v2_bids@.dom().contains(k) && t.s2.v2_bids@[k] == t.s.v2_bids@[k]) || b == Some(t.s2.v2_bids@[k])
    &&& forall|k: String| #[trigger] t.s2.v2_collection_bids@.dom().contains(k) ==> (t.s.v2_collection_bids@.dom().contains(k) && t.s2.v2_collection_bids@[k] == t.s.v2_collection_bids@[k]) || c == Some(t.s2.v2_collection_bids@[k])
}
pub open spec fn msg_terms(t: Tx, m: ExecuteMsg) -> bool {
    match m {
        ExecuteMsg::SetAsk { collection, token_id, details } => stores(t, Some(new_ask(t.info.sender, to_addr(collection), token_id, details_addr(details))), None, None),
        ExecuteMsg::SellNft { collection, token_id, details } => stores(t, Some(new_ask(t.info.sender, to_addr(collection), token_id, details_addr(details))), None, None),
        ExecuteMsg::UpdateAsk { id, details } => stores(t, Some(upd_ask(t, id, details_addr(details))), None, None),
        ExecuteMsg::SetBid { collection, token_id, details } => stores(t, None, Some(mk_bid(t, to_addr(collection), token_id, details_addr(details))), None),
        ExecuteMsg::BuySpecificNft { collection, token_id, details } => stores(t, None, Some(mk_bid(t, to_addr(collection), token_id, details_addr(details))), None),
        ExecuteMsg::UpdateBid { id, details } => stores(t, None, Some(upd_bid(t, id, details_addr(details))), None),
        ExecuteMsg::SetCollectionBid { collection, details } => stores(t, None, None, Some(mk_cbid(t, to_addr(collection), details_addr(details)))),
        ExecuteMsg::BuyCollectionNft { collection, details } => stores(t, None, None, Some(mk_cbid(t, to_addr(collection), details_addr(details)))),
        ExecuteMsg::UpdateCollectionBid { id, details } => stores(t, None, None, Some(upd_cbid(t, id, details_addr(details)))),
        _ => stores(t, None, None, None),
    }
}
pub open spec fn msg_book(t: Tx, m: ExecuteMsg) -> bool {
    match m {
        ExecuteMsg::SetAsk { collection, token_id, details } => set_ask_book(t, to_addr(collection), token_id, details_addr(details)),
        ExecuteMsg::SellNft { collection, token_id, details } => set_ask_book(t, to_addr(collection), token_id, details_addr(details)),
        ExecuteMsg::UpdateAsk { id, details } => update_ask_book(t, id, details_addr(details)),
        ExecuteMsg::AcceptAsk { id, details } => accept_ask_book(t, id),
        ExecuteMsg::SetBid { collection, token_id, details } => set_bid_book(t, to_addr(collection), token_id, details_addr(details)),
        ExecuteMsg::BuySpecificNft { collection, token_id, details } => set_bid_book(t, to_addr(collection), token_id, details_addr(details)),
        ExecuteMsg::UpdateBid { id, details } => update_bid_book(t, id, details_addr(details)),
        ExecuteMsg::AcceptBid { id, details } => accept_bid_book(t, id, details_addr(details)),
        ExecuteMsg::SetCollectionBid { collection, details } => set_cbid_book(t, to_addr(collection), details_addr(details)),
        ExecuteMsg::BuyCollectionNft { collection, details } => set_cbid_book(t, to_addr(collection), details_addr(details)),
        ExecuteMsg::UpdateCollectionBid { id, details } => update_cbid_book(t, id, details_addr(details)),
        ExecuteMsg::AcceptCollectionBid { id, token_id, details } => accept_cbid_book(t, id, token_id, details_addr(details)),
        _ => true,
    }
}
pub open spec fn msg_pay(t: Tx, m: ExecuteMsg) -> bool {
    match m {
        ExecuteMsg::SetAsk { collection, token_id, details } => set_ask_pay(t, to_addr(collection), token_id, details_addr(details)),
        ExecuteMsg::SellNft { collection, token_id, details } => set_ask_pay(t, to_addr(collection), token_id, details_addr(details)),
        ExecuteMsg::UpdateAsk { id, details } => update_ask_pay(t, id, details_addr(details)),
        ExecuteMsg::AcceptAsk { id, details } => accept_ask_pay(t, id, details_addr(details)),
        ExecuteMsg::SetBid { collection, token_id, details } => set_bid_pay(t, to_addr(collection), token_id, details_addr(details)),
        ExecuteMsg::BuySpecificNft { collection, token_id, details } => set_bid_pay(t, to_addr(collection), token_id, details_addr(details)),
        ExecuteMsg::UpdateBid { id, details } => update_bid_pay(t, id, details_addr(details)),
        ExecuteMsg::AcceptBid { id, details } => accept_bid_pay(t, id, details_addr(details)),
        ExecuteMsg::SetCollectionBid { collection, details } => set_cbid_pay(t, to_addr(collection), details_addr(details)),
        ExecuteMsg::BuyCollectionNft { collection, details } => set_cbid_pay(t, to_addr(collection), details_addr(details)),
        ExecuteMsg::UpdateCollectionBid { id, details } => update_cbid_pay(t, id, details_addr(details)),
        ExecuteMsg::AcceptCollectionBid { id, token_id, details } => accept_cbid_pay(t, id, token_id, details_addr(details)),
        _ => true,
    }
}
pub open spec fn msg_nft(t: Tx, m: ExecuteMsg) -> bool {
    match m {
        ExecuteMsg::SetAsk { collection, token_id, details } => set_ask_nft(t, to_addr(collection), token_id, details_addr(details)),
        ExecuteMsg::SellNft { collection, token_id, details } => set_ask_nft(t, to_addr(collection), token_id, details_addr(details)),
        ExecuteMsg::UpdateAsk { id, details } => update_ask_nft(t, id, details_addr(details)),
        ExecuteMsg::AcceptAsk { id, details } => accept_ask_nft(t, id, details_addr(details)),
        ExecuteMsg::SetBid { collection, token_id, details } => set_bid_nft(t, to_addr(collection), token_id, details_addr(details)),
        ExecuteMsg::BuySpecificNft { collection, token_id, details } => set_bid_nft(t, to_addr(collection), token_id, details_addr(details)),
        ExecuteMsg::UpdateBid { id, details } => update_bid_nft(t, id, details_addr(details)),
        ExecuteMsg::AcceptBid { id, details } => accept_bid_nft(t, id, details_addr(details)),
        ExecuteMsg::SetCollectionBid { collection, details } => set_cbid_nft(t, to_addr(collection), details_addr(details)),
        ExecuteMsg::BuyCollectionNft { collection, details } => set_cbid_nft(t, to_addr(collection), details_addr(details)),
        ExecuteMsg::UpdateCollectionBid { id, details } => update_cbid_nft(t, id, details_addr(details)),
        ExecuteMsg::AcceptCollectionBid { id, token_id, details } => accept_cbid_nft(t, id, token_id, details_addr(details)),
        _ => true,
    }
}
pub open spec fn msg_withdraw(t: Tx, m: ExecuteMsg) -> bool {
    match m {
        ExecuteMsg::RemoveAsk { id } => remove_ask_out(t, id),
        ExecuteMsg::RemoveBid { id } => remove_bid_out(t, id),
        ExecuteMsg::RemoveCollectionBid { id } => remove_cbid_out(t, id),
        _ => true,
    }
}
// a creator's withdrawal is never refused
pub open spec fn withdraws(s: Storage, info: MessageInfo, m: ExecuteMsg) -> bool {
    info.funds@.len() == 0 && match m {
        ExecuteMsg::RemoveAsk { id } => s.v2_asks@.dom().contains(id) && s.v2_asks@[id].creator.g@ == info.sender.g@,
        ExecuteMsg::RemoveBid { id } => s.v2_bids@.dom().contains(id) && s.v2_bids@[id].creator.g@ == info.sender.g@,
        ExecuteMsg::RemoveCollectionBid { id } => s.v2_collection_bids@.dom().contains(id) && s.v2_collection_bids@[id].creator.g@ == info.sender.g@,
        _ => false,
    }
}

// ------------------------------------------------------------------ v2: what may not be refused (t: the message before it runs)
pub open spec fn reqst(s: Storage, w: QuerierWrapper, env: Env, info: MessageInfo) -> Tx { Tx { s, s2: s, ms: Seq::empty(), w, env, info } }
pub open spec fn free(t: Tx) -> bool { t.info.funds@.len() == 0 }
pub open spec fn covers(t: Tx, held: Option<Coin>, price: Coin) -> bool { coins_amt(t.info.funds@, price.denom.g@) + (match held { Some(c) => coin_amt(c, price.denom.g@), None => 0 }) >= price.amount.v }
pub open spec fn can_pay(t: Tx, a: Ask, m: MatchingBid, ask_first: bool) -> bool { payable(t.c(), t.w, t.me(), a, m, ask_first) }
pub open spec fn can_admin(t: Tx) -> bool { free(t) && is_admin(t.w, t.me(), t.who()) }
// an ask: any bid it may be matched with can be paid; without one it is stored (not for sell_now)
pub open spec fn can_ask(t: Tx, a: Ask) -> bool { forall|m: MatchingBid| #[trigger] best_bid(t.s.v2_bids@, t.s.v2_collection_bids@, a, Some(m)) ==> can_pay(t, a, m, false) }
pub open spec fn can_set_ask(t: Tx, c: Addr, tok: String, d: OrderDetails<Addr>, now: bool) -> bool {
    &&& set_ask_auth(t, c, tok) && set_ask_gate(t, c, tok, d) && can_ask(t, new_ask(t.info.sender, c, tok, d))
    &&& if now { !best_bid(t.s.v2_bids@, t.s.v2_collection_bids@, new_ask(t.info.sender, c, tok, d), None) } else { !t.s.v2_asks@.dom().contains(ask_key(c.g@, tok.g@)) }
}
pub open spec fn can_update_ask(t: Tx, id: String, d: OrderDetails<Addr>) -> bool { free(t) && own_ask(t, id) && update_ask_gate(t, id, d) && can_ask(t, upd_ask(t, id, d)) }
pub open spec fn can_accept_ask(t: Tx, id: String, d: OrderDetails<Addr>) -> bool { accept_ask_limit(t, id, d) && covers(t, None, t.ask(id).details.price) && can_pay(t, t.ask(id), MatchingBid::Bid(accept_ask_bid(t, id, d)), true) }
// a bid: the funds cover the ask it meets, and the sale can be paid; without one they cover the bid
pub open spec fn can_bid(t: Tx, b: Bid, held: Option<Coin>, now: bool) -> bool {
    let k = ask_key(b.collection.g@, b.token_id.g@);
    if t.s.v2_asks@.dom().contains(k) && bid_meets(b, t.s.v2_asks@[k]) { covers(t, held, t.s.v2_asks@[k].details.price) && can_pay(t, t.s.v2_asks@[k], MatchingBid::Bid(b), true) } else { !now && covers(t, held, b.details.price) }
}
pub open spec fn can_cbid(t: Tx, b: CollectionBid, held: Option<Coin>, now: bool) -> bool {
    &&& forall|a: Ask| #[trigger] best_ask(t.s.v2_asks@, b, Some(a)) ==> covers(t, held, a.details.price) && can_pay(t, a, MatchingBid::CollectionBid(b), true)
    &&& best_ask(t.s.v2_asks@, b, None) ==> !now && covers(t, held, b.details.price)
}
pub open spec fn can_set_bid(t: Tx, c: Addr, tok: String, d: OrderDetails<Addr>, now: bool) -> bool { set_bid_gate(t, c, tok, d) && can_bid(t, mk_bid(t, c, tok, d), None, now) }
pub open spec fn can_update_bid(t: Tx, id: String, d: OrderDetails<Addr>) -> bool { own_bid(t, id) && update_bid_gate(t, id, d) && can_bid(t, upd_bid(t, id, d), Some(t.bid(id).details.price), false) }
pub open spec fn can_accept_bid(t: Tx, id: String, d: OrderDetails<Addr>) -> bool { free(t) && accept_bid_limit(t, id, d) && accept_bid_auth(t, id, d) && can_pay(t, accept_bid_ask(t, id, d), MatchingBid::Bid(t.bid(id)), false) }
pub open spec fn can_set_cbid(t: Tx, c: Addr, d: OrderDetails<Addr>, now: bool) -> bool { set_cbid_gate(t, c, d) && can_cbid(t, mk_cbid(t, c, d), None, now) }
pub open spec fn can_update_cbid(t: Tx, id: String, d: OrderDetails<Addr>) -> bool { own_cbid(t, id) && update_cbid_gate(t, id, d) && can_cbid(t, upd_cbid(t, id, d), Some(t.cbid(id).details.price), false) }
pub open spec fn can_accept_cbid(t: Tx, id: String, tok: String, d: OrderDetails<Addr>) -> bool { free(t) && accept_cbid_limit(t, id, d) && accept_cbid_auth(t, id, tok, d) && can_pay(t, accept_cbid_ask(t, id, tok, d), MatchingBid::CollectionBid(t.cbid(id)), false) }
pub open spec fn good(a: String) -> bool { addr_ok(a.g@) }
pub open spec fn good_d(d: OrderDetails<String>) -> bool { (d.recipient is Some ==> good(d.recipient->0)) && (d.finder is Some ==> good(d.finder->0)) }
pub open spec fn good_cfg(c: Config<String>) -> bool { good(c.fee_manager) && good(c.royalty_registry) }
pub open spec fn msg_can(t: Tx, m: ExecuteMsg) -> bool {
    match m {
        ExecuteMsg::UpdateConfig { config } => good_cfg(config) && can_admin(t) && cfg_ok(config_addr(config)),
        ExecuteMsg::UpdateCollectionDenom { collection, denom } => good(collection) && can_admin(t),
        ExecuteMsg::SetListingFee { fee } => can_admin(t),
        ExecuteMsg::RemoveListingFee { denom } => can_admin(t),
        ExecuteMsg::SetAsk { collection, token_id, details } => good(collection) && good_d(details) && can_set_ask(t, to_addr(collection), token_id, details_addr(details), false),
        ExecuteMsg::SellNft { collection, token_id, details } => good(collection) && good_d(details) && can_set_ask(t, to_addr(collection), token_id, details_addr(details), true),
        ExecuteMsg::UpdateAsk { id, details } => good_d(details) && can_update_ask(t, id, details_addr(details)),
        ExecuteMsg::AcceptAsk { id, details } => good_d(details) && can_accept_ask(t, id, details_addr(details)),
        ExecuteMsg::SetBid { collection, token_id, details } => good(collection) && good_d(details) && can_set_bid(t, to_addr(collection), token_id, details_addr(details), false),
        ExecuteMsg::BuySpecificNft { collection, token_id, details } => good(collection) && good_d(details) && can_set_bid(t, to_addr(collection), token_id, details_addr(details), true),
        ExecuteMsg::UpdateBid { id, details } => good_d(details) && can_update_bid(t, id, details_addr(details)),
        ExecuteMsg::AcceptBid { id, details } => good_d(details) && can_accept_bid(t, id, details_addr(details)),
        ExecuteMsg::SetCollectionBid { collection, details } => good(collection) && good_d(details) && can_set_cbid(t, to_addr(collection), details_addr(details), false),
        ExecuteMsg::BuyCollectionNft { collection, details } => good(collection) && good_d(details) && can_set_cbid(t, to_addr(collection), details_addr(details), true),
        ExecuteMsg::UpdateCollectionBid { id, details } => good_d(details) && can_update_cbid(t, id, details_addr(details)),
        ExecuteMsg::AcceptCollectionBid { id, token_id, details } => good_d(details) && can_accept_cbid(t, id, token_id, details_addr(details)),
        ExecuteMsg::RemoveAsk { id } => free(t) && own_ask(t, id),
        ExecuteMsg::RemoveBid { id } => free(t) && own_bid(t, id),
        ExecuteMsg::RemoveCollectionBid { id } => free(t) && own_cbid(t, id),
    }
}

// ------------------------------------------------------------------ v2: histories
// what one accepted message does to the contract's balance of a denom (messages either all take
// effect or the transaction is undone)
pub open spec fn bal_step(b: int, t: Tx, d: Str) -> int { b + coins_amt(t.info.funds@, d) - paid_all(t.ms, d) }
pub open spec fn bal_n(h: Seq<Tx>, n: int, d: Str) -> int decreases n { if n <= 0 { 0 } else { bal_step(bal_n(h, n - 1, d), h[n - 1], d) } }
// after every history of accepted messages the contract holds exactly what it owes to the creators
// of the stored bids
pub proof fn solvent(h: Seq<Tx>, n: int, d: Str) /*#P01*/
    requires 0 <= n <= h.len(), forall|i: int| 0 <= i < h.len() ==> g_funds(#[trigger] h[i]), forall|i: int| 0 < i < h.len() ==> (#[trigger] h[i]).s == h[i - 1].s2,
        h.len() > 0 ==> esc(h[0].s, d) == 0,
    ensures n > 0 ==> bal_n(h, n, d) == esc(h[n - 1].s2, d),
    decreases n
{
    reveal_with_fuel(bal_n, 2);
    if n > 0 { solvent(h, n - 1, d); if n > 1 { assert(h[n - 1].s == h[n - 2].s2); } let t = h[n - 1]; assert(g_funds(t)); assert(esc(t.s2, d) + paid_all(t.ms, d) == esc(t.s, d) + coins_amt(t.info.funds@, d)); }
}

// ------------------------------------------------------------------ v2: queries
pub open spec fn q_asks_by_collection_denom(s: Storage, collection: Addr, denom: String, o: QueryOptions<PriceOffset>, out: Seq<Ask>) -> bool { page(s.v2_asks@, |v: Ask| v.collection == collection && v.details.price.denom == denom, |k: String, v: Ask| (v.details.price.amount.v, k), qb_price(o.min), qb_price(o.max), qo_order(o.descending), qo_limit(o.limit, None, None), out) }
pub open spec fn q_asks_by_creator_collection(s: Storage, creator: Addr, collection: Addr, o: QueryOptions<String>, out: Seq<Ask>) -> bool { page(s.v2_asks@, |v: Ask| v.creator == creator && v.collection == collection, |k: String, v: Ask| k, qb_id(o.min), qb_id(o.max), qo_order(o.descending), qo_limit(o.limit, None, None), out) }
pub open spec fn q_bids_by_token_price(s: Storage, collection: Addr, token_id: String, denom: String, o: QueryOptions<PriceOffset>, out: Seq<Bid>) -> bool { page(s.v2_bids@, |v: Bid| ct_key(v.collection.g@, v.token_id.g@) == ct_key(collection.g@, token_id.g@) && v.details.price.denom == denom, |k: String, v: Bid| (v.details.price.amount.v, k), qb_price(o.min), qb_price(o.max), qo_order(o.descending), qo_limit(o.limit, None, None), out) }
pub open spec fn q_bids_by_creator_collection(s: Storage, creator: Addr, collection: Addr, o: QueryOptions<String>, out: Seq<Bid>) -> bool { page(s.v2_bids@, |v: Bid| v.creator == creator && v.collection == collection, |k: String, v: Bid| k, qb_id(o.min), qb_id(o.max), qo_order(o.descending), qo_limit(o.limit, None, None), out) }
pub open spec fn q_collection_bids_by_price(s: Storage, collection: Addr, denom: String, o: QueryOptions<PriceOffset>, out: Seq<CollectionBid>) -> bool { page(s.v2_collection_bids@, |v: CollectionBid| v.collection == collection && v.details.price.denom == denom, |k: String, v: CollectionBid| (v.details.price.amount.v, k), qb_price(o.min), qb_price(o.max), qo_order(o.descending), qo_limit(o.limit, None, None), out) }
pub open spec fn q_collection_bids_by_creator_collection(s: Storage, creator: Addr, collection: Addr, o: QueryOptions<String>, out: Seq<CollectionBid>) -> bool { page(s.v2_collection_bids@, |v: CollectionBid| v.creator == creator && v.collection == collection, |k: String, v: CollectionBid| k, qb_id(o.min), qb_id(o.max), qo_order(o.descending), qo_limit(o.limit, None, None), out) }
// the stored records with the given ids, in the order asked for
pub open spec fn found<V>(m: Map<String, V>, ids: Seq<String>, n: int) -> Seq<V> decreases n { if n <= 0 { Seq::empty() } else if m.dom().contains(ids[n - 1]) { found(m, ids, n - 1).push(m[ids[n - 1]]) } else { found(m, ids, n - 1) } }
pub broadcast proof fn found1<V>(m: Map<String, V>, ids: Seq<String>, n: int)
    requires n == 1, ids.len() == 1
    ensures #[trigger] found(m, ids, n) == (if m.dom().contains(ids[0]) { seq![m[ids[0]]] } else { Seq::empty() })
{ reveal_with_fuel(found, 3); assert(found(m, ids, n) =~= (if m.dom().contains(ids[0]) { seq![m[ids[0]]] } else { Seq::empty() })); }
pub open spec fn found_one<V>(m: Map<String, V>, id: String) -> Option<V> { if m.dom().contains(id) { Some(m[id]) } else { None } }
pub open spec fn qopt<T>(o: Option<QueryOptions<T>>) -> QueryOptions<T> { match o { Some(x) => x, None => QueryOptions { limit: None, descending: None, min: None, max: None } } }
pub uninterp spec fn json_cfg(c: Config<Addr>) -> int;
impl ToPayload for Config<Addr> { open spec fn payload(&self) -> Payload { Payload::Other(json_cfg(*self)) } }
pub open spec fn aq_asks_by_collection_denom(s: Storage, collection: Addr, denom: String, o: QueryOptions<PriceOffset>, p: Payload) -> bool { exists|out: Seq<Ask>| #[trigger] q_asks_by_collection_denom(s, collection, denom, o, out) && p == Payload::Other(json_seq(out)) }
pub open spec fn aq_asks_by_creator_collection(s: Storage, creator: Addr, collection: Addr, o: QueryOptions<String>, p: Payload) -> bool { exists|out: Seq<Ask>| #[trigger] q_asks_by_creator_collection(s, creator, collection, o, out) && p == Payload::Other(json_seq(out)) }
pub open spec fn aq_bids_by_token_price(s: Storage, collection: Addr, token_id: String, denom: String, o: QueryOptions<PriceOffset>, p: Payload) -> bool { exists|out: Seq<Bid>| #[trigger] q_bids_by_token_price(s, collection, token_id, denom, o, out) && p == Payload::Other(json_seq(out)) }
pub open spec fn aq_bids_by_creator_collection(s: Storage, creator: Addr, collection: Addr, o: QueryOptions<String>, p: Payload) -> bool { exists|out: Seq<Bid>| #[trigger] q_bids_by_creator_collection(s, creator, collection, o, out) && p == Payload::Other(json_seq(out)) }
pub open spec fn aq_collection_bids_by_price(s: Storage, collection: Addr, denom: String, o: QueryOptions<PriceOffset>, p: Payload) -> bool { exists|out: Seq<CollectionBid>| #[trigger] q_collection_bids_by_price(s, collection, denom, o, out) && p == Payload::Other(json_seq(out)) }
pub open spec fn aq_collection_bids_by_creator_collection(s: Storage, creator: Addr, collection: Addr, o: QueryOptions<String>, p: Payload) -> bool { exists|out: Seq<CollectionBid>| #[trigger] q_collection_bids_by_creator_collection(s, creator, collection, o, out) && p == Payload::Other(json_seq(out)) }
pub open spec fn query_ok(s: Storage, m: QueryMsg, p: Payload) -> bool {
    match m {
        QueryMsg::Config {} => s.v2_CONFIG@ is Some && p == Payload::Other(json_cfg(s.v2_CONFIG@->0)),
        QueryMsg::CollectionDenom { collection } => p == Payload::Other(json_opt(if s.v2_COLLECTION_DENOMS@.dom().contains(to_addr(collection)) { Some(s.v2_COLLECTION_DENOMS@[to_addr(collection)]) } else { None })),
        QueryMsg::Ask(id) => p == Payload::Other(json_opt(found_one(s.v2_asks@, id))),
        QueryMsg::Bid(id) => p == Payload::Other(json_opt(found_one(s.v2_bids@, id))),
        QueryMsg::CollectionBid(id) => p == Payload::Other(json_opt(found_one(s.v2_collection_bids@, id))),
        QueryMsg::Asks(ids) => p == Payload::Other(json_seq(found(s.v2_asks@, ids@, ids@.len() as int))),
        QueryMsg::Bids(ids) => p == Payload::Other(json_seq(found(s.v2_bids@, ids@, ids@.len() as int))),
        QueryMsg::CollectionBids(ids) => p == Payload::Other(json_seq(found(s.v2_collection_bids@, ids@, ids@.len() as int))),
        QueryMsg::AsksByCollectionDenom { collection, denom, query_options } => aq_asks_by_collection_denom(s, to_addr(collection), denom, qopt(query_options), p),
        QueryMsg::AsksByCreatorCollection { creator, collection, query_options } => aq_asks_by_creator_collection(s, to_addr(creator), to_addr(collection), qopt(query_options), p),
        QueryMsg::BidsByTokenPrice { collection, token_id, denom, query_options } => aq_bids_by_token_price(s, to_addr(collection), token_id, denom, qopt(query_options), p),
        QueryMsg::BidsByCreatorCollection { creator, collection, query_options } => aq_bids_by_creator_collection(s, to_addr(creator), to_addr(collection), qopt(query_options), p),
        QueryMsg::CollectionBidsByPrice { collection, denom, query_options } => aq_collection_bids_by_price(s, to_addr(collection), denom, qopt(query_options), p),
        QueryMsg::CollectionBidsByCreatorCollection { creator, collection, query_options } => aq_collection_bids_by_creator_collection(s, to_addr(creator), to_addr(collection), qopt(query_options), p),
    }
}
// the name this contract is known by in its version record
pub open spec fn own_name() -> Str { "stargaze-marketplace-v2"@ }
