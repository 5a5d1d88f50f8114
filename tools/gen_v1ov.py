#!/usr/bin/env python3
# Writes contracts/v1/v1.ov: the contracts of the classic marketplace's functions, from the table below.
import os
OUT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "../contracts/v1/v1.ov")
L = []
w = L.append
w("// ---- stargaze-marketplace (classic) and sg1; written by tools/gen_v1ov.py")
T = "tx(*old(deps.storage), *final(deps.storage), r->Ok_0, deps.querier, %s, info)"
TN = "txn(*old(deps.storage), *final(deps.storage), r->Ok_0, deps.querier, info)"

def fn(path, opts="", req=None, ens=(), extra=()):
    if "noabort" not in opts: opts += " noabort=P27"
    w(f"@fn {path} {opts}".rstrip())
    if req:
        w(f"    requires {req},")
    if ens:
        w("    ensures")
        for e, tags in ens:
            w(f"        {e}, /*#{tags}*/")
    for x in extra:
        w(x)

# ---- orders
w("@impl v1::state::Order\n    spec fn exp_sp(&self) -> Timestamp;")
w("@decl v1::state::Order::expires_at\n    fn expires_at(&self) -> (r: Timestamp) ensures r == self.exp_sp();")
for t in ("Ask", "Bid", "CollectionBid"):
    w(f"@impl v1::state::{t}\n    open spec fn exp_sp(&self) -> Timestamp {{ self.expires_at }}")
    fn(f"v1::state::{t}::expires_at")
fn("v1::state::Order::is_expired", ens=[("r == (self.exp_sp().n <= block.time.n)", "P14,P15,P17")])
fn("v1::helpers::map_validate", "anyloops", ens=[
    ("r is Ok ==> r->Ok_0@.no_duplicates()", "P16"),
    ("r is Ok ==> forall|x: Addr| #[trigger] r->Ok_0@.contains(x) <==> named(addresses@, addresses@.len() as int, x)", "P16"),
    ("(forall|j: int| 0 <= j < addresses@.len() ==> addr_ok((#[trigger] addresses@[j]).g@)) ==> r is Ok", "P27")],
   extra=["@loop", "    invariant (forall|j: int| 0 <= j < addresses@.len() ==> addr_ok((#[trigger] addresses@[j]).g@)) ==> __cerr is None, /*#P27*/\n        __it0.v@.len() == addresses@.len(), forall|j: int| 0 <= j < addresses@.len() ==> *(#[trigger] __it0.v@[j]) == addresses@[j], __cerr is None ==> forall|x: Addr| #[trigger] __coll@.contains(x) <==> named(addresses@, __it0.i@, x), /*#P16*/"])
fn("v1::helpers::ExpiryRange::is_valid", ens=[("r is Ok <==> within(*self, block.time.n as int, expires)", "P15")])
fn("v1::helpers::ExpiryRange::validate", ens=[("r is Ok <==> range_ok(*self)", "P16")])
# ---- hooks
for m, e in (("AskHookMsg", "p_ask(act(action), self.ask)"), ("BidHookMsg", "p_bid(act(action), self.bid)"), ("CollectionBidHookMsg", "p_cbid(act(action), self.collection_bid)"), ("SaleHookMsg", "Payload::Other(json_sale(self))")):
    fn(f"v1::msg::{m}::into_json_binary", ens=[(f"r is Ok, r->Ok_0.p@ == {e}", "P18")])
for f, h, i, p in (("ask", "ASK", 1, "p_ask(act(action), *ask)"), ("bid", "BID", 3, "p_bid(act(action), *bid)"), ("collection_bid", "COLLECTION_BID", 4, "p_cbid(act(action), *collection_bid)")):
    fn(f"v1::execute::prepare_{f}_hook", ens=[(f"r is Ok, notifies(r->Ok_0@, deps.storage.v1_{h}_HOOKS@, deps.storage.v1_{h}_HOOKS@.len() as int, {i}, {p})", "P18")],
       extra=["@loop", f"    invariant __it0.v@ == deps.storage.v1_{h}_HOOKS@, notifies(__hooks@, deps.storage.v1_{h}_HOOKS@, __it0.i@, {i}, {p}), /*#P18*/"])
SM = "(ask.collection, ask.token_id, ask.price.v as int, ask.seller, buyer)"
fn("v1::execute::prepare_sale_hook", ens=[("r is Ok, notifies(r->Ok_0@, deps.storage.v1_SALE_HOOKS@, deps.storage.v1_SALE_HOOKS@.len() as int, 2, p_sale(ask.collection, ask.token_id, ask.price.v as int, ask.seller, buyer))", "P18")],
   extra=["@loop", "    invariant __it0.v@ == deps.storage.v1_SALE_HOOKS@, notifies(__hooks@, deps.storage.v1_SALE_HOOKS@, __it0.i@, 2, p_sale(ask.collection, ask.token_id, ask.price.v as int, ask.seller, buyer)), /*#P18*/"])
# ---- paying
def added(old, new, amt):
    return [(f"forall|d: Str| #[trigger] paid_all({new}, d) == paid_all({old}, d) + in_nat(d, {amt})", "P11,P12")]
O, N = "old(res).messages@", "final(res).messages@"
fn("sg1::lib::fair_burn", ens=[
    (f"developer is None ==> forall|to: Str, d: Str| #[trigger] paid({N}, to, d) == paid({O}, to, d)", "P12"),
    (f"developer is None ==> forall|d: Str| #[trigger] paid_all({N}, d) == paid_all({O}, d) + in_nat(d, fee as int)", "P11,P12"),
    (f"developer is None ==> forall|d: Str| #[trigger] burnt({N}, d) == burnt({O}, d) + in_nat(d, fee as int)", "P12"),
    (f"adds_none({O}, {N})", "P12,P18"),
    (f"developer is None && fee > 0 && nz({O}) ==> nz({N})", "P11")])
fn("v1::execute::payout", "optional rlimit 60", req="inv_par(*deps.storage)", ens=[
    ("r is Ok ==> info_known(deps.querier, collection) && fits(pp(*deps.storage), payment.v as int, finder, finders_fee_bps, roy_sp(deps.querier, collection))", "P12"),
    (f"r is Ok ==> forall|to: Str, d: Str| #[trigger] paid({N}, to, d) == paid({O}, to, d) + split_to(pp(*deps.storage), payment.v as int, payment_recipient.g@, finder, finders_fee_bps, roy_sp(deps.querier, collection), to, d)", "P12"),
    (f"r is Ok ==> forall|d: Str| #[trigger] paid_all({N}, d) == paid_all({O}, d) + in_nat(d, payment.v as int)", "P11,P12"),
    (f"r is Ok ==> forall|d: Str| #[trigger] burnt({N}, d) == burnt({O}, d) + in_nat(d, net_fee(pp(*deps.storage), payment.v as int))", "P12"),
    (f"r is Ok ==> adds_none({O}, {N})", "P12,P18"),
    (f"r is Ok && nz({O}) ==> nz({N})", "P11"),
    ("info_known(deps.querier, collection) && fits(pp(*deps.storage), payment.v as int, finder, finders_fee_bps, roy_sp(deps.querier, collection)) ==> r is Ok", "P27")])
fn("v1::execute::finalize_sale", "optional", req="inv_par(*deps.storage)", ens=[
    ("r is Ok ==> info_known(deps.querier, ask.collection) && fits(pp(*deps.storage), price.v as int, finder, ask.finders_fee_bps, roy_sp(deps.querier, ask.collection))", "P12"),
    (f"r is Ok ==> forall|to: Str, d: Str| #[trigger] paid({N}, to, d) == paid({O}, to, d) + split_to(pp(*deps.storage), price.v as int, paid_ask(ask), finder, ask.finders_fee_bps, roy_sp(deps.querier, ask.collection), to, d)", "P12"),
    (f"r is Ok ==> forall|d: Str| #[trigger] paid_all({N}, d) == paid_all({O}, d) + in_nat(d, price.v as int)", "P11,P12"),
    (f"r is Ok ==> forall|d: Str| #[trigger] burnt({N}, d) == burnt({O}, d) + in_nat(d, net_fee(pp(*deps.storage), price.v as int))", "P12"),
    (f"r is Ok ==> nfts({N}) == nfts({O}) + move_of(ask.collection, ask.token_id, match asset_recipient {{ Some(x) => x, None => buyer }})", "P12,P14"),
    (f"r is Ok ==> hook_log({N}) == hook_log({O}) + sale_log(*deps.storage, ask.collection, ask.token_id, ask.price.v as int, ask.seller, buyer)", "P18"),
    (f"r is Ok ==> safe({N}) == safe({O})", "P18"),
    (f"r is Ok && nz({O}) ==> nz({N})", "P11"),
    ("info_known(deps.querier, ask.collection) && fits(pp(*deps.storage), price.v as int, finder, ask.finders_fee_bps, roy_sp(deps.querier, ask.collection)) ==> r is Ok", "P27")])

# ---- handlers
def common(t):
    return [(f"r is Ok ==> g_funds({t})", "P11"), (f"r is Ok ==> nz(({t}).ms)", "P11"), (f"r is Ok ==> safe(({t}).ms)", "P18"),
            ("r is Ok ==> inv_key(*final(deps.storage))", "P13"), ("r is Ok ==> inv_price(*final(deps.storage))", "P11"),
            ("r is Ok ==> inv_ask(*final(deps.storage))", "P15"), (f"r is Ok ==> g_par({t}) && inv_par(*final(deps.storage)) && inv_hooks(*final(deps.storage))", "P16,P18")]
def handler(name, clauses, can, env="env", opts=""):
    t = TN if env is None else T % env
    q = "reqn(*old(deps.storage), deps.querier, info)" if env is None else f"req(*old(deps.storage), deps.querier, {env}, info)"
    fn(f"v1::execute::{name}", (opts + " noabort=P27").strip(), req="inv(*old(deps.storage))", ens=[("r is Ok ==> " + c.replace("@T", t), tags) for c, tags in clauses] + common(t) + [(can.replace("@Q", q) + " ==> r is Ok", "P27")])
AK = "(collection, token_id)"
handler("execute_set_ask", [("set_ask_auth(@T, ask_info)", "P13"), ("set_ask_gate(@T, ask_info)", "P15"), ("set_ask_fee(@T)", "P15"), ("set_ask_state(@T, ask_info)", "P13,P15"), ("moves_none(@T)", "P12"), ("set_ask_hook(@T, ask_info)", "P18")], "can_list(@Q, ask_info)")
handler("execute_remove_ask", [(f"own_k(@T, {AK})", "P13"), (f"remove_ask_state(@T, {AK})", "P13"), ("no_pay(@T)", "P11"), ("moves_none(@T)", "P12"), (f"remove_ask_hook(@T, {AK})", "P18")], f"can_delist(@Q, {AK})", env=None)
handler("execute_update_ask_price", [(f"own_k(@T, {AK})", "P13"), (f"reprice_gate(@T, {AK}, price)", "P15"), (f"reprice_state(@T, {AK}, price)", "P13,P15"), ("no_pay(@T)", "P11"), ("moves_none(@T)", "P12"), (f"reprice_hook(@T, {AK}, price)", "P18")], f"can_reprice(@Q, {AK}, price)")
handler("execute_set_bid", [("set_bid_gate(@T, bid_info)", "P15"), ("set_bid_listing(@T, bid_info, buy_now)", "P14"), ("set_bid_state(@T, bid_info)", "P13,P14"), ("set_bid_nft(@T, bid_info, asset_recipient)", "P12,P14"), ("set_bid_refund(@T, bid_info)", "P11"), ("buy_pay(@T, bid_info)", "P12"), ("set_bid_hook(@T, bid_info)", "P18")], "can_bid(@Q, bid_info, buy_now)")
BK = "(collection, token_id, %s)"
handler("execute_remove_bid", [("drop_bid_state(@T, (collection, token_id, info.sender))", "P13"), ("drop_bid_refund(@T, (collection, token_id, info.sender))", "P11"), ("moves_none(@T)", "P12"), ("drop_bid_hook(@T, (collection, token_id, info.sender))", "P18")], "can_withdraw(@Q, (collection, token_id, info.sender))", env="_env")
BKB = "(collection, token_id, bidder)"
OB = "old(deps.storage).v1_bids@[(collection, token_id, bidder)]"
handler("execute_accept_bid", [("accept_auth(@T, collection, token_id)", "P13"), (f"accept_state(@T, {BKB})", "P13"), (f"accept_gate(@T, collection, {OB}.expires_at)", "P15"), (f"accept_pay(@T, collection, {OB}.price.v as int, finder, {OB}.finders_fee_bps)", "P12"), ("accept_nft(@T, collection, token_id, bidder)", "P12"), (f"accept_hook(@T, collection, token_id, {OB}.price.v as int, bidder)", "P18")], f"can_accept(@Q, {BKB}, finder)")
handler("execute_reject_bid", [(f"own_k(@T, {AK})", "P13"), (f"drop_bid_state(@T, {BKB})", "P13"), (f"drop_bid_refund(@T, {BKB})", "P11"), ("moves_none(@T)", "P12"), (f"drop_bid_hook(@T, {BKB})", "P18")], f"can_reject(@Q, {BKB})", env="_env")
handler("execute_set_collection_bid", [("set_cbid_gate(@T, finders_fee_bps, expires)", "P15"), ("set_cbid_state(@T, collection, finders_fee_bps, expires)", "P13"), ("set_cbid_refund(@T, collection)", "P11"), ("moves_none(@T)", "P12"), ("set_cbid_hook(@T, collection, finders_fee_bps, expires)", "P18")], "can_cbid(@Q, finders_fee_bps, expires)")
handler("execute_remove_collection_bid", [("drop_cbid_state(@T, (collection, info.sender))", "P13"), ("drop_cbid_refund(@T, (collection, info.sender))", "P11"), ("moves_none(@T)", "P12"), ("drop_cbid_hook(@T, (collection, info.sender))", "P18")], "can_withdraw_c(@Q, (collection, info.sender))", env="_env")
OC = "old(deps.storage).v1_collection_bids@[(collection, bidder)]"
handler("execute_accept_collection_bid", [("accept_auth(@T, collection, token_id)", "P13"), ("accept_c_state(@T, (collection, bidder), token_id)", "P13"), (f"accept_gate(@T, collection, {OC}.expires_at)", "P15"), (f"accept_pay(@T, collection, {OC}.price.v as int, finder, {OC}.finders_fee_bps)", "P12"), ("accept_nft(@T, collection, token_id, bidder)", "P12"), (f"accept_hook(@T, collection, token_id, {OC}.price.v as int, bidder)", "P18")], "can_accept_c(@Q, (collection, bidder), token_id, finder)")
handler("execute_sync_ask", [("operator(@T)", "P13"), (f"sync_state(@T, {AK})", "P13,P17"), ("no_pay(@T)", "P11"), ("moves_none(@T)", "P12"), (f"sync_hook(@T, {AK})", "P18")], f"can_sync(@Q, {AK})", opts="anyloops")
handler("execute_remove_stale_ask", [("operator(@T)", "P13"), (f"remove_ask_state(@T, {AK})", "P13"), (f"stale_ask(@T, {AK})", "P17"), ("no_pay(@T)", "P11"), ("moves_none(@T)", "P12"), (f"remove_ask_hook(@T, {AK})", "P18")], f"can_clear_ask(@Q, {AK})", opts="anyloops")
handler("execute_remove_stale_bid", [("operator(@T)", "P13"), (f"drop_bid_state(@T, {BKB})", "P13"), (f"(@T).now >= stale_at(*old(deps.storage), {OB}.expires_at)", "P17"), (f"stale_pay(@T, bidder, {OB}.price.v as int)", "P17"), ("moves_none(@T)", "P12"), (f"drop_bid_hook(@T, {BKB})", "P18")], f"can_clear_bid(@Q, {BKB})", opts="anyloops")
handler("execute_remove_stale_collection_bid", [("operator(@T)", "P13"), ("drop_cbid_state(@T, (collection, bidder))", "P13"), (f"(@T).now >= stale_at(*old(deps.storage), {OC}.expires_at)", "P17"), (f"stale_pay(@T, bidder, {OC}.price.v as int)", "P17"), ("moves_none(@T)", "P12"), ("drop_cbid_hook(@T, (collection, bidder))", "P18")], "can_clear_cbid(@Q, (collection, bidder))", opts="anyloops")
handler("execute", [("m_auth(@T, msg)", "P13"), ("m_refund(@T, msg)", "P11"), ("m_sale(@T, msg)", "P12"), ("m_buy(@T, msg)", "P14"), ("m_gate(@T, msg)", "P15"), ("m_stale(@T, msg)", "P17"), ("m_hook(@T, msg)", "P18")], "m_can(@Q, msg)", opts="split msg")
fn("v1::execute::reply", "noabort=P18", req="1 <= msg.id <= 4, msg.result is Err", ens=[("r is Ok, r->Ok_0.messages@.len() == 0, *final(_deps.storage) == *old(_deps.storage)", "P18")])

# ---- governance
FI = "*final(deps.storage)"
OI = "*old(deps.storage)"
def orders(fin=FI, o=OI):
    return f"{fin.replace('*','')}.v1_asks == {o.replace('*','')}.v1_asks && {fin.replace('*','')}.v1_bids == {o.replace('*','')}.v1_bids && {fin.replace('*','')}.v1_collection_bids == {o.replace('*','')}.v1_collection_bids"
fn("v1::execute::instantiate", "anyloops", ens=[
    (f"r is Ok ==> inv_par({FI}) && init_par(pp({FI}), msg)", "P16"),
    (f"r is Ok ==> {orders()} && r->Ok_0.messages@.len() == 0", "P11,P13"),
    ("r is Ok ==> upgraded(final(deps.storage).cw2@)", "P30"),
    (f"init_can({OI}, msg) ==> r is Ok", "P27"),
    ("r is Ok ==> final(deps.storage).v1_ASK_HOOKS == old(deps.storage).v1_ASK_HOOKS && final(deps.storage).v1_BID_HOOKS == old(deps.storage).v1_BID_HOOKS && final(deps.storage).v1_COLLECTION_BID_HOOKS == old(deps.storage).v1_COLLECTION_BID_HOOKS && (match msg.sale_hook { Some(h) => hook_added(old(deps.storage).v1_SALE_HOOKS@, final(deps.storage).v1_SALE_HOOKS@, to_addr(h)), None => final(deps.storage).v1_SALE_HOOKS == old(deps.storage).v1_SALE_HOOKS })", "P18"),
])
def sudo(name, clauses, can, opts=""):
    fn(f"v1::sudo::{name}", opts, req=f"inv({OI})", ens=[("r is Ok ==> " + c, t) for c, t in clauses] + [
        (f"r is Ok ==> r->Ok_0.messages@.len() == 0 && {orders()}", "P11,P13"), (f"r is Ok ==> inv_par({FI})", "P16"), (f"r is Ok ==> inv_hooks({FI})", "P18"), (f"r is Ok ==> inv({FI})", "P13,P16"), (f"{can} ==> r is Ok", "P27")])
sudo("sudo_update_params", [(f"params_set({OI}, {FI}, param_info)", "P16")], "par_in(param_info)")
sudo("sudo_add_operator", [(f"op_added({OI}, {FI}, operator)", "P16")], f"!pp({OI}).operators@.contains(operator)", "anyloops")
sudo("sudo_remove_operator", [(f"op_removed({OI}, {FI}, operator)", "P16")], f"pp({OI}).operators@.contains(operator)", "anyloops")
for k, g in (("sale", "SALE"), ("ask", "ASK"), ("bid", "BID")):
    sudo(f"sudo_add_{k}_hook", [(f"hook_added(old(deps.storage).v1_{g}_HOOKS@, final(deps.storage).v1_{g}_HOOKS@, hook) && {FI} == w_{k}_hooks({OI}, final(deps.storage).v1_{g}_HOOKS@)", "P18")], f"can_hook(old(deps.storage).v1_{g}_HOOKS@, hook)")
    sudo(f"sudo_remove_{k}_hook", [(f"hook_gone(old(deps.storage).v1_{g}_HOOKS@, final(deps.storage).v1_{g}_HOOKS@, hook) && {FI} == w_{k}_hooks({OI}, final(deps.storage).v1_{g}_HOOKS@)", "P18")], f"old(deps.storage).v1_{g}_HOOKS@.contains(hook)")
sudo("sudo", [(f"sudo_par({OI}, {FI}, msg)", "P16"), (f"sudo_hooks({OI}, {FI}, msg)", "P18")], f"sudo_can({OI}, msg)", "anyloops split msg")
# ---- migration
fn("v1::execute::migrate", "noabort=P30", ens=[
    (f"r is Ok ==> upgradable(old(deps.storage).cw2@)", "P30"),
    (f"r is Ok ==> {FI} == (Storage {{ cw2: final(deps.storage).cw2, ..{OI} }}) && r->Ok_0.messages@.len() == 0", "P11,P13,P16,P18,P30"),
    (f"r is Ok ==> upgraded(final(deps.storage).cw2@)", "P30"),
    ("upgradable(old(deps.storage).cw2@) ==> r is Ok", "P30")],
    extra=["@entry", "    broadcast use {version_lt_asym, version_lt_total, axiom_own_version};"])
# ---- queries
w("@mod v1::query\nuse crate::shim::Order;")
S = "*deps.storage"
def query(name, sp, field, args, extra=(), opts=""):
    fn(f"v1::query::{name}", opts, ens=[(f"r is Ok ==> {sp}({S}, {args}, qlim(limit), r->Ok_0.{field}@)", "P26")], extra=extra)
query("query_collections", "q_collections", "collections", "opt_to_addr(start_after)", extra=[
    "@entry", "    broadcast use {axiom_str_plt_irrefl, axiom_str_plt_asym}; let ghost st0 = opt_to_addr(start_after); let ghost lim0 = limit;",
    "@loop",
    "    invariant col_walk(*deps.storage, st0, __it0.v@, __it0.i@, collections@), collections@.len() <= limit, limit == qlim(lim0), /*#P26*/"])
query("query_asks", "q_asks", "asks", "collection, include_inactive, start_after")
query("reverse_query_asks", "q_asks_rev", "asks", "collection, include_inactive, start_before")
query("query_asks_sorted_by_price", "q_asks_price", "asks", "collection, include_inactive, start_after")
query("reverse_query_asks_sorted_by_price", "q_asks_price_rev", "asks", "collection, include_inactive, start_before")
fn("v1::query::query_ask_count", ens=[(f"r is Ok ==> r->Ok_0.count == ask_count({S}, collection) as u32", "P26")])
query("query_asks_by_seller", "q_asks_seller", "asks", "seller, include_inactive, start_after")
fn("v1::query::query_ask", ens=[("r is Ok ==> r->Ok_0.ask == found(deps.storage.v1_asks@, (collection, token_id))", "P26")])
fn("v1::query::query_bid", ens=[("r is Ok ==> r->Ok_0.bid == found(deps.storage.v1_bids@, (collection, token_id, bidder))", "P26")])
query("query_bids_by_bidder", "q_bids_bidder", "bids", "bidder, start_after")
query("query_bids", "q_bids", "bids", "collection, token_id, start_after")
query("query_bids_sorted_by_price", "q_bids_price", "bids", "collection, start_after")
query("reverse_query_bids_sorted_by_price", "q_bids_price_rev", "bids", "collection, start_before")
query("query_bids_by_bidder_sorted_by_expiry", "q_bids_expiry", "bids", "bidder, start_after")
fn("v1::query::query_collection_bid", ens=[("r is Ok ==> r->Ok_0.bid == found(deps.storage.v1_collection_bids@, (collection, bidder))", "P26")])
query("query_collection_bids_sorted_by_price", "q_cbids_price", "bids", "collection, start_after")
query("reverse_query_collection_bids_sorted_by_price", "q_cbids_price_rev", "bids", "collection, start_before")
query("query_collection_bids_by_bidder", "q_cbids_bidder", "bids", "bidder, start_after")
query("query_collection_bids_by_bidder_sorted_by_expiry", "q_cbids_expiry", "bids", "bidder, start_after")
fn("v1::query::query_params", ens=[("r is Ok ==> deps.storage.v1_SUDO_PARAMS@ == Some(r->Ok_0.params)", "P26")])
fn("v1::query::query", ens=[(f"r is Ok ==> query_ok({S}, msg, r->Ok_0.p@)", "P26")], opts="split msg")
open(OUT, "w").write("\n".join(L) + "\n")
