#!/usr/bin/env python3
"""writes properties.jsonl"""
import json, os
V2 = "contracts/stargaze-marketplace-v2/src/"
CM = "packages/sg-marketplace-common/src/"
V1 = "contracts/marketplace/src/"
RA = "contracts/reserve-auction/src/"
P = []


def p(id, title, statement, over, text, why, files, state, mech, observe):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": observe, "hook_needed": None}})


H = ["inputs", "histories", "configurations"]
TXT = "every message with any arguments and funds, from any sender, in every state reachable by any history of messages, under every valid configuration and every behaviour of the queried contracts that the interface allows"
NOV2 = "The order book's own test suite is not part of the stable tests (one of its tests runs); even that suite walks a handful of hand-picked orders, while the claim ranges over all histories, prices, fee settings and order mixes."
NOV1 = "The existing tests follow a few dozen scripted scenarios with round prices and one fee setting; the claim ranges over every price, fee share, order mix and history."
NORA = "The existing tests follow about twenty scripted auctions with round amounts and regular block times; the claim ranges over every bid amount, increment, block time and interleaving of auctions."

# ---------------------------------------------------------------- v2 order book
p("P01", "Order book: every message conserves funds and bid escrow stays fully backed",
  "In the peer-to-peer order book (marketplace v2), for every accepted message and every denom the funds received equal the funds sent out (payments, refunds, fees) plus the change in the total escrowed by open bids, so the contract always holds at least the sum of all open bids and never keeps or loses anything else. Payments are never zero-amount and are all-or-nothing with the message. A message that has nothing to pay for rejects attached funds.",
  H, TXT, NOV2, [V2 + "execute.rs", V2 + "helpers.rs", CM + "coin.rs", CM + "sale.rs"],
  [("bids, collection bids", "open offers whose price is escrowed", V2 + "state.rs")],
  [("may_pay/must_pay/nonpayable and transfer_coin in each handler", V2 + "execute.rs"), ("NftSaleProcessor payout", CM + "sale.rs")],
  ["bank balances of the contract and of every account", "stored bids and collection bids"])
p("P02", "Order book: a sale splits the price exactly among the entitled parties",
  "When the order book executes a sale at a price, the protocol share, the maker and taker rewards, the capped royalty and the seller's remainder are as configured: each fee is its share of the price rounded up to a whole unit, the seller gets the rest. They go to exactly the entitled recipients and add up to the price; the price is the resting order's price. The seller receives price minus all fees and the sale is refused rather than overpaid when the fees exceed the price.",
  H, TXT, NOV2, [V2 + "helpers.rs", CM + "sale.rs", CM + "royalties.rs"],
  [("config fee percentages", "protocol fee, maker and taker shares, max royalty", V2 + "state.rs")],
  [("divide_protocol_fees, finalize_sale", V2 + "helpers.rs"), ("NftSaleProcessor::build_payments", CM + "sale.rs"), ("fetch_or_set_royalties", CM + "royalties.rs")],
  ["bank transfers made by the message, per recipient and denom"])
p("P03", "Order book: listed NFTs are held in custody and released only to the entitled",
  "While an NFT is listed in the order book the contract owns it, and every NFT leaves custody in exactly one way: back to the seller or their named recipient when the listing is removed, or to the buyer or their named recipient in the same message as the sale that consumes the listing. No message moves an NFT otherwise.",
  H, TXT, NOV2, [V2 + "execute.rs", V2 + "helpers.rs", CM + "nft.rs"],
  [("asks", "listings; each implies custody of its NFT", V2 + "state.rs")],
  [("transfer_nft in set/remove/accept handlers and finalize_sale", V2 + "execute.rs")],
  ["owner of each NFT", "stored listings"])
p("P04", "Order book: only owners, order creators and the admin can act",
  "Only the contract's admin can change configuration, collection denoms or listing fees; only an order's creator can change or withdraw it; and only the owner of an NFT can list it or sell it into a bid. Every other message leaves all existing orders of other users intact except the one order it trades against.",
  H, TXT, NOV2, [V2 + "execute.rs", V2 + "helpers.rs", CM + "nft.rs"], [],
  [("only_contract_admin", V2 + "helpers.rs"), ("creator checks in update/remove handlers", V2 + "execute.rs"), ("only_owner", CM + "nft.rs")],
  ["accepted/rejected messages by sender", "stored orders before and after"])
p("P05", "Order book: price limits always hold; immediate trades match or abort",
  "A trade in the order book never executes above the buyer's stated limit or below the seller's, and only in the same denom, NFT and collection the parties named. A message that asks for an immediate trade either executes it or has no effect at all.",
  H, TXT, NOV2, [V2 + "orders.rs", V2 + "execute.rs"], [],
  [("match_with_bid / match_with_ask", V2 + "orders.rs"), ("sell_now/buy_now checks, min/max details on accept", V2 + "execute.rs")],
  ["price paid in each sale against both orders' prices"])
p("P06", "Order book: crossing orders trade at once, at the best resting price",
  "A new or re-priced order that crosses the book trades immediately against the best-priced resting order on the other side (for a seller the highest of token bids and collection bids, for a collection bidder the cheapest listing), and rests in the book only if nothing crosses. The book afterwards contains exactly the previous orders minus those traded, plus the order if it rested.",
  H, TXT, NOV2, [V2 + "orders.rs", V2 + "execute.rs", V2 + "state.rs"],
  [("price indexes", "orders sorted by collection, denom and price", V2 + "state.rs")],
  [("match_with_bid / match_with_ask", V2 + "orders.rs")],
  ["stored orders and sale price after each message"])
p("P07", "Order book: order ids are unique and new orders carry the sender's terms",
  "Every new order gets an identifier that no live order has, so creating one never overwrites another, and at most one listing exists per NFT. A stored order always carries exactly the sender, collection, token, price and recipients given in the message that created or last updated it.",
  H, TXT, NOV2, [V2 + "helpers.rs", V2 + "orders.rs", V2 + "state.rs"],
  [("NONCE", "counter mixed into bid ids", V2 + "state.rs")],
  [("generate_id, Ask::build_id, Bid::new, CollectionBid::new", V2 + "orders.rs")],
  ["ids and contents of stored orders"])
p("P08", "Order book: configuration bounds, price rules, trading gate, listing fee",
  "Stored configuration always has every fee percentage within its bounds. Every order stored has a non-zero price in the denom assigned to its collection (or the default), a listing is accepted only if the collection's trading time has passed, and a new listing pays exactly the listing fee set for the coin it sends, to the fee manager.",
  H, TXT, NOV2, [V2 + "state.rs", V2 + "helpers.rs", V2 + "execute.rs", CM + "nft.rs"],
  [("CONFIG, COLLECTION_DENOMS, LISTING_FEES", "settings", V2 + "state.rs")],
  [("Config::save/validate", V2 + "state.rs"), ("only_valid_price", V2 + "helpers.rs"), ("only_tradable", CM + "nft.rs")],
  ["stored configuration", "accepted orders and the fair-burn message"])
p("P09", "Order book: queries return exactly the matching orders, in order, paged",
  "Each order query returns exactly the stored orders that match its filter, in the promised order (by price or id, ascending or descending), starting strictly after the given cursor and cut at the limit, with every returned record equal to the stored one. Paging through with the last returned item as cursor visits each matching order exactly once.",
  ["inputs", "histories"], "every query with any filter, cursor, direction and limit, on every reachable order book", NOV2,
  [V2 + "query.rs", V2 + "state.rs"],
  [("secondary indexes", "by token, price, creator", V2 + "state.rs")],
  [("QueryOptions unpacking and prefix/range bounds", V2 + "query.rs")], ["query responses"])
p("P10", "Order book: a creator can always withdraw their order in full",
  "In every reachable state the creator of an open order can remove it (sending no funds), and then receives exactly the NFT listed or the full escrowed amount, sent to themselves or the recipient the order names, and the order is gone. Nothing another user or the admin does can block this or change the amount.",
  H, TXT, NOV2, [V2 + "execute.rs", V2 + "orders.rs"], [],
  [("execute_remove_ask / remove_bid / remove_collection_bid", V2 + "execute.rs")],
  ["result of the remove message", "bank and NFT transfers it makes"])

# ---------------------------------------------------------------- v1 marketplace
p("P11", "Classic marketplace: bid escrow is conserved and refunds are complete",
  "In the classic marketplace (v1), for every accepted message the native funds received equal the funds paid out plus the change in the total escrowed by open bids and collection bids, so the contract always holds at least that total; a message with nothing to pay for rejects funds. A bid that is replaced, withdrawn or rejected refunds its full price to its bidder, and no payment to a user or the fair-burn pool is zero-amount.",
  H, TXT, NOV1, [V1 + "execute.rs"],
  [("bids, collection bids", "escrowed offers", V1 + "state.rs")],
  [("refund messages in set/remove/reject handlers; payout", V1 + "execute.rs")],
  ["bank balances", "stored bids"])
p("P12", "Classic marketplace: a sale splits the price exactly among the entitled",
  "When a sale executes, the network fee (fair-burned), the finder's fee (only with a finder), the royalty and the seller's remainder are each the configured share of the sale price rounded down, go to the right recipients, and sum to the price; the sale fails if the fees exceed the price. The price is the bid accepted or the fixed price paid, and the NFT moves to the buyer or the recipient they named; no other message moves an NFT.",
  H, TXT, NOV1, [V1 + "execute.rs"], [("SUDO_PARAMS", "fee percentages", V1 + "state.rs")],
  [("payout, finalize_sale", V1 + "execute.rs")], ["bank transfers and burn messages per recipient"])
p("P13", "Classic marketplace: only owners, bidders and operators can act",
  "Only the current owner of an NFT can list it, reprice or remove its listing, or accept or reject bids on it; only the bidder can withdraw or replace their own bid; only registered operators can synchronise or clean up orders. No message changes any other order.",
  H, TXT, NOV1, [V1 + "execute.rs"], [("operators", "privileged cleaners", V1 + "state.rs")],
  [("only_owner, only_operator, keys built from the sender", V1 + "execute.rs")], ["accepted messages by sender", "stored orders before and after"])
p("P14", "Classic marketplace: fixed-price purchases need a valid listing at its price",
  "A purchase executes only against a fixed-price listing that is active, unexpired, not reserved for somebody else, still owned by its seller, and for exactly its listed price; it removes the listing and hands the NFT to the buyer or the recipient they named. Otherwise the funds become an ordinary bid or the message fails; a buy-now on an unlisted NFT fails.",
  H, TXT, NOV1, [V1 + "execute.rs"], [("asks", "listings", V1 + "state.rs")],
  [("execute_set_bid", V1 + "execute.rs")], ["NFT transfer", "stored asks and bids"])
p("P15", "Classic marketplace: price, expiry and finder's-fee limits hold for every order",
  "Every order accepted has a native-denom price of at least the minimum (and for listings, however set, at most the maximum ask price), an expiry within the configured window, and a finder's fee within the configured cap; a listing pays exactly the listing fee, needs marketplace approval and a tradable collection, and reserves only fixed-price sales for somebody else; only an active, unexpired listing can be repriced, and expired bids cannot be accepted.",
  H, TXT, NOV1, [V1 + "execute.rs", V1 + "helpers.rs"], [("SUDO_PARAMS", "limits", V1 + "state.rs")],
  [("price_validate, ExpiryRange::is_valid, only_tradable", V1 + "execute.rs")], ["stored orders"])
p("P16", "Classic marketplace: governance parameters stay within bounds, operators unique",
  "In every state the trading fee, the maximum finder's fee and the removal reward are at most 100 percent, expiry windows have min not above max, and the operator list has no duplicates. A parameter update changes exactly the fields given (operators change only through their own messages), and adding or removing an operator changes exactly that entry or fails.",
  H, "every instantiate and governance message, with any arguments, in any reachable state", NOV1,
  [V1 + "execute.rs", V1 + "sudo.rs", V1 + "helpers.rs"], [("SUDO_PARAMS", "parameters", V1 + "state.rs")],
  [("bounds checks in instantiate and sudo_update_params; map_validate", V1 + "sudo.rs")], ["params query"])
p("P17", "Classic marketplace: operators clean up only genuinely stale orders",
  "An operator can remove a bid only after its expiry plus the stale period, with the bidder refunded the price minus the configured reward and the operator paid exactly that reward; and a listing only if it has expired, or its token no longer exists or is no longer approved for the marketplace. Synchronising only sets a listing's active flag to whether the approval exists.",
  H, TXT, NOV1, [V1 + "execute.rs"], [], [("execute_remove_stale_*, execute_sync_ask", V1 + "execute.rs")], ["stored orders", "bank transfers"])
p("P18", "Classic marketplace: hooks are notified, and a failing hook never blocks a trade",
  "Creating, repricing, synchronising, withdrawing, rejecting or cleaning up an order notifies each registered hook of that kind, and a sale each sale hook, exactly once with the order or sale data, through calls that carry no funds and whose failure is caught and does not undo the message. Value transfers of the same message are never caught this way.",
  ["inputs", "histories", "fault_sequences"], "every message, any set of registered hooks, any subset of hooks failing", NOV1,
  [V1 + "execute.rs"], [("ASK_HOOKS, BID_HOOKS, SALE_HOOKS", "registered hooks", V1 + "state.rs")],
  [("prepare_*_hook, reply", V1 + "execute.rs")], ["hook calls", "transaction outcome when hooks fail"])

# ---------------------------------------------------------------- reserve auction
p("P19", "Reserve auction: bids meet the reserve or outbid by the increment",
  "A bid is accepted only on a live auction that has not ended, from someone other than the seller, in the auction's denom as the only coin, and for at least the reserve price (first bid) or the current high bid plus the configured increment rounded up. An accepted bid becomes the high bid with exactly the amount sent and the sender as bidder.",
  H, TXT, NORA, [RA + "execute.rs", RA + "state.rs"], [("auctions", "live auctions with high bid", RA + "state.rs")],
  [("execute_place_bid, min_bid_coin", RA + "execute.rs")], ["stored auction after each bid"])
p("P20", "Reserve auction: bids are escrowed and outbid bidders refunded in full",
  "For every accepted message and block hook the funds received equal the funds paid out plus the change in the total of all high bids, per denom, so the contract always holds at least that total and traps nothing. An outbid bidder is refunded exactly their bid in the same message, creation collects exactly the fee, and no payment is zero-amount (with a non-zero trading fee).",
  H, TXT, NORA, [RA + "execute.rs", RA + "helpers.rs", RA + "sudo.rs"], [("high_bid", "escrowed bid", RA + "state.rs")],
  [("checked_transfer_coin refund, fee check, payout_nft_sale_fees", RA + "execute.rs")], ["bank balances", "stored auctions"])
p("P21", "Reserve auction: the NFT is in custody and settlement pays everyone exactly",
  "While an auction exists the contract holds its NFT; cancelling returns it to the seller, and settling sends it to the highest bidder while the high bid is split into trading fee, royalty and the seller's remainder (to the seller's chosen recipient), each share rounded as configured and summing to the bid. Nothing else moves an NFT.",
  H, TXT, NORA, [RA + "execute.rs", RA + "helpers.rs"], [("auctions", "each implies custody", RA + "state.rs")],
  [("settle_auction, transfer_nft", RA + "helpers.rs")], ["NFT owner", "bank transfers at settlement"])
p("P22", "Reserve auction: timing of start, extension and end",
  "The first bid starts the clock and sets the end to that time plus the auction's duration; a later bid with less than the extension period remaining moves the end to now plus that period, and no bid ever brings the end forward. No bid is accepted at or after the end and no settlement happens before the second in which it lies.",
  H, TXT, NORA, [RA + "execute.rs", RA + "helpers.rs"], [("end_time, first_bid_time", "auction clock", RA + "state.rs")],
  [("execute_place_bid, settle_auction", RA + "execute.rs")], ["stored end time", "accept/reject by block time"])
p("P23", "Reserve auction: blocks settle due auctions in order and honour halts",
  "Each end-of-block run settles due auctions, earliest end first, up to the configured limit, and leaves every other auction unchanged; it fails only if one of those settlements cannot be paid, never because of an auction not yet due. After a chain halt is detected, an auction whose end lies inside the halt window (halt plus buffer) is never settled with that end but is postponed by the configured time, however the settlement is triggered.",
  ["inputs", "histories", "schedules"], "every sequence of blocks with any block times (including halts and sub-second spacing), any set of auctions and any limit of at least one", NORA,
  [RA + "sudo.rs", RA + "state.rs", RA + "helpers.rs"], [("halt windows", "detected halts", RA + "state.rs")],
  [("sudo_begin_block, sudo_end_block, find_stale_halt_info", RA + "sudo.rs")], ["stored auctions and halt windows after each block"])
p("P24", "Reserve auction: lifecycle rights and configuration bounds",
  "Only an NFT's owner, having approved the contract, can auction it once its collection trades, with at most one auction per NFT, a duration within bounds, an accepted denom and at least its minimum reserve price; only the seller can reprice or cancel and only before the first bid; no other auction changes. Stored configuration always satisfies its bounds, and governance updates change exactly the fields given; a minimum reserve price is set only for a denom without one and unset only where there is one.",
  H, TXT, NORA, [RA + "execute.rs", RA + "helpers.rs", RA + "state.rs", RA + "sudo.rs", RA + "instantiate.rs"],
  [("CONFIG, MIN_RESERVE_PRICES", "settings", RA + "state.rs")],
  [("only_owner, only_no_auction, validate_reserve_price, Config::validate", RA + "helpers.rs")], ["stored auctions and configuration"])
p("P25", "Reserve auction: queries return exactly the stored data, in order, paged",
  "The configuration, halt-window, minimum-reserve-price and single-auction queries return exactly what is stored. The auction lists by seller and by end time return exactly the matching auctions in the promised order, starting strictly after the given cursor and cut at the limit, so that paging with the last item as cursor visits each auction exactly once.",
  ["inputs", "histories"], "every query with any filter, cursor, direction and limit, in every reachable state", NORA,
  [RA + "query.rs", RA + "state.rs"], [("seller and end_time indexes", "by seller, by end", RA + "state.rs")],
  [("query entry point and its range bounds", RA + "query.rs")], ["query responses"])

p("P26", "Classic marketplace: queries return exactly the stored orders, in order, paged",
  "Every order-list query returns exactly the stored orders that match its filter (asks: by default only active ones), in the promised order (key, price, or expiry; ascending or reverse), starting strictly past the given cursor and cut at the limit (10 by default, at most 100); without a cursor it starts at the end it promises. The collection list names each collection with an ask exactly once, in order. Single-order, count, hook and parameter queries return what is stored. (A cursor of the by-expiry lists names a stored order; one that is gone gives no position. The count is modulo 2^32.)",
  ["inputs", "histories"], "every query with any filter, cursor, direction and limit, in every reachable state", NOV1,
  [V1 + "query.rs", V1 + "state.rs"], [("asks, bids, collection_bids and their indexes", "orders by collection, price, owner, expiry", V1 + "state.rs")],
  [("query entry point and its range bounds", V1 + "query.rs")], ["query responses"])

p("P27", "Classic marketplace: a request meeting the conditions is never refused",
  "A request that meets every condition the other properties name is carried out, in any state: an owner may list (approved, tradable collection, terms within the limits, exact fee), reprice an active unexpired listing, delist, and accept or reject any unexpired bid or collection bid whose sale can be paid; anyone may place a bid or collection bid within the limits (or buy at the listed price); a bidder may withdraw their own bid or collection bid at any time, whatever has become of the listing, the token or the parameters; an operator may clean up any stale order and synchronise any listing whose flag is out of date. Governance may set any parameter within its bounds, register a new operator or remove one, and register a hook not yet in its list (at most five each) or remove one; instantiation with settings within the bounds succeeds.",
  H, TXT, NOV1, [V1 + "execute.rs", V1 + "helpers.rs"], [("bids, collection_bids", "escrow that must stay withdrawable", V1 + "state.rs")],
  [("every handler's checks", V1 + "execute.rs")], ["accepted and refused messages"])
p("P28", "Reserve auction: a request meeting the conditions is never refused",
  "A request that meets every condition the other properties name is carried out, in any state: an owner may auction an approved, tradable NFT on terms within the limits for exactly the fee; the seller may reprice or cancel before the first bid; a bid from anyone but the seller that meets the minimum on an auction that has not ended is accepted; and anyone may settle an auction whose end has come, unless its payout cannot be paid (no royalty answer, or fees above the bid). Governance may set any parameter within its bounds, set minimum prices for denoms that have none and unset those that have one; instantiation with settings within the bounds succeeds.",
  H, TXT, NORA, [RA + "execute.rs", RA + "helpers.rs"], [("auctions", "custody and escrow that must stay releasable", RA + "state.rs")],
  [("every handler's checks", RA + "execute.rs")], ["accepted and refused messages"])
p("P29", "Order book: a request meeting the conditions is never refused",
  "A request that meets every condition the other properties name is carried out, in any state: an owner may list a tradable token at an allowed price for exactly the listing fee, the creator may reprice or withdraw their order, anyone may place a bid or collection bid (or take a listing within their limit) whose funds cover what it trades at, or its own price if it rests, and the owner or lister of a token may accept a bid within their limit; a trade may be refused only if its payout cannot be paid (no royalty answer, or fees above the price). An immediate trade needs an order that meets it. The admin may change the settings within their bounds.",
  H, TXT, NOV2, [V2 + "execute.rs", V2 + "helpers.rs", V2 + "orders.rs"], [("asks, bids, collection_bids", "orders that must stay tradable and withdrawable", V2 + "state.rs")],
  [("every handler's checks", V2 + "execute.rs"), ("payment build-up", V2 + "helpers.rs")], ["accepted and refused messages"])
p("P30", "Upgrades: migration keeps every order, auction and setting",
  "Migrating any of the three contracts changes nothing but its version record (contract name and package version), moves no funds and no NFT, and leaves the record naming this contract at its own version, as instantiating does. The classic marketplace migrates exactly from a record that names it at a well-formed version not newer than its own, and refuses every other; the order book and the reserve auction always migrate.",
  ["inputs", "histories"], "every stored state and every version record, including records of other contracts, malformed and newer versions", "No test migrates a contract that holds orders, and none migrates from another version.",
  [V1 + "execute.rs", V2 + "migrate.rs", RA + "migrate.rs", V2 + "instantiate.rs", RA + "instantiate.rs"], [("cw2 contract_info", "contract name and version", V1 + "execute.rs")],
  [("migrate entry points", V1 + "execute.rs")], ["storage before and after", "accepted and refused migrations"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
