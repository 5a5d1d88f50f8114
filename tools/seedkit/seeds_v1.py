X = "contracts/marketplace/src/execute.rs"
H = "contracts/marketplace/src/helpers.rs"
U = "contracts/marketplace/src/sudo.rs"
T = "contracts/marketplace/src/state.rs"
Q = "contracts/marketplace/src/query.rs"
SEEDS = [
("v1-rebid-lower", "P11", "a bidder who replaces their bid with a lower one", "the refund of a replaced bid is capped at the new bid, so the difference stays in the contract",
 [(X, "            amount: vec![coin(existing_bid.price.u128(), NATIVE_DENOM)],", "            amount: vec![coin(\n                existing_bid.price.min(bid_price).u128(),\n                NATIVE_DENOM,\n            )],")], "v1kit", """
    let mut t = setup();
    t.bid("bobby0", 1, 100).unwrap();
    t.bid("bobby0", 1, 60).unwrap();
    assert_eq!(t.bal("bobby0"), START - 60);
    assert_eq!(t.bal("marketplace"), 60);
"""),
("v1-cbid-replace-expired", "P11", "a collection bid that has expired and is then replaced", "the expired collection bid is overwritten without a refund",
 [(X, "    if let Some(bid) = existing_bid {\n        collection_bids().remove(deps.storage, key.clone())?;", "    if let Some(bid) = existing_bid.filter(|b| !b.is_expired(&env.block)) {\n        collection_bids().remove(deps.storage, key.clone())?;")], "v1kit", """
    let mut t = setup();
    t.cbid("bobby0", 100).unwrap();
    t.at(600 * S);
    t.cbid("bobby0", 40).unwrap();
    assert_eq!(t.bal("bobby0"), START - 40);
"""),
("v1-reject-funds", "P11", "funds attached to reject_bid", "reject_bid keeps the funds sent with it",
 [(X, """    bidder: Addr,
) -> Result<Response, ContractError> {
    nonpayable(&info)?;
    only_owner(deps.as_ref(), &info, &collection, token_id)?;

    let bid_key""", """    bidder: Addr,
) -> Result<Response, ContractError> {
    only_owner(deps.as_ref(), &info, &collection, token_id)?;

    let bid_key""")], "v1kit", """
    let mut t = setup();
    t.bid("bobby0", 1, 100).unwrap();
    let r = t.ex("alice0", &[c(7)], Ex::RejectBid { collection: N.into(), token_id: 1, bidder: "bobby0".into() });
    assert!(r.is_err() || t.bal("marketplace") == 0, "kept {}", t.bal("marketplace"));
    assert!(t.ex("alice0", &[], Ex::RejectBid { collection: N.into(), token_id: 1, bidder: "bobby0".into() }).is_ok() || r.is_ok());
"""),
("v1-royalty-ceil", "P12", "a sale price of which the royalty is not a whole number", "the royalty is rounded up at the seller's expense",
 [(X, "let amount = coin((payment * royalty.share).u128(), NATIVE_DENOM);", "let amount = coin(payment.mul_ceil(royalty.share).u128(), NATIVE_DENOM);")], "v1kit", """
    let mut t = setup();
    t.ask(1, 110);
    t.bid("bobby0", 1, 110).unwrap();
    assert_eq!(t.bal("royal0"), 5);
    assert_eq!(t.bal("payee0"), 110 - 5 - 2);
"""),
("v1-buyer-finder-fee", "P12", "a fixed-price purchase whose buyer names a finder and a fee of their own", "the finder's fee of a fixed-price sale is the one the buyer asks for instead of the listing's",
 [(X, """                        finalize_sale(
                            deps.as_ref(),
                            ask,
                            bid_price,""", """                        let ask = Ask {
                            finders_fee_bps: finders_fee_bps.or(ask.finders_fee_bps),
                            ..ask
                        };
                        finalize_sale(
                            deps.as_ref(),
                            ask,
                            bid_price,""")], "v1kit", """
    let mut t = setup();
    t.ex("alice0", &[], Ex::SetAsk { sale_type: SaleType::FixedPrice, collection: N.into(), token_id: 1, price: c(1000), funds_recipient: None, reserve_for: None, finders_fee_bps: Some(100), expires: ts(500 * S) }).unwrap();
    t.bid_f("bobby0", 1, 1000, Some("finder")).unwrap();
    assert_eq!(t.bal("finder"), 10);
"""),
("v1-cbid-recipient", "P12", "a listed NFT with its own payout address sold into a collection bid", "the proceeds of a collection bid go to the removed listing's payout address",
 [(X, """    if asks().may_load(deps.storage, ask_key.clone())?.is_some() {
        asks().remove(deps.storage, ask_key)?;
    }

    // Create a temporary Ask
    let ask = Ask {
        sale_type: SaleType::Auction,
        collection: collection.clone(),
        token_id,
        price: bid.price,
        expires_at: bid.expires_at,
        is_active: true,
        seller: info.sender.clone(),
        funds_recipient: Some(info.sender.clone()),""", """    let mut funds_recipient = Some(info.sender.clone());
    if let Some(listed) = asks().may_load(deps.storage, ask_key.clone())? {
        funds_recipient = listed.funds_recipient.or(funds_recipient);
        asks().remove(deps.storage, ask_key)?;
    }

    // Create a temporary Ask
    let ask = Ask {
        sale_type: SaleType::Auction,
        collection: collection.clone(),
        token_id,
        price: bid.price,
        expires_at: bid.expires_at,
        is_active: true,
        seller: info.sender.clone(),
        funds_recipient,""")], "v1kit", """
    let mut t = setup();
    t.ask(1, 5000);
    // the NFT is sold elsewhere; the old listing is still there
    { let k = t.tok("1"); k.owner = "dave00".into(); k.approved.clear(); k.approved.insert("marketplace".into(), None); }
    t.cbid("bobby0", 1000).unwrap();
    t.caccept("dave00", 1, "bobby0", None).unwrap();
    assert_eq!(t.bal("dave00"), START + 1000 - 20 - 50);
    assert_eq!(t.bal("payee0"), 0);
"""),
("v1-reject-seller", "P13", "a bid on an NFT which a former owner still has listed", "a former owner whose listing is still stored can reject bids on the NFT",
 [(X, """    only_owner(deps.as_ref(), &info, &collection, token_id)?;

    let bid_key = bid_key(&collection, token_id, &bidder);

    let bid""", """    let listed = asks().may_load(deps.storage, ask_key(&collection, token_id))?;
    if !listed.map_or(false, |ask| ask.seller == info.sender) {
        only_owner(deps.as_ref(), &info, &collection, token_id)?;
    }

    let bid_key = bid_key(&collection, token_id, &bidder);

    let bid""")], "v1kit", """
    let mut t = setup();
    t.ask(1, 5000);
    { let k = t.tok("1"); k.owner = "dave00".into(); }
    t.bid("bobby0", 1, 100).unwrap();
    assert!(t.ex("alice0", &[], Ex::RejectBid { collection: N.into(), token_id: 1, bidder: "bobby0".into() }).is_err());
    t.ex("dave00", &[], Ex::RejectBid { collection: N.into(), token_id: 1, bidder: "bobby0".into() }).unwrap();
"""),
("v1-withdraw-drops-cbid", "P13", "an expired bid withdrawn by a bidder who also has a collection bid on the collection", "withdrawing an expired bid also deletes the bidder's collection bid",
 [(X, """    let bid = bids().load(deps.storage, key.clone())?;
    bids().remove(deps.storage, key)?;

    let refund_bidder_msg""", """    let bid = bids().load(deps.storage, key.clone())?;
    bids().remove(deps.storage, key)?;
    if bid.is_expired(&_env.block) {
        collection_bids().remove(deps.storage, collection_bid_key(&collection, &bidder))?;
    }

    let refund_bidder_msg""")], "v1kit", """
    let mut t = setup();
    t.bid("bobby0", 1, 100).unwrap();
    t.at(400 * S);
    t.cbid("bobby0", 70).unwrap();
    t.at(550 * S);
    t.ex("bobby0", &[], Ex::RemoveBid { collection: N.into(), token_id: 1 }).unwrap();
    assert_eq!(t.get_cbid("bobby0")["price"], "70");
"""),
("v1-reserved-for-recipient", "P14", "a reserved listing bought with buy_for on behalf of the person it is reserved for", "the reservation is checked against the recipient of the NFT, so anybody can buy a reserved NFT and name any address the seller reserved it for",
 [(X, "            if reserved_for != bidder {", "            if reserved_for != *asset_recipient.as_ref().unwrap_or(&bidder) {")], "v1kit", """
    let mut t = setup();
    t.ask_as("alice0", 1, 1000, SaleType::FixedPrice, Some("carol0"), 0).unwrap();
    let buy = |who: &str, t: &mut T| t.ex(who, &[c(1000)], Ex::BuyFor { collection: N.into(), token_id: 1, expires: ts(400 * S), finder: None, finders_fee_bps: None, asset_recipient: "carol0".into() });
    assert!(buy("bobby0", &mut t).is_err(), "somebody else bought the reserved NFT");
    buy("carol0", &mut t).unwrap();
"""),
("v1-buyfor-stale-seller", "P14", "a listed NFT transferred to a new owner who also approved the marketplace, bought with buy_for", "the seller's ownership is not checked when the buyer names a recipient, so a former owner sells the new owner's NFT",
 [(X, "                        if ask.seller != owner {", "                        if ask.seller != owner && asset_recipient.is_none() {")], "v1kit", """
    let mut t = setup();
    t.ask(1, 1000);
    { let k = t.tok("1"); k.owner = "dave00".into(); k.approved.clear(); k.approved.insert("marketplace".into(), None); }
    let r = t.ex("bobby0", &[c(1000)], Ex::BuyFor { collection: N.into(), token_id: 1, expires: ts(400 * S), finder: None, finders_fee_bps: None, asset_recipient: "friend".into() });
    assert!(r.is_err() && t.owner("1") == "dave00");
"""),
("v1-expired-ask-bid", "P14", "an expired fixed-price listing bid on at its price with set_bid", "the listing's expiry is only checked for buy-now purchases",
 [(X, "        if ask.is_expired(&env.block) {\n            return Err(ContractError::AskExpired {});\n        }\n        if !ask.is_active {\n            return Err(ContractError::AskNotActive {});\n        }\n        if let", "        if buy_now && ask.is_expired(&env.block) {\n            return Err(ContractError::AskExpired {});\n        }\n        if !ask.is_active {\n            return Err(ContractError::AskNotActive {});\n        }\n        if let")], "v1kit", """
    let mut t = setup();
    t.ask(1, 1000);
    t.at(500 * S);
    let _ = t.bid("bobby0", 1, 1000);
    assert_eq!(t.owner("1"), "alice0");
"""),
("v1-expiry-seconds", "P15", "an expiry less than a second past the longest allowed", "expiry windows are compared in whole seconds, so an order can outlive the window",
 [(H, "        let now = block.time;\n        if !(expires > now.plus_seconds(self.min) && expires <= now.plus_seconds(self.max)) {", "        let now = block.time.seconds();\n        if !(expires.seconds() > now + self.min && expires.seconds() <= now + self.max) {")], "v1kit", """
    let mut t = setup();
    let bid = |t: &mut T, n: u64| t.ex("bobby0", &[c(50)], Ex::SetBid { collection: N.into(), token_id: 1, expires: ts(n), sale_type: SaleType::FixedPrice, finder: None, finders_fee_bps: None });
    assert!(bid(&mut t, 1000 * S).is_ok());
    assert!(bid(&mut t, 1000 * S + 1).is_err());
"""),
("v1-cbid-finders-cap", "P15", "a collection bid with a finder's fee between the configured cap and 100 percent", "collection bids only check the finder's fee against 100 percent",
 [(X, """    // check bid finders_fee_bps is not over max
    if let Some(fee) = finders_fee_bps {
        if Decimal::percent(fee) > params.max_finders_fee_percent {
            return Err(ContractError::InvalidFindersFeeBps(fee));
        }
    }

    let bidder = info.sender;
    let mut res = Response::new();

    let key = collection""", """    // check bid finders_fee_bps is not over max
    if let Some(fee) = finders_fee_bps {
        if fee > MAX_FEE_BPS {
            return Err(ContractError::InvalidFindersFeeBps(fee));
        }
    }

    let bidder = info.sender;
    let mut res = Response::new();

    let key = collection""")], "v1kit", """
    let mut t = setup();
    assert!(t.cbid("bobby0", 100).is_ok());
    assert!(t.ex("carol0", &[c(100)], Ex::SetCollectionBid { collection: N.into(), expires: ts(400 * S), finders_fee_bps: Some(1001) }).is_err());
"""),
("v1-accept-at-expiry", "P15", "a collection bid accepted in the block at which it expires", "a collection bid can be accepted at its expiry time",
 [(X, """    let bid = collection_bids().load(deps.storage, bid_key.clone())?;
    if bid.is_expired(&env.block) {""", """    let bid = collection_bids().load(deps.storage, bid_key.clone())?;
    if bid.expires_at < env.block.time {""")], "v1kit", """
    let mut t = setup();
    t.cbid("bobby0", 100).unwrap();
    t.cbid("carol0", 100).unwrap();
    t.at(500 * S - 1);
    t.caccept("alice0", 2, "carol0", None).unwrap();
    t.at(500 * S);
    assert!(t.caccept("alice0", 1, "bobby0", None).is_err());
"""),
("v1-reward-bound", "P16", "a parameter update that sets the trading fee and the removal reward together", "the bound of the removal reward is not checked when the trading fee is updated too",
 [(U, """            return Err(ContractError::InvalidTradingFeeBps(trading_fee_bps));
        }
    }
    if let Some(bid""", """            return Err(ContractError::InvalidTradingFeeBps(trading_fee_bps));
        }
    } else if let Some(bid""")], "v1kit", """
    let mut t = setup();
    let _ = t.su(serde_json::from_value(json!({"update_params": {"trading_fee_bps": 100, "bid_removal_reward_bps": 10001}})).unwrap());
    assert_eq!(t.params()["bid_removal_reward_percent"], "5");
    assert!(t.su(serde_json::from_value(json!({"update_params": {"trading_fee_bps": 100, "bid_removal_reward_bps": 10000}})).unwrap()).is_ok());
"""),
("v1-expiry-unchecked", "P16", "a parameter update with an inverted bid expiry range", "the result of validating the new bid expiry range is dropped",
 [(U, "    bid_expiry.as_ref().map(|b| b.validate()).transpose()?;", "    let _ = bid_expiry.as_ref().map(|b| b.validate()).transpose();")], "v1kit", """
    let mut t = setup();
    let _ = t.su(serde_json::from_value(json!({"update_params": {"bid_expiry": {"min": 20, "max": 10}}})).unwrap());
    assert_eq!(t.params()["bid_expiry"], json!({"min": 10, "max": 1000}));
"""),
("v1-stale-inactive", "P17", "an inactive listing that is unexpired and whose NFT is approved again", "operators can remove inactive listings that are not stale",
 [(X, "    if has_owner && has_approval && !expired {", "    if ask.is_active && has_owner && has_approval && !expired {")], "v1kit", """
    let mut t = setup();
    t.ask(1, 1000);
    t.tok("1").approved.clear();
    t.ex("opera1", &[], Ex::SyncAsk { collection: N.into(), token_id: 1 }).unwrap();
    t.tok("1").approved.insert("marketplace".into(), None);
    assert!(t.ex("opera1", &[], Ex::RemoveStaleAsk { collection: N.into(), token_id: 1 }).is_err());
"""),
("v1-sync-expired", "P17", "a listing that expired while its NFT is still approved", "synchronising deactivates an expired listing although the approval exists",
 [(X, "    if res.is_ok() == ask.is_active {", "    if (res.is_ok() && !ask.is_expired(&env.block)) == ask.is_active {"), (X, "    ask.is_active = res.is_ok();", "    ask.is_active = res.is_ok() && !ask.is_expired(&env.block);")], "v1kit", """
    let mut t = setup();
    t.ask(1, 1000);
    t.at(600 * S);
    let _ = t.ex("opera1", &[], Ex::SyncAsk { collection: N.into(), token_id: 1 });
    assert_eq!(t.get_ask(1)["is_active"], true);
"""),
("v1-stale-cbid-early", "P17", "an expired collection bid inside the stale period", "operators can remove a collection bid, and take the reward, as soon as it expires",
 [(X, "    let stale_time = (Expiration::AtTime(collection_bid.expires_at) + params.stale_bid_duration)?;\n    if !stale_time.is_expired(&env.block) {", "    if !collection_bid.is_expired(&env.block) {")], "v1kit", """
    let mut t = setup();
    t.cbid("bobby0", 1000).unwrap();
    t.at(550 * S);
    let rm = |t: &mut T| t.ex("opera1", &[], Ex::RemoveStaleCollectionBid { collection: N.into(), bidder: "bobby0".into() });
    assert!(rm(&mut t).is_err());
    t.at(600 * S);
    assert!(rm(&mut t).is_ok());
"""),
("v1-hook-old-price", "P18", "a repriced listing with an ask hook registered", "the update hook carries the price before the update",
 [(X, "    ask.price = price.amount;\n    asks().save(deps.storage, key, &ask)?;\n\n    let hook = prepare_ask_hook(deps.as_ref(), &ask, HookAction::Update)?;\n", "    let hook = prepare_ask_hook(deps.as_ref(), &ask, HookAction::Update)?;\n    ask.price = price.amount;\n    asks().save(deps.storage, key, &ask)?;\n")], "v1kit", """
    let mut t = setup();
    t.su(serde_json::from_value(json!({"add_ask_hook": {"hook": "hook01"}})).unwrap()).unwrap();
    t.ask(1, 1000);
    t.0.calls.clear();
    t.ex("alice0", &[], Ex::UpdateAskPrice { collection: N.into(), token_id: 1, price: c(700) }).unwrap();
    assert_eq!(t.0.calls.len(), 1);
    assert_eq!(t.0.calls[0].1["ask_updated_hook"]["ask"]["price"], "700");
"""),
("v1-hook-reply", "P18", "a registered bid hook that fails when a bid is withdrawn", "failures of the bid hook are only caught for created bids, so a failing hook blocks withdrawals",
 [(X, "        Ok(SubMsg::reply_on_error(execute, HookReply::Bid as u64))", "        match action {\n            HookAction::Delete => Ok(SubMsg::new(execute)),\n            _ => Ok(SubMsg::reply_on_error(execute, HookReply::Bid as u64)),\n        }")], "v1kit", """
    let mut t = setup();
    t.su(serde_json::from_value(json!({"add_bid_hook": {"hook": "hook01"}})).unwrap()).unwrap();
    t.0.fail.insert("hook01".into());
    t.bid("bobby0", 1, 100).unwrap();
    t.ex("bobby0", &[], Ex::RemoveBid { collection: N.into(), token_id: 1 }).expect("the failing hook blocked the withdrawal");
    assert_eq!(t.bal("bobby0"), START);
"""),
("v1-stale-hook", "P18", "an operator removing a stale listing with an ask hook registered", "the removal of a stale listing is announced as an update",
 [(X, "    asks().remove(deps.storage, key)?;\n    let hook = prepare_ask_hook(deps.as_ref(), &ask, HookAction::Delete)?;", "    asks().remove(deps.storage, key)?;\n    let hook = prepare_ask_hook(deps.as_ref(), &ask, HookAction::Update)?;")], "v1kit", """
    let mut t = setup();
    t.su(serde_json::from_value(json!({"add_ask_hook": {"hook": "hook01"}})).unwrap()).unwrap();
    t.ask(1, 1000);
    t.at(600 * S);
    t.0.calls.clear();
    t.ex("opera1", &[], Ex::RemoveStaleAsk { collection: N.into(), token_id: 1 }).unwrap();
    let hooks: Vec<_> = t.0.calls.iter().filter(|c| c.0 == "hook01").collect();
    assert!(hooks.len() == 1 && hooks[0].1.get("ask_deleted_hook").is_some(), "{:?}", hooks);
"""),
("v1-q-page-inactive", "P26", "a page of the price-ordered asks that runs over inactive ones", "the page is cut before inactive asks are filtered out, so a page comes back short although more active asks follow",
 [(Q, """        .range(deps.storage, start, None, Order::Ascending)
        .filter(|item| match item {
            Ok((_, ask)) => match include_inactive {
                Some(true) => true,
                _ => ask.is_active,
            },
            Err(_) => true,
        })
        .take(limit)
        .map(|res| res.map(|item| item.1))
        .collect::<StdResult<Vec<_>>>()?;

    Ok(AsksResponse { asks })
}

pub fn reverse_query_asks_sorted_by_price(""", """        .range(deps.storage, start, None, Order::Ascending)
        .take(limit)
        .filter(|item| match item {
            Ok((_, ask)) => match include_inactive {
                Some(true) => true,
                _ => ask.is_active,
            },
            Err(_) => true,
        })
        .map(|res| res.map(|item| item.1))
        .collect::<StdResult<Vec<_>>>()?;

    Ok(AsksResponse { asks })
}

pub fn reverse_query_asks_sorted_by_price(""")], "v1kit", """
    let mut t = setup();
    for k in 1..=4 { t.ask(k, 100 * k as u128); }
    t.tok("1").approved.clear();
    t.ex("opera1", &[], Ex::SyncAsk { collection: N.into(), token_id: 1 }).unwrap();
    let r = t.q(Qm::AsksSortedByPrice { collection: N.into(), include_inactive: None, start_after: None, limit: Some(2) });
    let p: Vec<_> = r["asks"].as_array().unwrap().iter().map(|a| a["token_id"].as_u64().unwrap()).collect();
    assert_eq!(p, [2, 3]);
"""),
("v1-q-expiry-day", "P26", "two collection bids of one bidder that expire within the same day, the collection with the greater address first", "the expiry index keeps whole days, so bids of one day come back in key order",
 [(T, "|_pk: &[u8], d: &CollectionBid| (d.bidder.clone(), d.expires_at.seconds()),", "|_pk: &[u8], d: &CollectionBid| (d.bidder.clone(), d.expires_at.seconds() / 86_400),"), (Q, "                    collection_bid.expires_at.seconds(),", "                    collection_bid.expires_at.seconds() / 86_400,")], "v1kit", """
    let mut t = setup();
    for (n, e) in [("nftaaaa", 400u64), ("nftalpha", 300), ("nftzzzz", 200)] {
        t.ex("bobby0", &[c(50)], Ex::SetCollectionBid { collection: n.into(), expires: ts(e * S), finders_fee_bps: None }).unwrap();
    }
    let r = t.q(Qm::CollectionBidsByBidderSortedByExpiration { bidder: "bobby0".into(), start_after: None, limit: None });
    let p: Vec<_> = r["bids"].as_array().unwrap().iter().map(|a| a["collection"].as_str().unwrap().to_string()).collect();
    assert_eq!(p, ["nftzzzz", "nftalpha", "nftaaaa"]);
"""),
("v1-q-reverse-cursor", "P26", "paging backwards through bids of one price", "the backwards cursor skips every bid on the token the cursor names, not only those at or past it",
 [(Q, """    let end: Option<Bound<(u128, BidKey)>> = start_before.map(|offset| {
        Bound::exclusive((
            offset.price.u128(),
            bid_key(&collection, offset.token_id, &offset.bidder),
        ))
    });""", """    let end: Option<Bound<(u128, BidKey)>> = start_before.map(|offset| {
        Bound::exclusive((
            offset.price.u128(),
            bid_key(&collection, offset.token_id, &Addr::unchecked("")),
        ))
    });""")], "v1kit", """
    let mut t = setup();
    for w in ["bobby0", "carol0", "dave00"] { t.bid(w, 1, 100).unwrap(); }
    let r = t.q(Qm::ReverseBidsSortedByPrice { collection: N.into(), start_before: Some(m::msg::BidOffset { price: Uint128::new(100), token_id: 1, bidder: Addr::unchecked("dave00") }), limit: None });
    let p: Vec<_> = r["bids"].as_array().unwrap().iter().map(|a| a["bidder"].as_str().unwrap().to_string()).collect();
    assert_eq!(p, ["carol0", "bobby0"]);
"""),

("v1-cbid-withdraw-expired", "P27", "a collection bid whose owner withdraws it after its expiry", "an expired collection bid can no longer be withdrawn by its bidder, only cleaned up by an operator for a reward",
 [(X, """    deps: DepsMut,
    _env: Env,
    info: MessageInfo,
    collection: Addr,
) -> Result<Response, ContractError> {""", """    deps: DepsMut,
    env: Env,
    info: MessageInfo,
    collection: Addr,
) -> Result<Response, ContractError> {"""), (X, """    let collection_bid = collection_bids().load(deps.storage, key.clone())?;
    collection_bids().remove(deps.storage, key)?;

    let refund_bidder_msg""", """    let collection_bid = collection_bids().load(deps.storage, key.clone())?;
    if collection_bid.is_expired(&env.block) {
        return Err(ContractError::BidExpired {});
    }
    collection_bids().remove(deps.storage, key)?;

    let refund_bidder_msg""")], "v1kit", """
    let mut t = setup();
    t.cbid("bobby0", 100).unwrap();
    t.at(600 * S);
    t.ex("bobby0", &[], Ex::RemoveCollectionBid { collection: N.into() }).unwrap();
    assert_eq!(t.bal("bobby0"), START);
"""),
("v1-accept-under-old-ask", "P27", "a bid accepted while an expired listing of the same token is still stored", "the owner cannot accept a valid bid until somebody removes their expired listing",
 [(X, """    if asks().may_load(deps.storage, ask_key.clone())?.is_some() {
        asks().remove(deps.storage, ask_key)?;
    }

    // Create a temporary Ask
    let ask = Ask {
        sale_type: SaleType::Auction,
        collection: collection.clone(),
        token_id,
        price: bid.price,
        expires_at: bid.expires_at,
        is_active: true,
        seller: info.sender.clone(),
        funds_recipient: Some(info.sender),""", """    if let Some(ask) = asks().may_load(deps.storage, ask_key.clone())? {
        if ask.is_expired(&env.block) {
            return Err(ContractError::AskExpired {});
        }
        asks().remove(deps.storage, ask_key)?;
    }

    // Create a temporary Ask
    let ask = Ask {
        sale_type: SaleType::Auction,
        collection: collection.clone(),
        token_id,
        price: bid.price,
        expires_at: bid.expires_at,
        is_active: true,
        seller: info.sender.clone(),
        funds_recipient: Some(info.sender),""")], "v1kit", """
    let mut t = setup();
    t.ask(1, 1000);
    t.at(400 * S);
    t.bid("bobby0", 1, 800).unwrap();
    t.at(600 * S);
    t.accept("alice0", 1, "bobby0").unwrap();
    assert_eq!(t.owner("1"), "bobby0");
"""),
("v1-withdraw-hooked", "P27", "a bidder who withdraws a bid on a token whose listing is inactive", "a bid on a token with an inactive listing cannot be withdrawn",
 [(X, """    let bid = bids().load(deps.storage, key.clone())?;
    bids().remove(deps.storage, key)?;

    let refund_bidder_msg""", """    let bid = bids().load(deps.storage, key.clone())?;
    if let Some(ask) = asks().may_load(deps.storage, ask_key(&collection, token_id))? {
        if !ask.is_active {
            return Err(ContractError::AskNotActive {});
        }
    }
    bids().remove(deps.storage, key)?;

    let refund_bidder_msg""")], "v1kit", """
    let mut t = setup();
    t.ask(1, 1000);
    t.bid("bobby0", 1, 800).unwrap();
    t.tok("1").approved.clear();
    t.ex("opera1", &[], Ex::SyncAsk { collection: N.into(), token_id: 1 }).unwrap();
    t.ex("bobby0", &[], Ex::RemoveBid { collection: N.into(), token_id: 1 }).unwrap();
    assert_eq!(t.bal("bobby0"), START);
"""),
("v1-migrate-text", "P30", "a record at a version whose minor number has more digits, 1.10.0", "a newer version is told by comparing texts, so a downgrade from 1.10.0 is accepted",
 [(X, "    if version > new_version {\n", "    if current_version.version.as_str() > CONTRACT_VERSION {\n")], "v1kit", """
    let mut t = setup();
    let mig = |t: &mut T, v: &str| { t.0.store.set(b"contract_info", json!({"contract": "crates.io:sg-marketplace", "version": v}).to_string().as_bytes()); t.0.call("admin0", &[], |d, e, _| m::execute::migrate(d, e, Empty {}).map_err(|e| e.to_string()), |_, _, _| Ok(sg_std::Response::new())).is_ok() };
    assert!(mig(&mut t, "1.0.0"));
    assert!(!mig(&mut t, "1.10.0"), "a downgrade was accepted");
"""),
("v1-migrate-price", "P30", "an upgrade from a version before 1.0 of a marketplace with a minimum price below 5", "upgrading from an old version raises the minimum price",
 [(X, """    // set new contract version
    set_contract_version(deps.storage""", """    if version.major < 1 {
        let mut params = SUDO_PARAMS.load(deps.storage)?;
        params.min_price = params.min_price.max(Uint128::from(100u128));
        SUDO_PARAMS.save(deps.storage, &params)?;
    }

    // set new contract version
    set_contract_version(deps.storage""")], "v1kit", """
    let mut t = setup();
    let before = t.params();
    t.0.store.set(b"contract_info", json!({"contract": "crates.io:sg-marketplace", "version": "0.21.0"}).to_string().as_bytes());
    t.0.call("admin0", &[], |d, e, _| m::execute::migrate(d, e, Empty {}).map_err(|e| e.to_string()), |_, _, _| Ok(sg_std::Response::new())).unwrap();
    assert_eq!(t.params(), before);
"""),
("v1-remove-time-left", "P27", "a bidder who withdraws a collection bid after its expiry", "the event of a withdrawn collection bid tells the time left, and computing it panics once the bid has expired",
 [(X, """pub fn execute_remove_collection_bid(
    deps: DepsMut,
    _env: Env,
""", """pub fn execute_remove_collection_bid(
    deps: DepsMut,
    env: Env,
"""), (X, """    let event = Event::new("remove-collection-bid")
""", """    let seconds_left = collection_bid.expires_at.seconds() - env.block.time.seconds();
    let event = Event::new("remove-collection-bid")
        .add_attribute("seconds_left", seconds_left.to_string())
""")], "v1kit", """
    let mut t = setup();
    t.cbid("bobby0", 700).unwrap();
    t.cbid("carol0", 700).unwrap();
    t.at(400 * S);
    t.ex("carol0", &[], Ex::RemoveCollectionBid { collection: N.into() }).unwrap();
    t.at(501 * S);
    t.ex("bobby0", &[], Ex::RemoveCollectionBid { collection: N.into() }).unwrap();
    assert_eq!(t.bal("bobby0"), START);
"""),
("v1-last-operator", "P27", "governance removing the only operator left", "the last operator cannot be removed",
 [("contracts/marketplace/src/sudo.rs", """    if let Some(i) = params.operators.iter().position(|o| o == operator) {
        params.operators.remove(i);
""", """    if params.operators.len() == 1 {
        return Err(ContractError::OperatorNotRegistered {});
    }
    if let Some(i) = params.operators.iter().position(|o| o == operator) {
        params.operators.remove(i);
""")], "v1kit", """
    let mut t = setup();
    t.su(Su::RemoveOperator { operator: "opera1".into() }).unwrap();
    t.su(Su::RemoveOperator { operator: "opera2".into() }).unwrap();
    assert_eq!(t.params()["operators"], json!([]));
"""),
]
