X = "contracts/reserve-auction/src/execute.rs"
H = "contracts/reserve-auction/src/helpers.rs"
Q = "contracts/reserve-auction/src/query.rs"
S = "contracts/reserve-auction/src/state.rs"
U = "contracts/reserve-auction/src/sudo.rs"
SEEDS = [
("ra-increment-floor", "P19", "a high bid of which the increment is not a whole number", "the minimum next bid is rounded down, so a bid below high bid plus increment is accepted",
 [(S, ".mul_ceil(Decimal::one() + min_bid_increment_percent)", ".mul_floor(Decimal::one() + min_bid_increment_percent)")], "rakit", """
    let mut t = setup();
    t.create("1", 100);
    t.bid("bobby0", "1", 101).unwrap();
    assert!(t.bid("carol0", "1", 111).is_err(), "accepted 111 over 101 with an increment of 10 percent");
    assert!(t.bid("carol0", "1", 112).is_ok());
"""),
("ra-bid-amount", "P19", "a bid above the minimum on an auction that already has bids", "the recorded high bid is the minimum required, not the amount sent, so the surplus is trapped",
 [(X, """    let next_bid = HighBid {
        bidder: info.sender,
        coin: coin(bid_amount.u128(), auction_denom),
    };""", """    let recorded = match auction.high_bid {
        Some(_) => min_bid.amount,
        None => bid_amount,
    };
    let next_bid = HighBid {
        bidder: info.sender,
        coin: coin(recorded.u128(), auction_denom),
    };""")], "rakit", """
    let mut t = setup();
    t.create("1", 100);
    t.bid("bobby0", "1", 100).unwrap();
    t.bid("carol0", "1", 500).unwrap();
    assert_eq!(t.auction("1")["high_bid"]["coin"]["amount"], "500");
"""),
("ra-own-raise", "P20", "a bidder who raises their own bid", "a bidder who outbids themselves is not refunded",
 [(X, """            response = response.add_submessage(checked_transfer_coin(
                previous_high_bid.coin.clone(),
                &previous_high_bid.bidder,
            )?);
""", """            if previous_high_bid.bidder != next_bid.bidder {
                response = response.add_submessage(checked_transfer_coin(
                    previous_high_bid.coin.clone(),
                    &previous_high_bid.bidder,
                )?);
            }
""")], "rakit", """
    let mut t = setup();
    t.create("1", 100);
    t.bid("bobby0", "1", 100).unwrap();
    t.bid("bobby0", "1", 200).unwrap();
    assert_eq!(t.bal("bobby0"), 1_000_000_000 - 200);
    assert_eq!(t.bal("auctionhouse"), 200);
"""),
("ra-settle-funds", "P20", "funds attached to a settlement", "funds sent along with settle_auction are kept by the contract",
 [(X, """    deps: DepsMut,
    info: MessageInfo,
    block_time: Timestamp,
    collection: Addr,
    token_id: &str,
) -> Result<Response, ContractError> {
    nonpayable(&info)?;
""", """    deps: DepsMut,
    _info: MessageInfo,
    block_time: Timestamp,
    collection: Addr,
    token_id: &str,
) -> Result<Response, ContractError> {
""")], "rakit", """
    let mut t = setup();
    t.create("1", 100);
    t.bid("bobby0", "1", 100).unwrap();
    t.0.time += 200 * S;
    let _ = t.ex("dave00", &[c(7)], Ex::SettleAuction { collection: N.into(), token_id: "1".into() });
    let owed = if t.auction("1").is_null() { 0 } else { 100 };
    assert_eq!(t.bal("auctionhouse"), owed);
"""),
("ra-cancel-recipient", "P21", "an auction with a funds recipient that is cancelled", "cancelling sends the NFT to the seller's funds recipient",
 [(X, ".add_submessage(transfer_nft(&collection, token_id, &auction.seller));", ".add_submessage(transfer_nft(\n            &collection,\n            token_id,\n            &auction.funds_recipient(),\n        ));")], "rakit", """
    let mut t = setup();
    t.create("1", 100);
    t.ok("alice0", &[], Ex::CancelAuction { collection: N.into(), token_id: "1".into() });
    assert_eq!(t.owner("1"), "alice0");
"""),
("ra-extend-forward", "P22", "a bid with exactly the extension period remaining, later in the second than the end's fraction allows", "a bid can bring the end of an auction forward by part of a second",
 [(X, "if time_remaining < config.extend_duration {", "if time_remaining <= config.extend_duration {")], "rakit", """
    let mut t = setup();
    t.create("1", 100);
    t.at(900_000_000);
    t.bid("bobby0", "1", 100).unwrap();
    let e = t.end_of("1");
    t.at(80 * S + 200_000_000);
    t.bid("carol0", "1", 200).unwrap();
    assert!(t.end_of("1") >= e, "the end moved from {} to {}", e, t.end_of("1"));
"""),
("ra-extend-base", "P22", "a later bid in the last seconds, at another fraction of the second than the end", "a late bid extends from the old end, not from now",
 [(X, "auction.end_time = Some(block_time.plus_seconds(config.extend_duration));", "auction.end_time = Some(\n                    auction\n                        .end_time\n                        .unwrap()\n                        .plus_seconds(config.extend_duration - time_remaining),\n                );")], "rakit", """
    let mut t = setup();
    t.create("1", 100);
    t.at(900_000_000);
    t.bid("bobby0", "1", 100).unwrap();
    t.at(95 * S + 100_000_000);
    t.bid("carol0", "1", 200).unwrap();
    assert_eq!(t.end_of("1"), 115 * S + 100_000_000);
"""),
("ra-halt-last", "P23", "two halts before an auction that ended in the first is settled", "only the most recent halt window postpones auctions",
 [(S, """        for halt_info in &self.halt_windows {
            if block_time > halt_info.start_time && block_time < halt_info.end_time {
                return true;
            }
        }
        false""", """        match self.halt_windows.last() {
            Some(halt_info) => {
                block_time > halt_info.start_time && block_time < halt_info.end_time
            }
            None => false,
        }""")], "rakit", """
    let mut i = init();
    i.max_auctions_to_settle_per_block = 1;
    let mut t = setup_with(i);
    t.create("1", 100);
    t.create("2", 110);
    t.bid("bobby0", "1", 100).unwrap();
    t.bid("bobby0", "2", 100).unwrap();
    t.at(10 * S);
    t.at(200 * S);
    t.at(400 * S);
    t.end();
    assert_eq!(t.owner("2"), "auctionhouse", "an auction that ended in a halt was settled");
    t.end();
    assert_eq!(t.owner("2"), "auctionhouse", "an auction that ended in a halt was settled");
"""),
("ra-stale-start", "P23", "a block limit smaller than the number of auctions that ended in the halt", "a halt window is dropped while auctions that end inside it are still waiting",
 [(S, ".seconds() > halt_info.end_time {", ".seconds() > halt_info.start_time {")], "rakit", """
    let mut i = init();
    i.max_auctions_to_settle_per_block = 1;
    let mut t = setup_with(i);
    t.create("1", 100);
    t.create("2", 110);
    t.bid("bobby0", "1", 100).unwrap();
    t.bid("bobby0", "2", 100).unwrap();
    t.at(10 * S);
    t.at(200 * S);
    t.at(201 * S);
    t.end();
    assert_eq!(t.owner("2"), "auctionhouse", "an auction that ended in a halt was settled");
"""),
("ra-due-second", "P23", "an auction that ends in the same second as the block", "the end block skips auctions that end in the current second",
 [(U, "env.block.time.seconds() + 1,", "env.block.time.seconds(),")], "rakit", """
    let mut t = setup();
    t.create("1", 100);
    t.bid("bobby0", "1", 100).unwrap();
    t.at(100 * S);
    t.end();
    assert_eq!(t.owner("1"), "bobby0");
"""),
("ra-cancel-rights", "P24", "a funds recipient other than the seller who sends the cancellation", "the seller's funds recipient can cancel the auction",
 [(X, """    let auction = auctions().load(deps.storage, (collection.clone(), token_id.to_string()))?;

    // Ensure caller is the seller
    ensure_eq!(auction.seller, info.sender, ContractError::Unauthorized {});
""", """    let auction = auctions().load(deps.storage, (collection.clone(), token_id.to_string()))?;

    // Ensure caller is the seller
    ensure!(
        auction.seller == info.sender || auction.funds_recipient() == info.sender,
        ContractError::Unauthorized {}
    );
""")], "rakit", """
    let mut t = setup();
    t.create("1", 100);
    assert!(t.ex("payee0", &[], Ex::CancelAuction { collection: N.into(), token_id: "1".into() }).is_err());
"""),
("ra-reprice-denom", "P24", "a repricing in another accepted denom below that denom's minimum", "a repricing is checked against the minimum of the auction's old denom",
 [(X, """    validate_reserve_price(deps.as_ref().storage, &reserve_price)?;

    // Update reserve price
""", """    validate_reserve_price(
        deps.as_ref().storage,
        &coin(reserve_price.amount.u128(), auction.denom()),
    )?;

    // Update reserve price
""")], "rakit", """
    let mut i = init();
    i.min_reserve_prices = vec![c(10), coin(1000, "uatom")];
    let mut t = setup_with(i);
    t.create("1", 100);
    assert!(t.ex("alice0", &[], Ex::UpdateReservePrice { collection: N.into(), token_id: "1".into(), reserve_price: coin(20, "uatom") }).is_err());
    assert!(t.ex("alice0", &[], Ex::UpdateReservePrice { collection: N.into(), token_id: "1".into(), reserve_price: coin(20, "uother") }).is_err());
    assert!(t.ex("alice0", &[], Ex::UpdateReservePrice { collection: N.into(), token_id: "1".into(), reserve_price: coin(2000, "uatom") }).is_ok());
"""),
("ra-query-repeat", "P25", "paging through a seller's auctions", "a page of a seller's auctions begins with the last auction of the previous page",
 [(Q, "Box::new(|sa| Bound::exclusive((Addr::unchecked(sa.collection), sa.token_id))),", "Box::new(|sa| Bound::inclusive((Addr::unchecked(sa.collection), sa.token_id))),")], "rakit", """
    let mut t = setup();
    for k in ["1", "2", "3"] { t.create(k, 100); }
    let p = |sa: Option<&str>| -> Vec<String> { t.q(Qm::AuctionsBySeller { seller: "alice0".into(), query_options: Some(QueryOptions { descending: None, limit: Some(2), start_after: sa.map(|x| AuctionKeyOffset { collection: N.into(), token_id: x.into() }) }) }).as_array().unwrap().iter().map(|a| a["token_id"].as_str().unwrap().to_string()).collect() };
    assert_eq!(p(None), ["1", "2"]);
    assert_eq!(p(Some("2")), ["3"]);
"""),
("ra-bid-denom-retired", "P28", "a denom withdrawn by governance while an auction in it is live", "bids on a live auction are refused once governance withdraws its denom or raises its minimum",
 [(X, """    // Ensure minimum bid amount is met
    let min_bid""", """    validate_reserve_price(deps.as_ref().storage, &auction.reserve_price)?;

    // Ensure minimum bid amount is met
    let min_bid""")], "rakit", """
    let mut t = setup();
    t.create("1", 100);
    t.su(Su::UnsetMinReservePrices { denoms: vec![D.into()] }).unwrap();
    t.bid("bobby0", "1", 100).unwrap();
    assert_eq!(t.auction("1")["high_bid"]["bidder"], "bobby0");
"""),
("ra-cancel-untraded", "P28", "a seller who cancels after the collection's trading start was moved to the future", "the seller cannot get the NFT back while the collection does not trade",
 [(X, "        } => execute_cancel_auction(deps, info, api.addr_validate(&collection)?, &token_id),", """        } => {
            let collection = api.addr_validate(&collection)?;
            only_tradable(&deps.querier, &env.block, &collection)?;
            execute_cancel_auction(deps, info, collection, &token_id)
        }""")], "rakit", """
    let mut t = setup();
    t.create("1", 100);
    t.0.colls.get_mut(N).unwrap().start = Some(T0 + 1000 * S);
    t.ex("alice0", &[], Ex::CancelAuction { collection: N.into(), token_id: "1".into() }).unwrap();
    assert_eq!(t.owner("1"), "alice0");
"""),
("ra-extended-bid-window", "P28", "a bid in the last second of an auction that was extended", "the last second before the end is closed to bids once an auction has been extended",
 [(X, "auction.end_time.is_none() || auction.end_time.unwrap().seconds() > block_time.seconds(),", """auction.end_time.is_none()
            || auction.end_time.unwrap().seconds()
                > block_time.seconds()
                    + u64::from(
                        auction.end_time
                            > auction
                                .first_bid_time
                                .map(|t| t.plus_seconds(auction.duration))
                    ),""")], "rakit", """
    let mut t = setup();
    t.create("1", 100);
    t.bid("bobby0", "1", 100).unwrap();
    t.at(98 * S);
    t.bid("carol0", "1", 200).unwrap();
    let e = t.end_of("1");
    assert!(e > 100 * S);
    t.at(e - S);
    t.bid("bobby0", "1", 300).unwrap();
"""),
("ra-migrate-halt", "P30", "an upgrade while a halt window is open", "migrating forgets the halt windows, so auctions that ended during a halt settle at once",
 [("contracts/reserve-auction/src/migrate.rs", """    cw2::set_contract_version(deps.storage, CONTRACT_NAME, CONTRACT_VERSION)?;
""", """    cw2::set_contract_version(deps.storage, CONTRACT_NAME, CONTRACT_VERSION)?;
    if let Some(mut halt_manager) = crate::state::HALT_MANAGER.may_load(deps.storage)? {
        halt_manager.halt_windows.clear();
        crate::state::HALT_MANAGER.save(deps.storage, &halt_manager)?;
    }
""")], "rakit", """
    let mut t = setup();
    t.at(200 * S);
    let k = t.q(Qm::HaltManager {});
    assert!(!k["halt_windows"].as_array().unwrap().is_empty(), "no window was recorded");
    t.0.call("admin0", &[], |d, e, _| m::migrate::migrate(d, e, m::migrate::MigrationMsg {}).map_err(|e| e.to_string()), |_, _, _| Ok(sg_std::Response::new())).unwrap();
    assert_eq!(t.q(Qm::HaltManager {}), k);
"""),
("ra-min-price-overwrite", "P24", "a minimum price set for a denom that has a different one", "setting a minimum price refuses only the price already stored and overwrites any other",
 [("contracts/reserve-auction/src/sudo.rs", "        if MIN_RESERVE_PRICES.has(deps.storage, min_reserve_price.denom.clone()) {", """        let current =
            MIN_RESERVE_PRICES.may_load(deps.storage, min_reserve_price.denom.clone())?;
        if current == Some(min_reserve_price.amount) {""")], "rakit", """
    let mut t = setup();
    assert!(t.su(Su::SetMinReservePrices { min_reserve_prices: vec![c(10)] }).is_err());
    assert!(t.su(Su::SetMinReservePrices { min_reserve_prices: vec![c(11)] }).is_err());
    t.su(Su::SetMinReservePrices { min_reserve_prices: vec![coin(7, "uosmo")] }).unwrap();
"""),
("ra-unset-fee-denom", "P28", "governance retiring the denom the creation fee is paid in", "the denom of the creation fee cannot be retired",
 [("contracts/reserve-auction/src/sudo.rs", """        if !MIN_RESERVE_PRICES.has(deps.storage, denom.clone()) {
""", """        let fee_denom = CONFIG.load(deps.storage)?.create_auction_fee.denom;
        if !MIN_RESERVE_PRICES.has(deps.storage, denom.clone()) || denom == fee_denom {
""")], "rakit", """
    let mut t = setup();
    t.su(Su::UnsetMinReservePrices { denoms: vec!["uatom".into()] }).unwrap();
    t.su(Su::UnsetMinReservePrices { denoms: vec![D.into()] }).unwrap();
"""),
("ra-reprice-raise-event", "P28", "a seller who lowers the reserve price", "the event of a new reserve price tells by how much it was raised, and computing it panics when it is lowered",
 [(X, """    // Update reserve price
    auction.reserve_price = reserve_price;
""", """    let raised = reserve_price.amount - auction.reserve_price.amount;

    // Update reserve price
    auction.reserve_price = reserve_price;
"""), (X, """        .add_attribute("reserve_price", auction.reserve_price.to_string());

    Ok(Response::new().add_event(event))
}

pub fn execute_cancel_auction(""", """        .add_attribute("reserve_price", auction.reserve_price.to_string())
        .add_attribute("raised_by", raised);

    Ok(Response::new().add_event(event))
}

pub fn execute_cancel_auction(""")], "rakit", """
    let mut t = setup();
    t.create("1", 100);
    t.ok("alice0", &[], Ex::UpdateReservePrice { collection: N.into(), token_id: "1".into(), reserve_price: c(200) });
    t.ok("alice0", &[], Ex::UpdateReservePrice { collection: N.into(), token_id: "1".into(), reserve_price: c(50) });
    assert_eq!(t.auction("1")["reserve_price"]["amount"], "50");
"""),
]
