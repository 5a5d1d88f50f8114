X = "contracts/stargaze-marketplace-v2/src/execute.rs"
O = "contracts/stargaze-marketplace-v2/src/orders.rs"
H = "contracts/stargaze-marketplace-v2/src/helpers.rs"
Q = "contracts/stargaze-marketplace-v2/src/query.rs"
S = "contracts/stargaze-marketplace-v2/src/state.rs"
SEEDS = [
("v2-update-bid-credit", "P01", "a bid raised or lowered without matching an ask", "the credit of an updated collection bid is its new price instead of the escrowed one, so raising it is free and lowering it traps funds",
 [(X, """    funds = funds.add(collection_bid.details.price.clone());

    collection_bid.details = details;
""", """    collection_bid.details = details;
    funds = funds.add(collection_bid.details.price.clone());
""")], "v2kit", """
    let mut t = setup();
    t.cbid("bobby0", det(100));
    let id = t.cbids()[0].id.clone();
    let _ = t.ex("bobby0", &[], Ex::UpdateCollectionBid { id, details: det(40) });
    assert_eq!(t.bal("market"), t.esc(), "escrow is not backed exactly");
"""),
("v2-maker-taker", "P02", "a listing with a finder that trades against a resting bid with another finder, with unequal maker and taker shares", "maker and taker rewards go to the wrong finders when the bid rested first",
 [(H, "(&bid_details.price, &bid_details.finder, &ask.details.finder)", "(&bid_details.price, &ask.details.finder, &bid_details.finder)")], "v2kit", """
    let mut t = setup();
    t.bid("bobby0", "1", detx(100_000, None, Some("maker0")));
    t.ask("alice0", "1", detx(90_000, None, Some("taker0")));
    assert_eq!((t.bal("maker0"), t.bal("taker0")), (800, 200));
"""),
("v2-collection-recipient", "P03", "a collection bid with a recipient other than the bidder", "the NFT bought through a collection bid goes to the bidder, not to the recipient they named",
 [(H, "(collection_bid.asset_recipient(), &collection_bid.details)", "(collection_bid.creator.clone(), &collection_bid.details)")], "v2kit", """
    let mut t = setup();
    t.cbid("bobby0", detx(1000, Some("carol0"), None));
    let id = t.cbids()[0].id.clone();
    t.ok("alice0", &[], Ex::AcceptCollectionBid { id, token_id: "2".into(), details: det(900) });
    assert_eq!(t.owner("2"), "carol0");
"""),
("v2-accept-recipient", "P04", "an ask with a recipient, a collection bid below its price, and the recipient accepting the bid", "the payment recipient of a listing can sell it into a collection bid below the asking price",
 [(X, """    let ask_id = generate_id(vec![
        collection_bid.collection.as_bytes(),
        token_id.as_bytes(),
    ]);
    let ask_option = asks().may_load(deps.storage, ask_id.clone())?;

    // Check if the sender is the owner of the NFT, or if the creator of a valid ask
    let ask = if let Some(ask) = ask_option {
        if info.sender != ask.creator {""", """    let ask_id = generate_id(vec![
        collection_bid.collection.as_bytes(),
        token_id.as_bytes(),
    ]);
    let ask_option = asks().may_load(deps.storage, ask_id.clone())?;

    // Check if the sender is the owner of the NFT, or if the creator of a valid ask
    let ask = if let Some(ask) = ask_option {
        if info.sender != ask.creator && info.sender != ask.asset_recipient() {""")], "v2kit", """
    let mut t = setup();
    t.ask("alice0", "1", detx(1000, Some("carol0"), None));
    t.cbid("bobby0", det(10));
    let id = t.cbids()[0].id.clone();
    let r = t.ex("carol0", &[], Ex::AcceptCollectionBid { id, token_id: "1".into(), details: det(1) });
    assert!(r.is_err(), "someone other than the seller sold the listed NFT");
"""),
("v2-accept-ask-limit", "P05", "a buyer sending more than their stated maximum while the listing is above it", "accepting a listing checks the funds sent instead of the stated maximum price",
 [(X, "has_coins(&[details.price.clone()], &ask.details.price),", "has_coins(&info.funds, &ask.details.price),")], "v2kit", """
    let mut t = setup();
    t.ask("alice0", "1", det(150));
    let id = t.asks()[0].id.clone();
    let r = t.ex("bobby0", &[c(200)], Ex::AcceptAsk { id, details: det(100) });
    assert!(r.is_err(), "bought above the stated maximum");
"""),
("v2-equal-price", "P06", "a collection bid whose price equals the cheapest listing exactly", "an equal-priced collection bid and listing no longer trade",
 [(O, "amount: self.details.price.amount.u128() + 1,", "amount: self.details.price.amount.u128(),")], "v2kit", """
    let mut t = setup();
    t.ask("alice0", "1", det(100));
    t.cbid("bobby0", det(100));
    assert!(t.asks().is_empty() && t.cbids().is_empty(), "crossing orders rest in the book");
"""),
("v2-cheapest-denom", "P06", "two listings where the highest asking price is the newest", "a collection bid takes the dearest listing within its price instead of the cheapest",
 [(O, """                descending: Some(false),
                limit: Some(1),
                min: None,""", """                descending: Some(true),
                limit: Some(1),
                min: None,""")], "v2kit", """
    let mut t = setup();
    t.ask("alice0", "1", det(100));
    t.ask("alice0", "2", det(120));
    t.cbid("bobby0", det(130));
    assert_eq!(t.owner("1"), "bobby0");
"""),
("v2-bid-id-height", "P07", "two bids of different users on one token in the same block", "the id of a bid no longer depends on the nonce, so the second bid in a block collides",
 [(O, """                token_id.as_bytes(),
                height.to_be_bytes().as_ref(),
                nonce.to_be_bytes().as_ref(),
            ]),""", """                token_id.as_bytes(),
                height.to_be_bytes().as_ref(),
                nonce.min(1).to_be_bytes().as_ref(),
            ]),""")], "v2kit", """
    let mut t = setup();
    t.bid("bobby0", "1", det(100));
    let r = t.ex("carol0", &[c(120)], Ex::SetBid { collection: "nftalpha".into(), token_id: "1".into(), details: det(120) });
    assert!(r.is_ok() && t.bids().len() == 2, "the second bid took the first one's id");
"""),
("v2-update-recipient", "P07", "a bid updated with a different recipient", "updating a bid keeps the previous recipient",
 [(X, """    bid.details = details;

    let mut response""", """    bid.details = OrderDetails {
        recipient: bid.details.recipient.clone().or(details.recipient),
        ..details
    };

    let mut response""")], "v2kit", """
    let mut t = setup();
    t.bid("bobby0", "1", detx(100, Some("carol0"), None));
    let id = t.bids()[0].id.clone();
    t.ok("bobby0", &[], Ex::UpdateBid { id, details: detx(100, Some("dave00"), None) });
    assert_eq!(t.bids()[0].details.recipient.as_ref().unwrap().as_str(), "dave00");
"""),
("v2-listing-fee", "P08", "a seller paying more than the listing fee", "a listing fee above the configured one is accepted and kept",
 [(X, """        ensure_eq!(
            listing_payment.amount,
            _listing_fee,
            ContractError""", """        ensure!(
            listing_payment.amount >= _listing_fee,
            ContractError""")] , "v2kit", """
    let mut t = setup();
    let r = t.ex("alice0", &[c(5000)], Ex::SetAsk { collection: "nftalpha".into(), token_id: "1".into(), details: det(100) });
    assert!(r.is_err(), "a listing paid something else than the fee");
"""),
("v2-reward-sum", "P08", "maker and taker shares that are each in range but not together", "the combined maker and taker share is no longer bounded",
 [(S, "(self.maker_reward_bps + self.taker_reward_bps) < MAX_BASIS_POINTS", "self.maker_reward_bps.max(self.taker_reward_bps) < MAX_BASIS_POINTS")], "v2kit", """
    let mut t = setup();
    let mut g = config(); g.maker_reward_bps = 6000; g.taker_reward_bps = 6000;
    let r = t.ex("admin0", &[], Ex::UpdateConfig { config: g });
    assert!(r.is_err(), "rewards above the fee were accepted");
"""),
("v2-query-missing", "P09", "a query for several ids where one in the middle is unknown", "a query for several bids stops at the first id that is not stored",
 [(Q, """        if let Some(bid) = bid {
            retval.push(bid);
        }""", """        match bid {
            Some(bid) => retval.push(bid),
            None => break,
        }""")], "v2kit", """
    let mut t = setup();
    t.bid("bobby0", "1", det(100));
    let id = t.bids()[0].id.clone();
    let r: Vec<Bid> = t.q(Qm::Bids(vec!["none".into(), id]));
    assert_eq!(r.len(), 1, "a stored bid is missing from the answer");
"""),
("v2-index-key", "P09", "tokens whose collection and id concatenate to the same text", "the bid index loses the separator between collection and token",
 [(H, 'string_list.join("/")', 'string_list.join("")')], "v2kit", """
    let mut t = setup();
    t.0.colls.insert("nftalpha1".into(), Default::default());
    t.ok("bobby0", &[c(7)], Ex::SetBid { collection: "nftalpha1".into(), token_id: "1".into(), details: det(7) });
    let r: Vec<Bid> = t.q(Qm::BidsByTokenPrice { collection: "nftalpha".into(), token_id: "11".into(), denom: D.into(), query_options: None });
    assert!(r.is_empty(), "the answer holds a bid for another NFT");
"""),
("v2-withdraw-tradable", "P10", "a collection whose trading start is moved into the future after a bid", "withdrawing a bid is refused while the collection is not tradable",
 [(X, """    let refund = bid.details.price.clone();
""", """    only_tradable(&deps.querier, &_env.block, &bid.collection)?;

    let refund = bid.details.price.clone();
""")], "v2kit", """
    let mut t = setup();
    t.bid("bobby0", "1", det(100));
    t.0.colls.get_mut("nftalpha").unwrap().start = Some(t.0.time + 5);
    let id = t.bids()[0].id.clone();
    assert!(t.ex("bobby0", &[], Ex::RemoveBid { id }).is_ok(), "a bidder cannot withdraw");
"""),
("v2-refund-recipient", "P10", "a collection bid with a recipient other than its creator", "the refund of a withdrawn collection bid goes to the NFT recipient",
 [(X, """    let refund = collection_bid.details.price.clone();

    collection_bid.remove(deps.storage)?;

    let mut response = transfer_coin(refund, &info.sender, Response::new());""", """    let refund = collection_bid.details.price.clone();

    collection_bid.remove(deps.storage)?;

    let mut response = transfer_coin(refund, &collection_bid.asset_recipient(), Response::new());""")], "v2kit", """
    let mut t = setup();
    t.cbid("bobby0", detx(100, Some("carol0"), None));
    let id = t.cbids()[0].id.clone();
    let b = t.bal("bobby0");
    t.ok("bobby0", &[], Ex::RemoveCollectionBid { id });
    assert_eq!(t.bal("bobby0"), b + 100, "the bidder did not get the refund");
"""),
("v2-buy-above-limit", "P02", "an ask matched by a bid above it while the ask came first", "a bid that takes a cheaper listing pays its own price instead of the listing's",
 [(H, "(&ask.details.price, &ask.details.finder, &bid_details.finder)", "(&bid_details.price, &ask.details.finder, &bid_details.finder)")], "v2kit", """
    let mut t = setup();
    t.ask("alice0", "1", det(100));
    t.bid("carol0", "2", det(500));
    let b = t.bal("bobby0");
    t.ok("bobby0", &[c(150)], Ex::SetBid { collection: "nftalpha".into(), token_id: "1".into(), details: det(150) });
    let fee = t.bal("feeman") - 50;
    assert_eq!((fee, b - t.bal("bobby0"), t.bal("market")), (2, 100, t.esc()), "the sale was not at the resting price");
"""),
("v2-reprice-untraded", "P29", "a listing whose collection's trading start was moved into the future, repriced by its seller", "a seller cannot reprice while the collection is not tradable",
 [(X, """    only_valid_price(deps.storage, &config, &ask.collection, &details.price)?;

    ask.details = details;
""", """    only_valid_price(deps.storage, &config, &ask.collection, &details.price)?;
    only_tradable(&deps.querier, &env.block, &ask.collection)?;

    ask.details = details;
""")], "v2kit", """
    let mut t = setup();
    t.ask("alice0", "1", det(100));
    t.0.colls.get_mut("nftalpha").unwrap().start = Some(t.0.time + 5);
    let id = t.asks()[0].id.clone();
    assert!(t.ex("alice0", &[], Ex::UpdateAsk { id, details: det(90) }).is_ok(), "the seller cannot reprice");
"""),
("v2-accept-old-denom", "P29", "a collection whose denomination the admin changes while a bid in the old one rests, and the owner accepting that bid", "a resting bid in a collection's former denomination cannot be accepted any more",
 [(X, """    let config: Config<Addr> = CONFIG.load(deps.storage)?;
    let response = finalize_sale(
        deps,
        &env,
        &ask,
        &config,
        &MatchingBid::Bid(bid),
        false,
        Response::new(),
    )?;
""", """    let config: Config<Addr> = CONFIG.load(deps.storage)?;
    only_valid_price(deps.storage, &config, &bid.collection, &bid.details.price)?;
    let response = finalize_sale(
        deps,
        &env,
        &ask,
        &config,
        &MatchingBid::Bid(bid),
        false,
        Response::new(),
    )?;
""")], "v2kit", """
    let mut t = setup();
    t.bid("bobby0", "1", det(1000));
    t.ok("admin0", &[], Ex::UpdateCollectionDenom { collection: "nftalpha".into(), denom: "uatom".into() });
    let id = t.bids()[0].id.clone();
    assert!(t.ex("alice0", &[], Ex::AcceptBid { id, details: det(1000) }).is_ok(), "the owner cannot accept a resting bid");
"""),
("v2-update-bid-cheaper", "P29", "a bid raised to a price its funds do not cover, on a token listed at a price they do cover", "a raised bid must be fully funded even when it trades at once at a lower price",
 [(X, """    // Add the previous price to the funds in context
    funds = funds.add(bid.details.price.clone());

    bid.details = details;
""", """    // Add the previous price to the funds in context
    funds = funds.add(bid.details.price.clone());
    funds
        .clone()
        .sub(details.price.clone())
        .map_err(|_| ContractError::InsufficientFunds)?;

    bid.details = details;
""")], "v2kit", """
    let mut t = setup();
    t.bid("bobby0", "1", det(1000));
    t.ask("alice0", "1", det(1200));
    let id = t.bids()[0].id.clone();
    assert!(t.ex("bobby0", &[c(200)], Ex::UpdateBid { id, details: det(1500) }).is_ok(), "funds cover the listing and the update was refused");
    assert_eq!(t.owner("1"), "bobby0");
"""),
("v2-all-fees", "P29", "a sale whose fees take the whole price", "a sale in which the fees leave nothing for the seller is refused instead of paid",
 [("packages/sg-marketplace-common/src/sale.rs", """        if !seller_amount.is_zero() {
            self.payments.push(Payment {
                label: "seller".to_string(),
                recipient: self.seller_recipient.clone(),
                funds: coin(seller_amount.u128(), &denom),
            });
        }
""", """        if seller_amount.is_zero() {
            return Err(StdError::generic_err("fees exceed sale price"));
        }
        self.payments.push(Payment {
            label: "seller".to_string(),
            recipient: self.seller_recipient.clone(),
            funds: coin(seller_amount.u128(), &denom),
        });
""")], "v2kit", """
    let mut t = setup();
    t.cbid("bobby0", det(1));
    let id = t.cbids()[0].id.clone();
    assert!(t.ex("alice0", &[], Ex::AcceptCollectionBid { id, token_id: "1".into(), details: det(1) }).is_ok(), "a payable sale was refused");
    assert_eq!((t.owner("1").as_str(), t.bal("market")), ("bobby0", 0));
"""),
("v2-migrate-nonce", "P30", "an upgrade of a market that has orders", "migrating restarts the counter from which order ids are made",
 [("contracts/stargaze-marketplace-v2/src/migrate.rs", """    set_contract_version(deps.storage, CONTRACT_NAME, CONTRACT_VERSION)?;
""", """    set_contract_version(deps.storage, CONTRACT_NAME, CONTRACT_VERSION)?;
    crate::state::NONCE.save(deps.storage, &0)?;
""")], "v2kit", """
    let mut t = setup();
    t.bid("bobby0", "1", det(1000));
    let before = NONCE.load(&t.0.store).unwrap();
    t.0.call("admin0", &[], |d, e, _| m::migrate::migrate(d, e, m::migrate::MigrateMsg {}), |_, _, _| Ok(Response::new())).unwrap();
    assert_eq!(NONCE.load(&t.0.store).unwrap(), before, "the order counter restarted");
"""),
]
