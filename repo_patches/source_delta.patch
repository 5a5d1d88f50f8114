From c6efd9f53d9a94ee409dc3e4cb6093e37653b6a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:24 +0000
Subject: [PATCH 01/10] fix: reject funds attached to v2 admin and accept-bid
 messages

These handlers neither use nor return the coins sent with the message, so
the coins stayed in the contract with no owner.
---
 contracts/stargaze-marketplace-v2/src/execute.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/contracts/stargaze-marketplace-v2/src/execute.rs b/contracts/stargaze-marketplace-v2/src/execute.rs
index 25eed89..87d2b0d 100644
--- a/contracts/stargaze-marketplace-v2/src/execute.rs
+++ b/contracts/stargaze-marketplace-v2/src/execute.rs
@@ -154,6 +154,7 @@ pub fn execute_update_config(
     info: MessageInfo,
     config: Config<Addr>,
 ) -> Result<Response, ContractError> {
+    nonpayable(&info)?;
     only_contract_admin(&deps.querier, &env, &info)?;
     config.save(deps.storage)?;
 
@@ -175,6 +176,7 @@ pub fn execute_update_collection_denom(
     collection: Addr,
     denom: Denom,
 ) -> Result<Response, ContractError> {
+    nonpayable(&info)?;
     only_contract_admin(&deps.querier, &env, &info)?;
 
     COLLECTION_DENOMS.save(deps.storage, collection.clone(), &denom)?;
@@ -197,6 +199,7 @@ pub fn execute_set_listing_fee(
     info: MessageInfo,
     fee: Coin,
 ) -> Result<Response, ContractError> {
+    nonpayable(&info)?;
     only_contract_admin(&deps.querier, &env, &info)?;
 
     LISTING_FEES.save(deps.storage, fee.denom.clone(), &fee.amount)?;
@@ -219,6 +222,7 @@ pub fn execute_remove_listing_fee(
     info: MessageInfo,
     denom: Denom,
 ) -> Result<Response, ContractError> {
+    nonpayable(&info)?;
     only_contract_admin(&deps.querier, &env, &info)?;
 
     LISTING_FEES.remove(deps.storage, denom.clone());
@@ -692,6 +696,8 @@ pub fn execute_accept_bid(
     id: OrderId,
     details: OrderDetails<Addr>,
 ) -> Result<Response, ContractError> {
+    nonpayable(&info)?;
+
     let bid: Bid = bids()
         .load(deps.storage, id.clone())
         .map_err(|_| ContractError::InvalidInput(format!("bid not found [{}]", id)))?;
@@ -963,6 +969,8 @@ pub fn execute_accept_collection_bid(
     token_id: TokenId,
     details: OrderDetails<Addr>,
 ) -> Result<Response, ContractError> {
+    nonpayable(&info)?;
+
     let collection_bid = collection_bids()
         .load(deps.storage, id.clone())
         .map_err(|_| ContractError::InvalidInput(format!("collection bid not found [{}]", id)))?;
-- 
2.43.0


From 0e5b80839e7e7ed2e2f27391d8ec212c3a569b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:04 +0000
Subject: [PATCH 02/10] fix: reserve auction rejects creation funds beyond the
 fee instead of trapping them

---
 contracts/reserve-auction/src/execute.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/contracts/reserve-auction/src/execute.rs b/contracts/reserve-auction/src/execute.rs
index 4284709..06dbcb3 100644
--- a/contracts/reserve-auction/src/execute.rs
+++ b/contracts/reserve-auction/src/execute.rs
@@ -131,7 +131,7 @@ pub fn execute_create_auction(
         // If create auction fee is non zero, ensure user has sent the correct amount,
         // and send it to the fair-burn contract
         ensure!(
-            has_coins(&info.funds, &config.create_auction_fee),
+            info.funds == vec![config.create_auction_fee.clone()],
             ContractError::WrongFee {
                 expected: config.create_auction_fee,
             }
-- 
2.43.0


From 1c7461e7af3ba66cf0049fe9042d575319790471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:04 +0000
Subject: [PATCH 03/10] fix: reserve auction end block no longer fails on an
 auction ending later in the same second

---
 contracts/reserve-auction/src/helpers.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/contracts/reserve-auction/src/helpers.rs b/contracts/reserve-auction/src/helpers.rs
index 122dbcd..2717911 100644
--- a/contracts/reserve-auction/src/helpers.rs
+++ b/contracts/reserve-auction/src/helpers.rs
@@ -53,9 +53,9 @@ pub fn settle_auction(
     halt_manager: &HaltManager,
     mut response: Response,
 ) -> Result<Response, ContractError> {
-    // Ensure auction has ended
+    // Ensure auction has ended, at the same (seconds) granularity as bids and the end time index
     ensure!(
-        auction.end_time.is_some() && auction.end_time.unwrap() <= block_time,
+        auction.end_time.is_some() && auction.end_time.unwrap().seconds() <= block_time.seconds(),
         ContractError::AuctionNotEnded {}
     );
 
-- 
2.43.0


From b4ed5a10eaba301f82590f68cbd48f24d467f4a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:23 +0000
Subject: [PATCH 04/10] fix: reserve auction keeps a halt window until no
 auction can end inside it

---
 contracts/reserve-auction/src/state.rs | 6 ++----
 contracts/reserve-auction/src/sudo.rs  | 5 ++++-
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/contracts/reserve-auction/src/state.rs b/contracts/reserve-auction/src/state.rs
index 9886296..13b7378 100644
--- a/contracts/reserve-auction/src/state.rs
+++ b/contracts/reserve-auction/src/state.rs
@@ -145,15 +145,13 @@ impl HaltManager {
 
     pub fn find_stale_halt_info(
         &mut self,
-        earliest_auction_end_time: Option<Timestamp>,
+        earliest_auction_end_time: Timestamp,
     ) -> Option<HaltWindow> {
         if self.halt_windows.is_empty() {
             return None;
         }
         let halt_info = self.halt_windows.first().unwrap();
-        if earliest_auction_end_time.is_none()
-            || earliest_auction_end_time.unwrap().seconds() > halt_info.end_time
-        {
+        if earliest_auction_end_time.seconds() > halt_info.end_time {
             return Some(self.halt_windows.remove(0));
         }
         None
diff --git a/contracts/reserve-auction/src/sudo.rs b/contracts/reserve-auction/src/sudo.rs
index 20d0025..5808a52 100644
--- a/contracts/reserve-auction/src/sudo.rs
+++ b/contracts/reserve-auction/src/sudo.rs
@@ -98,7 +98,10 @@ pub fn sudo_end_block(mut deps: DepsMut, env: Env) -> Result<Response, ContractE
         .map(|item| item.map(|(_, v)| v))
         .collect::<StdResult<Vec<Auction>>>()?;
 
-    let earliest_auction_end_time = auctions.first().map(|a| a.end_time.unwrap());
+    // With no auction due, every remaining auction ends after the current block
+    let earliest_auction_end_time = auctions
+        .first()
+        .map_or(env.block.time, |a| a.end_time.unwrap());
 
     response =
         response.add_event(Event::new("sudo-end-block").add_attribute("action", "settle-auctions"));
-- 
2.43.0


From dd267e839b6c91359089e1259c22a34c83a30916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:48 +0000
Subject: [PATCH 05/10] fix: enforce the maximum ask price when an ask is
 repriced

---
 contracts/marketplace/src/execute.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/contracts/marketplace/src/execute.rs b/contracts/marketplace/src/execute.rs
index 9d57851..1374c8f 100644
--- a/contracts/marketplace/src/execute.rs
+++ b/contracts/marketplace/src/execute.rs
@@ -444,6 +444,9 @@ pub fn execute_update_ask_price(
     nonpayable(&info)?;
     only_owner(deps.as_ref(), &info, &collection, token_id)?;
     price_validate(deps.storage, &price)?;
+    if price.amount.u128() > MAX_FIXED_PRICE_ASK_AMOUNT {
+        return Err(ContractError::PriceTooHigh(price.amount));
+    }
 
     let key = ask_key(&collection, token_id);
 
-- 
2.43.0


From 07071bd1714b954c01cead71221cab382733503e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:48 +0000
Subject: [PATCH 06/10] fix: pay the seller the exact remainder of a sale with
 royalties

The royalty and the seller's share were rounded down separately, which left
one unit of the payment in the contract, and a fee total equal to the payment
could underflow.
---
 contracts/marketplace/src/execute.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/contracts/marketplace/src/execute.rs b/contracts/marketplace/src/execute.rs
index 1374c8f..42f41eb 100644
--- a/contracts/marketplace/src/execute.rs
+++ b/contracts/marketplace/src/execute.rs
@@ -1240,7 +1240,7 @@ fn payout(
             let seller_share_msg = BankMsg::Send {
                 to_address: payment_recipient.to_string(),
                 amount: vec![coin(
-                    (payment * (Decimal::one() - royalty.share) - network_fee).u128() - finders_fee,
+                    (payment - network_fee - amount.amount).u128() - finders_fee,
                     NATIVE_DENOM.to_string(),
                 )],
             };
-- 
2.43.0


From e9d816b606e1c2652976e014f9a57d58910ddc0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:48 +0000
Subject: [PATCH 07/10] fix: leave out zero-amount payments in sales and stale
 bid removals

The chain rejects a zero-amount send, so a fee, royalty, share or reward that
rounds to zero made the whole message fail.
---
 contracts/marketplace/src/execute.rs | 102 +++++++++++++++------------
 1 file changed, 55 insertions(+), 47 deletions(-)

diff --git a/contracts/marketplace/src/execute.rs b/contracts/marketplace/src/execute.rs
index 42f41eb..7ccde97 100644
--- a/contracts/marketplace/src/execute.rs
+++ b/contracts/marketplace/src/execute.rs
@@ -1048,14 +1048,20 @@ pub fn execute_remove_stale_bid(
 
     let reward = bid.price * params.bid_removal_reward_percent / Uint128::from(100u128);
 
-    let bidder_msg = BankMsg::Send {
-        to_address: bid.bidder.to_string(),
-        amount: vec![coin((bid.price - reward).u128(), NATIVE_DENOM)],
-    };
-    let operator_msg = BankMsg::Send {
-        to_address: operator.to_string(),
-        amount: vec![coin(reward.u128(), NATIVE_DENOM)],
-    };
+    let mut res = Response::new();
+    let refund = bid.price - reward;
+    if !refund.is_zero() {
+        res = res.add_message(BankMsg::Send {
+            to_address: bid.bidder.to_string(),
+            amount: vec![coin(refund.u128(), NATIVE_DENOM)],
+        });
+    }
+    if !reward.is_zero() {
+        res = res.add_message(BankMsg::Send {
+            to_address: operator.to_string(),
+            amount: vec![coin(reward.u128(), NATIVE_DENOM)],
+        });
+    }
 
     let hook = prepare_bid_hook(deps.as_ref(), &bid, HookAction::Delete)?;
 
@@ -1066,11 +1072,7 @@ pub fn execute_remove_stale_bid(
         .add_attribute("operator", operator.to_string())
         .add_attribute("reward", reward.to_string());
 
-    Ok(Response::new()
-        .add_event(event)
-        .add_message(bidder_msg)
-        .add_message(operator_msg)
-        .add_submessages(hook))
+    Ok(res.add_event(event).add_submessages(hook))
 }
 
 /// Privileged operation to remove a stale collection bid. Operators can call this to remove and refund bids that are still in the
@@ -1099,14 +1101,20 @@ pub fn execute_remove_stale_collection_bid(
 
     let reward = collection_bid.price * params.bid_removal_reward_percent / Uint128::from(100u128);
 
-    let bidder_msg = BankMsg::Send {
-        to_address: collection_bid.bidder.to_string(),
-        amount: vec![coin((collection_bid.price - reward).u128(), NATIVE_DENOM)],
-    };
-    let operator_msg = BankMsg::Send {
-        to_address: operator.to_string(),
-        amount: vec![coin(reward.u128(), NATIVE_DENOM)],
-    };
+    let mut res = Response::new();
+    let refund = collection_bid.price - reward;
+    if !refund.is_zero() {
+        res = res.add_message(BankMsg::Send {
+            to_address: collection_bid.bidder.to_string(),
+            amount: vec![coin(refund.u128(), NATIVE_DENOM)],
+        });
+    }
+    if !reward.is_zero() {
+        res = res.add_message(BankMsg::Send {
+            to_address: operator.to_string(),
+            amount: vec![coin(reward.u128(), NATIVE_DENOM)],
+        });
+    }
 
     let hook = prepare_collection_bid_hook(deps.as_ref(), &collection_bid, HookAction::Delete)?;
 
@@ -1116,11 +1124,7 @@ pub fn execute_remove_stale_collection_bid(
         .add_attribute("operator", operator.to_string())
         .add_attribute("reward", reward.to_string());
 
-    Ok(Response::new()
-        .add_event(event)
-        .add_message(bidder_msg)
-        .add_message(operator_msg)
-        .add_submessages(hook))
+    Ok(res.add_event(event).add_submessages(hook))
 }
 
 /// Transfers funds and NFT, updates bid
@@ -1199,7 +1203,9 @@ fn payout(
 
     // Append Fair Burn message
     let network_fee = payment * params.trading_fee_percent / Uint128::from(100u128);
-    fair_burn(network_fee.u128(), None, res);
+    if !network_fee.is_zero() {
+        fair_burn(network_fee.u128(), None, res);
+    }
 
     let collection_info: CollectionInfoResponse = deps
         .querier
@@ -1228,37 +1234,39 @@ fn payout(
             if payment < (network_fee + Uint128::from(finders_fee) + amount.amount) {
                 return Err(StdError::generic_err("Fees exceed payment"));
             }
-            res.messages.push(SubMsg::new(BankMsg::Send {
-                to_address: royalty.payment_address.to_string(),
-                amount: vec![amount.clone()],
-            }));
+            if !amount.amount.is_zero() {
+                res.messages.push(SubMsg::new(BankMsg::Send {
+                    to_address: royalty.payment_address.to_string(),
+                    amount: vec![amount.clone()],
+                }));
+            }
             let event = Event::new("royalty-payout")
                 .add_attribute("collection", collection.to_string())
                 .add_attribute("amount", amount.to_string())
                 .add_attribute("recipient", royalty.payment_address.to_string());
             res.events.push(event);
-            let seller_share_msg = BankMsg::Send {
-                to_address: payment_recipient.to_string(),
-                amount: vec![coin(
-                    (payment - network_fee - amount.amount).u128() - finders_fee,
-                    NATIVE_DENOM.to_string(),
-                )],
-            };
-            res.messages.push(SubMsg::new(seller_share_msg));
+            let seller_share = (payment - network_fee - amount.amount).u128() - finders_fee;
+            if seller_share > 0 {
+                let seller_share_msg = BankMsg::Send {
+                    to_address: payment_recipient.to_string(),
+                    amount: vec![coin(seller_share, NATIVE_DENOM.to_string())],
+                };
+                res.messages.push(SubMsg::new(seller_share_msg));
+            }
         }
         None => {
             if payment < (network_fee + Uint128::from(finders_fee)) {
                 return Err(StdError::generic_err("Fees exceed payment"));
             }
             // If token doesn't support royalties, pay seller in full
-            let seller_share_msg = BankMsg::Send {
-                to_address: payment_recipient.to_string(),
-                amount: vec![coin(
-                    (payment - network_fee).u128() - finders_fee,
-                    NATIVE_DENOM.to_string(),
-                )],
-            };
-            res.messages.push(SubMsg::new(seller_share_msg));
+            let seller_share = (payment - network_fee).u128() - finders_fee;
+            if seller_share > 0 {
+                let seller_share_msg = BankMsg::Send {
+                    to_address: payment_recipient.to_string(),
+                    amount: vec![coin(seller_share, NATIVE_DENOM.to_string())],
+                };
+                res.messages.push(SubMsg::new(seller_share_msg));
+            }
         }
     }
 
-- 
2.43.0


From 9e1d6215799e2452a35ccdd38bd362e7ea248174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:31 +0000
Subject: [PATCH 08/10] fix: marketplace: ask listings without a cursor start
 at the end of the range

---
 contracts/marketplace/src/query.rs | 28 ++++++++--------------------
 1 file changed, 8 insertions(+), 20 deletions(-)

diff --git a/contracts/marketplace/src/query.rs b/contracts/marketplace/src/query.rs
index c90dd2c..6dac982 100644
--- a/contracts/marketplace/src/query.rs
+++ b/contracts/marketplace/src/query.rs
@@ -238,19 +238,13 @@ pub fn query_asks(
 ) -> StdResult<AsksResponse> {
     let limit = limit.unwrap_or(DEFAULT_QUERY_LIMIT).min(MAX_QUERY_LIMIT) as usize;
 
+    let start = start_after.map(|token_id| Bound::exclusive(ask_key(&collection, token_id)));
+
     let asks = asks()
         .idx
         .collection
-        .prefix(collection.clone())
-        .range(
-            deps.storage,
-            Some(Bound::exclusive((
-                collection,
-                start_after.unwrap_or_default(),
-            ))),
-            None,
-            Order::Ascending,
-        )
+        .prefix(collection)
+        .range(deps.storage, start, None, Order::Ascending)
         .filter(|item| match item {
             Ok((_, ask)) => match include_inactive {
                 Some(true) => true,
@@ -274,19 +268,13 @@ pub fn reverse_query_asks(
 ) -> StdResult<AsksResponse> {
     let limit = limit.unwrap_or(DEFAULT_QUERY_LIMIT).min(MAX_QUERY_LIMIT) as usize;
 
+    let end = start_before.map(|token_id| Bound::exclusive(ask_key(&collection, token_id)));
+
     let asks = asks()
         .idx
         .collection
-        .prefix(collection.clone())
-        .range(
-            deps.storage,
-            None,
-            Some(Bound::exclusive((
-                collection,
-                start_before.unwrap_or_default(),
-            ))),
-            Order::Descending,
-        )
+        .prefix(collection)
+        .range(deps.storage, None, end, Order::Descending)
         .filter(|item| match item {
             Ok((_, ask)) => match include_inactive {
                 Some(true) => true,
-- 
2.43.0


From 077fe21de8e7fed6d1385000660fc5a2e1302801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:40 +0000
Subject: [PATCH 09/10] fix: marketplace: the cursor of the bids of a token is
 a bidder

---
 contracts/marketplace/src/query.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/contracts/marketplace/src/query.rs b/contracts/marketplace/src/query.rs
index 6dac982..546c3a1 100644
--- a/contracts/marketplace/src/query.rs
+++ b/contracts/marketplace/src/query.rs
@@ -455,7 +455,8 @@ pub fn query_bids(
     limit: Option<u32>,
 ) -> StdResult<BidsResponse> {
     let limit = limit.unwrap_or(DEFAULT_QUERY_LIMIT).min(MAX_QUERY_LIMIT) as usize;
-    let start = start_after.map(|s| Bound::ExclusiveRaw(s.into()));
+    let start = maybe_addr(deps.api, start_after)?
+        .map(|bidder| Bound::exclusive(bid_key(&collection, token_id, &bidder)));
 
     let bids = bids()
         .idx
-- 
2.43.0


From bbe8d3e90cc1d1d9b198b1908f6ea8c71c9c4b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:52 +0000
Subject: [PATCH 10/10] fix: marketplace: the collections listing names each
 collection once

---
 contracts/marketplace/src/query.rs | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/contracts/marketplace/src/query.rs b/contracts/marketplace/src/query.rs
index 546c3a1..6d9e88a 100644
--- a/contracts/marketplace/src/query.rs
+++ b/contracts/marketplace/src/query.rs
@@ -215,16 +215,22 @@ pub fn query_collections(
     let limit = limit.unwrap_or(DEFAULT_QUERY_LIMIT).min(MAX_QUERY_LIMIT) as usize;
     let start_addr = maybe_addr(deps.api, start_after)?;
 
-    let collections = asks()
-        .prefix_range(
-            deps.storage,
-            start_addr.map(PrefixBound::exclusive),
-            None,
-            Order::Ascending,
-        )
-        .take(limit)
-        .map(|item| item.map(|(key, _)| key.0))
-        .collect::<StdResult<Vec<_>>>()?;
+    // asks of one collection are adjacent, each collection is listed once
+    let mut collections: Vec<Addr> = vec![];
+    for item in asks().prefix_range(
+        deps.storage,
+        start_addr.map(PrefixBound::exclusive),
+        None,
+        Order::Ascending,
+    ) {
+        if collections.len() == limit {
+            break;
+        }
+        let ((collection, _), _) = item?;
+        if collections.last() != Some(&collection) {
+            collections.push(collection);
+        }
+    }
 
     Ok(CollectionsResponse { collections })
 }
-- 
2.43.0

