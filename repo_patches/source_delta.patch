From 7a0bbaa0bf668f26f57b464035a6f830b008cf18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:57 +0000
Subject: [PATCH 01/38] fix: marketplace: reject accepting an offer for a token
 on auction

The auction was removed while its winning bid stayed on hold forever.
---
 pallet/marketplace/src/impls.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pallet/marketplace/src/impls.rs b/pallet/marketplace/src/impls.rs
index 84c49b5..4164f68 100644
--- a/pallet/marketplace/src/impls.rs
+++ b/pallet/marketplace/src/impls.rs
@@ -373,6 +373,8 @@ impl<T: Config> Pallet<T> {
 		if let Some(TokenLockReason::Listed(listing_id)) = T::NFTExt::get_token_lock(offer.token_id)
 		{
 			if let Some(listing) = <Listings<T>>::get(listing_id) {
+				// An auctioned token can not be sold through an offer, there may be a winning bid
+				ensure!(!matches!(listing, Listing::<T>::Auction(_)), Error::<T>::TokenOnAuction);
 				if let Listing::<T>::FixedPrice(sale) = listing.clone() {
 					Self::deposit_event(Event::<T>::FixedPriceSaleClose {
 						tokens: sale.tokens,
-- 
2.43.0


From 0d16023b87deef7de2ec9c30cf69db66e6ca823b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:57 +0000
Subject: [PATCH 02/38] fix: marketplace: unlock all tokens of a listing closed
 by an accepted offer

The other tokens of a bundle stayed locked under the removed listing.
---
 pallet/marketplace/src/impls.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pallet/marketplace/src/impls.rs b/pallet/marketplace/src/impls.rs
index 4164f68..2e2b639 100644
--- a/pallet/marketplace/src/impls.rs
+++ b/pallet/marketplace/src/impls.rs
@@ -376,6 +376,8 @@ impl<T: Config> Pallet<T> {
 				// An auctioned token can not be sold through an offer, there may be a winning bid
 				ensure!(!matches!(listing, Listing::<T>::Auction(_)), Error::<T>::TokenOnAuction);
 				if let Listing::<T>::FixedPrice(sale) = listing.clone() {
+					// release every token of the listing, not only the one being sold
+					sale.tokens.unlock_tokens(&sale.seller)?;
 					Self::deposit_event(Event::<T>::FixedPriceSaleClose {
 						tokens: sale.tokens,
 						listing_id,
-- 
2.43.0


From fe7da59517fda0971cb4c9f557ddade29141a5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:57 +0000
Subject: [PATCH 03/38] fix: marketplace: unlock tokens of an auction whose
 settlement failed

The settlement is rolled back, so the tokens stayed locked under the removed listing.
---
 pallet/marketplace/src/impls.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pallet/marketplace/src/impls.rs b/pallet/marketplace/src/impls.rs
index 2e2b639..af68996 100644
--- a/pallet/marketplace/src/impls.rs
+++ b/pallet/marketplace/src/impls.rs
@@ -520,6 +520,7 @@ impl<T: Config> Pallet<T> {
 			}
 
 			// listing metadata is removed by now.
+			let _ = listing.tokens.unlock_tokens(&listing.seller);
 			Self::deposit_event(Event::<T>::AuctionClose {
 				tokens: listing.tokens,
 				listing_id,
-- 
2.43.0


From 21e23c1a6951fa320a7cb07d740b6d85515c4581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:57 +0000
Subject: [PATCH 04/38] fix: xrpl-bridge: account for the weight of processed
 transactions

---
 pallet/xrpl-bridge/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pallet/xrpl-bridge/src/lib.rs b/pallet/xrpl-bridge/src/lib.rs
index 2e2c0dd..e187dc7 100644
--- a/pallet/xrpl-bridge/src/lib.rs
+++ b/pallet/xrpl-bridge/src/lib.rs
@@ -920,7 +920,7 @@ impl<T: Config> Pallet<T> {
 			match weighted_result {
 				Ok(weight) => {
 					Self::deposit_event(Event::ProcessingOk(ledger_index, *transaction_hash));
-					used_weight.saturating_add(weight);
+					used_weight = used_weight.saturating_add(weight);
 				},
 				Err((weight, e)) => {
 					Self::deposit_event(Event::ProcessingFailed(
@@ -928,7 +928,7 @@ impl<T: Config> Pallet<T> {
 						*transaction_hash,
 						e,
 					));
-					used_weight.saturating_add(weight);
+					used_weight = used_weight.saturating_add(weight);
 					continue;
 				},
 			}
-- 
2.43.0


From 64591493270a39b843a83e427d96b0b026089b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:30 +0000
Subject: [PATCH 05/38] fix: xls20 mint fee no longer truncated to 32 bits

---
 pallet/xls20/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pallet/xls20/src/lib.rs b/pallet/xls20/src/lib.rs
index a672457..e16fda0 100644
--- a/pallet/xls20/src/lib.rs
+++ b/pallet/xls20/src/lib.rs
@@ -305,7 +305,7 @@ impl<T: Config> Pallet<T> {
 		if let Some(relayer) = Relayer::<T>::get() {
 			// Fee is per token minted
 			let nft_count: u32 = token_count.saturated_into();
-			let mint_fee: Balance = nft_count.saturating_mul(xls20_mint_fee as u32).into();
+			let mint_fee: Balance = Balance::from(nft_count).saturating_mul(xls20_mint_fee);
 			// Make the payment
 			T::MultiCurrency::transfer(
 				T::Xls20PaymentAsset::get(),
-- 
2.43.0


From b7502b0dcbcb84cf141e7e3de0c2c07f0a6d4c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:10 +0000
Subject: [PATCH 06/38] fix: crowdsale voucher amount of a redemption computed
 in 128 bits

---
 pallet/crowdsale/src/lib.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pallet/crowdsale/src/lib.rs b/pallet/crowdsale/src/lib.rs
index 38e44c1..2751ee6 100644
--- a/pallet/crowdsale/src/lib.rs
+++ b/pallet/crowdsale/src/lib.rs
@@ -788,11 +788,12 @@ pub mod pallet {
 			// burn vouchers from the user, will fail if the user does not have enough
 			// vouchers since 1:1 mapping between vouchers and NFTs, we can use the quantity
 			// * decimals as the amount burned
-			let voucher_amount = quantity.saturating_mul(10u32.pow(VOUCHER_DECIMALS as u32));
+			let voucher_amount =
+				Balance::from(quantity).saturating_mul(10u128.pow(VOUCHER_DECIMALS as u32));
 			T::MultiCurrency::burn_from(
 				sale_info.voucher_asset_id,
 				&who,
-				voucher_amount.into(),
+				voucher_amount,
 				Precision::Exact,
 				Fortitude::Polite,
 			)?;
-- 
2.43.0


From 572921b563b2b3fb7753d454b9882516a4181742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:21 +0000
Subject: [PATCH 07/38] fix: crowdsale sales need a duration, else they are
 never closed

---
 pallet/crowdsale/src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pallet/crowdsale/src/lib.rs b/pallet/crowdsale/src/lib.rs
index 2751ee6..5cde302 100644
--- a/pallet/crowdsale/src/lib.rs
+++ b/pallet/crowdsale/src/lib.rs
@@ -378,6 +378,9 @@ pub mod pallet {
 
 			// ensure soft_cap_price is not zero - prevent future div by zero
 			ensure!(!soft_cap_price.is_zero(), Error::<T>::InvalidSoftCapPrice);
+			// A sale without duration would never reach its end block
+			ensure!(!sale_duration.is_zero(), Error::<T>::InvalidBlockRange);
+
 			// Disallow sale durations that are too long
 			ensure!(sale_duration <= T::MaxSaleDuration::get(), Error::<T>::SaleDurationTooLong);
 
-- 
2.43.0


From fa6c19448fa6aa5941a9329346f025e55aa6b3ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:32 +0000
Subject: [PATCH 08/38] fix: short call data in a futurepass proxy call reverts
 instead of panicking

---
 evm-precompiles/futurepass/src/lib.rs | 2 +-
 runtime/src/impls.rs                  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/evm-precompiles/futurepass/src/lib.rs b/evm-precompiles/futurepass/src/lib.rs
index e70ac3b..038fa91 100644
--- a/evm-precompiles/futurepass/src/lib.rs
+++ b/evm-precompiles/futurepass/src/lib.rs
@@ -310,7 +310,7 @@ where
 
 		// restrict delegate access to whitelist
 		if call_to.0.as_bytes().starts_with(FUTUREPASS_PRECOMPILE_ADDRESS_PREFIX) {
-			let sub_call_selector = &call_data.inner[..4];
+			let sub_call_selector = &get_selector(&call_data.inner);
 			if sub_call_selector
 				== &keccak256!("registerDelegateWithSignature(address,uint8,uint32,bytes)")[..4]
 				|| sub_call_selector == &keccak256!("unregisterDelegate(address)")[..4]
diff --git a/runtime/src/impls.rs b/runtime/src/impls.rs
index d1f0dd5..145c8ea 100644
--- a/runtime/src/impls.rs
+++ b/runtime/src/impls.rs
@@ -743,7 +743,7 @@ impl pallet_evm_precompiles_futurepass::EvmProxyCallFilter for ProxyType {
 			|| call.to.0.as_bytes().starts_with(FUTUREPASS_PRECOMPILE_ADDRESS_PREFIX)
 		{
 			// Whitelist for precompile side
-			let sub_call_selector = &call.call_data.inner[..4];
+			let sub_call_selector = &precompile_utils::get_selector(&call.call_data.inner);
 			if sub_call_selector
 				== &keccak256!("registerDelegateWithSignature(address,uint8,uint32,bytes)")[..4]
 				|| sub_call_selector == &keccak256!("unregisterDelegate(address)")[..4]
-- 
2.43.0


From 32c061dcda02226eef4647cebfee2c57df543dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:32 +0000
Subject: [PATCH 09/38] fix: futurepass create2 call data without salt reverts
 instead of panicking

---
 evm-precompiles/futurepass/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/evm-precompiles/futurepass/src/lib.rs b/evm-precompiles/futurepass/src/lib.rs
index 038fa91..a958b29 100644
--- a/evm-precompiles/futurepass/src/lib.rs
+++ b/evm-precompiles/futurepass/src/lib.rs
@@ -496,6 +496,7 @@ where
 				handle.record_log_costs_manual(4, 32)?;
 
 				let creation_code_len = call_data.inner.len();
+				ensure!(creation_code_len >= 32, revert("Futurepass: missing salt"));
 				let call_data_vec = call_data.into_vec();
 
 				// salt is the last 32 bytes of the creation code
-- 
2.43.0


From d028d9987bb64b33668a49e6b3edc5da31d58dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:05 +0000
Subject: [PATCH 10/38] fix: nft peg rejects bridge messages shorter than a
 prefix instead of panicking

---
 pallet/nft-peg/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pallet/nft-peg/src/lib.rs b/pallet/nft-peg/src/lib.rs
index 211878c..45a9dfb 100644
--- a/pallet/nft-peg/src/lib.rs
+++ b/pallet/nft-peg/src/lib.rs
@@ -497,7 +497,7 @@ where
 		let weight = Weight::zero();
 
 		// Decode prefix from first 32 bytes of data
-		let prefix_decoded = match ethabi::decode(&[ParamType::Uint(32)], &data[..32]) {
+		let prefix_decoded = match ethabi::decode(&[ParamType::Uint(32)], data.get(..32).unwrap_or(data)) {
 			Ok(abi) => abi,
 			Err(_) => return Err((weight, Error::<T>::InvalidAbiPrefix.into())),
 		};
-- 
2.43.0


From 1b86c794b75ef8984e78b591ce992303bc2f4b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:05 +0000
Subject: [PATCH 11/38] fix: dex balance input shorter than the hex prefix is
 an error instead of a panic

---
 pallet/dex/src/types.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pallet/dex/src/types.rs b/pallet/dex/src/types.rs
index 9aedbd0..3b6a768 100644
--- a/pallet/dex/src/types.rs
+++ b/pallet/dex/src/types.rs
@@ -111,7 +111,7 @@ impl<'de> serde::de::Visitor<'de> for WrappedBalanceVisitor {
 		E: serde::de::Error,
 	{
 		//remove the first two chars as we are expecting a string prefixed with '0x'
-		let decoded_string = hex::decode(&s[2..])
+		let decoded_string = hex::decode(s.get(2..).unwrap_or_default())
 			.map_err(|_| serde::de::Error::custom("expected hex encoded string"))?;
 		let fixed_16_bytes: [u8; 16] = decoded_string
 			.try_into()
-- 
2.43.0


From c4747ccf218cfc934377f57ca557673034668fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:32 +0000
Subject: [PATCH 12/38] fix: blocked EVM targets can not be called through the
 fee proxy either

---
 pallet/fee-proxy/src/runner.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pallet/fee-proxy/src/runner.rs b/pallet/fee-proxy/src/runner.rs
index c7e7e1e..0e0224e 100644
--- a/pallet/fee-proxy/src/runner.rs
+++ b/pallet/fee-proxy/src/runner.rs
@@ -319,6 +319,11 @@ where
 			input = new_input;
 			target = new_target;
 
+			// The actual target must not be blocked either
+			if !<T as Config>::MaintenanceChecker::validate_evm_call(&account, &target) {
+				return Err(RunnerError { error: Self::Error::WithdrawFailed, weight });
+			}
+
 			let base_fee_per_gas = <T as Config>::EVMBaseFeeProvider::evm_base_fee_per_gas();
 			let FeePreferencesData { path, total_fee_scaled, max_fee_scaled } =
 				get_fee_preferences_data::<T, U, P>(
-- 
2.43.0


From de0b4064a2be60bcf218b4d311b3a8ad72a9777b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:46 +0000
Subject: [PATCH 13/38] fix: scaling a fee above the balance range saturates
 instead of panicking

---
 pallet/common/src/utils.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pallet/common/src/utils.rs b/pallet/common/src/utils.rs
index 19ad260..0396303 100644
--- a/pallet/common/src/utils.rs
+++ b/pallet/common/src/utils.rs
@@ -49,14 +49,16 @@ pub fn next_asset_uuid(next_id: u32, parachain_id: u32) -> Option<u32> {
 pub fn scale_wei_to_correct_decimals(value: U256, decimals: u8) -> Balance {
 	let unit_value = U256::from(10).pow(U256::from(18) - U256::from(decimals));
 	let (quotient, remainder) = (value / unit_value, value % unit_value);
-	if remainder == U256::from(0) {
-		quotient.as_u128()
+	let scaled = if remainder == U256::from(0) {
+		quotient
 	} else {
 		// if value has a fractional part < CPAY unit value
 		// it is lost in this divide operation
-		(quotient + 1).as_u128()
+		quotient.saturating_add(U256::from(1))
 		// (quotient).as_u128() // <- validate this is correct
-	}
+	};
+	// The value may come from user input (e.g. max_fee_per_gas), it must not panic
+	Balance::try_from(scaled).unwrap_or(Balance::MAX)
 }
 
 /// convert X dp to 18dp (wei)
-- 
2.43.0


From 8701c85daae92c41a694dcc1908e5bcde37fbd56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:48 +0000
Subject: [PATCH 14/38] fix: re-registered vortex rewards are not counted twice
 in the minted total

---
 pallet/vortex-distribution/src/lib.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pallet/vortex-distribution/src/lib.rs b/pallet/vortex-distribution/src/lib.rs
index 4a356b5..eb735e9 100644
--- a/pallet/vortex-distribution/src/lib.rs
+++ b/pallet/vortex-distribution/src/lib.rs
@@ -543,16 +543,16 @@ pub mod pallet {
 
 			match s {
 				VtxDistStatus::Enabled => {
-					let mut total_rewards: BalanceOf<T> = Zero::zero();
+					let mut total_rewards: BalanceOf<T> = TotalVortex::<T>::get(id);
 					for (who, amount) in rewards.iter() {
-						total_rewards += *amount;
 						VtxDistOrderbook::<T>::mutate(id, who.clone(), |entry| {
+							// a reward registered before is replaced, not paid on top
+							total_rewards =
+								total_rewards.saturating_sub(entry.0).saturating_add(*amount);
 							*entry = (*amount, false);
 						});
 					}
-					TotalVortex::<T>::mutate(id, |total_vortex| {
-						*total_vortex = total_vortex.saturating_add(total_rewards);
-					});
+					TotalVortex::<T>::insert(id, total_rewards);
 					Self::deposit_event(Event::RewardRegistered { id, rewards });
 					Ok(())
 				},
-- 
2.43.0


From 338c240a57fc1e12c500122409a922234951fde0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:48 +0000
Subject: [PATCH 15/38] fix: vortex admin change reports the previous admin

---
 pallet/vortex-distribution/src/lib.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pallet/vortex-distribution/src/lib.rs b/pallet/vortex-distribution/src/lib.rs
index eb735e9..3d33801 100644
--- a/pallet/vortex-distribution/src/lib.rs
+++ b/pallet/vortex-distribution/src/lib.rs
@@ -352,11 +352,9 @@ pub mod pallet {
 			ensure_root(origin)?;
 
 			let new = T::Lookup::lookup(new)?;
+			let old_key = AdminAccount::<T>::get();
 			AdminAccount::<T>::put(&new);
-			Self::deposit_event(Event::AdminAccountChanged {
-				old_key: AdminAccount::<T>::get(),
-				new_key: new,
-			});
+			Self::deposit_event(Event::AdminAccountChanged { old_key, new_key: new });
 			Ok(())
 		}
 
-- 
2.43.0


From 987f5507c154ea405be846b586e684459595bf07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:22 +0000
Subject: [PATCH 16/38] fix: xrpl transaction with an empty signing key is
 rejected instead of panicking

---
 pallet/xrpl/src/types.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pallet/xrpl/src/types.rs b/pallet/xrpl/src/types.rs
index c14094c..4a8fe85 100644
--- a/pallet/xrpl/src/types.rs
+++ b/pallet/xrpl/src/types.rs
@@ -121,7 +121,11 @@ impl XRPLTransaction {
 			hex::decode(&self.signing_pub_key).map_err(|_| "Error decoding hex string")?;
 		// check prefix (ignore-case "ED") to determine the public key type
 		// uppercase first 2 characters and compare with "ED"
-		let key_prefix = &self.signing_pub_key[0..2].to_uppercase();
+		let key_prefix = &self
+			.signing_pub_key
+			.get(0..2)
+			.ok_or("Unsupported public key type")?
+			.to_uppercase();
 		match key_prefix.as_str() {
 			"ED" => {
 				// remove the first byte (prefix) from the public key
-- 
2.43.0


From a08707179c6d66f10bb03c0b86bab04a0e53af45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:58 +0000
Subject: [PATCH 17/38] fix: a revoked doughnut can not be reused by appending
 bytes to it

---
 pallet/doughnut/src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pallet/doughnut/src/lib.rs b/pallet/doughnut/src/lib.rs
index 76678ae..c3a06c4 100644
--- a/pallet/doughnut/src/lib.rs
+++ b/pallet/doughnut/src/lib.rs
@@ -593,11 +593,15 @@ where
 		doughnut_payload: Vec<u8>,
 	) -> Result<Doughnut, DispatchError> {
 		// decode the doughnut
-		let doughnut_decoded = Doughnut::decode(&mut &doughnut_payload[..]).map_err(|e| {
+		let mut payload = &doughnut_payload[..];
+		let doughnut_decoded = Doughnut::decode(&mut payload).map_err(|e| {
 			log!(info, "🍩 failed to decode doughnut: {:?}", e);
 			Error::<T>::DoughnutDecodeFailed
 		})?;
 
+		// revocation is keyed by the hash of the payload: trailing bytes must not change it
+		ensure!(payload.is_empty(), Error::<T>::DoughnutDecodeFailed);
+
 		// only supports v1 for now
 		let Doughnut::V1(_) = doughnut_decoded.clone() else {
 			log!(info, "🍩 unsupported doughnut version");
-- 
2.43.0


From 2e7501717eb7455009142f315c99765f54f04b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:58 +0000
Subject: [PATCH 18/38] fix: doughnut permissions check the whole amount of a
 transfer

---
 runtime/src/impls.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/runtime/src/impls.rs b/runtime/src/impls.rs
index 145c8ea..46f1a47 100644
--- a/runtime/src/impls.rs
+++ b/runtime/src/impls.rs
@@ -967,7 +967,9 @@ impl seed_pallet_common::ExtrinsicChecker for DoughnutCallValidator {
 				let who = <Runtime as frame_system::Config>::Lookup::lookup(*dest)
 					.map_err(|_| pallet_doughnut::Error::<Runtime>::ToppingPermissionDenied)?;
 				let destination: [u8; 20] = who.into();
-				let value_u128: u128 = *value;
+				// an amount the permission can not express must not be checked as a smaller one
+				let value_u64 = u64::try_from(*value)
+					.map_err(|_| pallet_doughnut::Error::<Runtime>::ToppingPermissionDenied)?;
 
 				topping
 					.validate_module(
@@ -976,7 +978,7 @@ impl seed_pallet_common::ExtrinsicChecker for DoughnutCallValidator {
 						// TODO: change the u64 conversion once pact Numeric support u128
 						&[
 							PactType::StringLike(StringLike(destination.to_vec())),
-							PactType::Numeric(Numeric(value_u128 as u64)),
+							PactType::Numeric(Numeric(value_u64)),
 						],
 					)
 					.map_err(|_| pallet_doughnut::Error::<Runtime>::ToppingPermissionDenied)?;
@@ -986,7 +988,9 @@ impl seed_pallet_common::ExtrinsicChecker for DoughnutCallValidator {
 				let who = <Runtime as frame_system::Config>::Lookup::lookup(*dest)
 					.map_err(|_| pallet_doughnut::Error::<Runtime>::ToppingPermissionDenied)?;
 				let destination: [u8; 20] = who.into();
-				let value_u128: u128 = *value;
+				// an amount the permission can not express must not be checked as a smaller one
+				let value_u64 = u64::try_from(*value)
+					.map_err(|_| pallet_doughnut::Error::<Runtime>::ToppingPermissionDenied)?;
 
 				topping
 					.validate_module(
@@ -995,7 +999,7 @@ impl seed_pallet_common::ExtrinsicChecker for DoughnutCallValidator {
 						// TODO: change the u64 conversion once pact Numeric support u128
 						&[
 							PactType::StringLike(StringLike(destination.to_vec())),
-							PactType::Numeric(Numeric(value_u128 as u64)),
+							PactType::Numeric(Numeric(value_u64)),
 						],
 					)
 					.map_err(|_| pallet_doughnut::Error::<Runtime>::ToppingPermissionDenied)?;
@@ -1036,6 +1040,8 @@ impl seed_pallet_common::ExtrinsicChecker for DoughnutCallValidator {
 					.map_err(|_| pallet_doughnut::Error::<Runtime>::ToppingPermissionDenied)?;
 				let destination: [u8; 20] = who.into();
 				let keep_alive_u64: u64 = (*keep_alive).into();
+				let amount_u64 = u64::try_from(*amount)
+					.map_err(|_| pallet_doughnut::Error::<Runtime>::ToppingPermissionDenied)?;
 
 				topping
 					.validate_module(
@@ -1045,7 +1051,7 @@ impl seed_pallet_common::ExtrinsicChecker for DoughnutCallValidator {
 						&[
 							PactType::Numeric(Numeric(asset_id_u64)),
 							PactType::StringLike(StringLike(destination.to_vec())),
-							PactType::Numeric(Numeric(*amount as u64)),
+							PactType::Numeric(Numeric(amount_u64)),
 							PactType::Numeric(Numeric(keep_alive_u64)),
 						],
 					)
-- 
2.43.0


From 2e93fc4996d4e5ad75143daefd45bb75474a1358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:25 +0000
Subject: [PATCH 19/38] fix: refuse fee proxy transactions whose gas limit
 exceeds 64 bits instead of panicking

---
 runtime/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/runtime/src/lib.rs b/runtime/src/lib.rs
index e7631ba..6835883 100644
--- a/runtime/src/lib.rs
+++ b/runtime/src/lib.rs
@@ -2144,7 +2144,8 @@ fn transaction_asset_check(
 
 		let FeePreferencesData { max_fee_scaled, path, .. } =
 			get_fee_preferences_data::<Runtime, Runtime, Futurepass>(
-				gas_limit.as_u64(),
+				u64::try_from(gas_limit)
+					.map_err(|_| TransactionValidityError::Invalid(InvalidTransaction::Call))?,
 				<Runtime as pallet_fee_proxy::Config>::EVMBaseFeeProvider::evm_base_fee_per_gas(),
 				Some(max_fee_per_gas),
 				Some(max_priority_fee_per_gas),
-- 
2.43.0


From 75c6985d403aabe3a0d18ba6aba60c23249bff10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:34 +0000
Subject: [PATCH 20/38] fix: dex quote API fails instead of truncating an
 amount above 128 bits

---
 runtime/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/runtime/src/lib.rs b/runtime/src/lib.rs
index 6835883..f02818f 100644
--- a/runtime/src/lib.rs
+++ b/runtime/src/lib.rs
@@ -1665,7 +1665,9 @@ impl_runtime_apis! {
 			reserve_a: u128,
 			reserve_b: u128,
 		) -> Result<u128, sp_runtime::DispatchError> {
-			Dex::quote(amount_a.into(), reserve_a, reserve_b).map(|r| r.low_u128())
+			Dex::quote(amount_a.into(), reserve_a, reserve_b).and_then(|r| {
+				u128::try_from(r).map_err(|_| sp_runtime::ArithmeticError::Overflow.into())
+			})
 		}
 
 		fn get_amounts_out(
-- 
2.43.0


From 752a7f8edb76e309abbb61b076801d711d4a684c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:14 +0000
Subject: [PATCH 21/38] fix: forbid DELEGATECALL into futurepasses, which let a
 called contract act as its caller

---
 runtime/src/precompiles.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/runtime/src/precompiles.rs b/runtime/src/precompiles.rs
index 1b20b97..0327f30 100644
--- a/runtime/src/precompiles.rs
+++ b/runtime/src/precompiles.rs
@@ -93,7 +93,8 @@ pub type FutureversePrecompiles<R> = PrecompileSetBuilder<
 			FuturepassPrefix,
 			FuturePassPrecompileSet<R>,
 			LimitRecursionTo<1>,
-			AllowDelegateCall,
+			// a futurepass acts for its caller, which DELEGATECALL lets a contract choose
+			ForbidDelegateCall,
 		>,
 	),
 >;
-- 
2.43.0


From e94f9cafbe8ec16269938c02a15e6752dc1f3a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:21 +0000
Subject: [PATCH 22/38] fix: refuse burning ERC721 tokens in a static call

---
 evm-precompiles/erc721/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/evm-precompiles/erc721/src/lib.rs b/evm-precompiles/erc721/src/lib.rs
index a3c7e9f..4e18aed 100644
--- a/evm-precompiles/erc721/src/lib.rs
+++ b/evm-precompiles/erc721/src/lib.rs
@@ -183,6 +183,7 @@ where
 						| Action::ReRequestXls20Mint
 						| Action::TogglePublicMint
 						| Action::SetMintFee
+						| Action::Burn
 						| Action::Mint => FunctionModifier::NonPayable,
 						_ => FunctionModifier::View,
 					}) {
-- 
2.43.0


From c0fe1d8491c242ed31da971e7048e6de0f36c262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:21 +0000
Subject: [PATCH 23/38] fix: refuse state changing ERC1155 functions in a
 static call

---
 evm-precompiles/erc1155/src/lib.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/evm-precompiles/erc1155/src/lib.rs b/evm-precompiles/erc1155/src/lib.rs
index f4ccc06..a8c98aa 100644
--- a/evm-precompiles/erc1155/src/lib.rs
+++ b/evm-precompiles/erc1155/src/lib.rs
@@ -165,6 +165,11 @@ where
 						| Action::Mint
 						| Action::TogglePublicMint
 						| Action::SetMintFee
+						| Action::CreateToken
+						| Action::SetMaxSupply
+						| Action::SetBaseURI
+						| Action::RenounceOwnership
+						| Action::TransferOwnership
 						| Action::MintBatch => FunctionModifier::NonPayable,
 						_ => FunctionModifier::View,
 					}) {
-- 
2.43.0


From dd2b158186b0b6f6341487fc3172a656369c7396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:44 +0000
Subject: [PATCH 24/38] fix: refuse state changing futurepass functions in a
 static call

---
 evm-precompiles/futurepass/src/lib.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/evm-precompiles/futurepass/src/lib.rs b/evm-precompiles/futurepass/src/lib.rs
index a958b29..a07a18d 100644
--- a/evm-precompiles/futurepass/src/lib.rs
+++ b/evm-precompiles/futurepass/src/lib.rs
@@ -160,6 +160,13 @@ where
 				},
 			};
 
+			// every other function changes state and cannot be run by a static call
+			if !matches!(selector, Action::DelegateType | Action::Owner) {
+				if let Err(err) = handle.check_function_modifier(FunctionModifier::Payable) {
+					return Some(Err(err.into()));
+				}
+			}
+
 			match selector {
 				Action::Default => Self::receive(handle),
 				Action::DelegateType => Self::delegate_type(handle),
-- 
2.43.0


From 92caf6858c4e5637e1a0e24892ba5e50d61b4cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:44 +0000
Subject: [PATCH 25/38] fix: refuse short replies of token receivers instead of
 panicking

---
 evm-precompiles/erc1155/src/lib.rs | 4 ++--
 evm-precompiles/erc721/src/lib.rs  | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/evm-precompiles/erc1155/src/lib.rs b/evm-precompiles/erc1155/src/lib.rs
index a8c98aa..e8fd821 100644
--- a/evm-precompiles/erc1155/src/lib.rs
+++ b/evm-precompiles/erc1155/src/lib.rs
@@ -449,7 +449,7 @@ where
 			// Check response from call
 			match reason {
 				ExitReason::Succeed(_) => {
-					if output[..4] != ON_ERC1155_RECEIVED_FUNCTION_SELECTOR.to_vec() {
+					if output.get(..4) != Some(&ON_ERC1155_RECEIVED_FUNCTION_SELECTOR[..]) {
 						return Err(revert("ERC1155: ERC1155Receiver rejected tokens"));
 					}
 				},
@@ -553,7 +553,7 @@ where
 			// Check response from call
 			match reason {
 				ExitReason::Succeed(_) => {
-					if output[..4] != ON_ERC1155_BATCH_RECEIVED_FUNCTION_SELECTOR.to_vec() {
+					if output.get(..4) != Some(&ON_ERC1155_BATCH_RECEIVED_FUNCTION_SELECTOR[..]) {
 						return Err(revert("ERC1155: ERC1155Receiver rejected tokens"));
 					}
 				},
diff --git a/evm-precompiles/erc721/src/lib.rs b/evm-precompiles/erc721/src/lib.rs
index 4e18aed..c127031 100644
--- a/evm-precompiles/erc721/src/lib.rs
+++ b/evm-precompiles/erc721/src/lib.rs
@@ -489,7 +489,7 @@ where
 			// Check response from call
 			match reason {
 				ExitReason::Succeed(_) => {
-					if output[..4] != ON_ERC721_RECEIVED_FUNCTION_SELECTOR.to_vec() {
+					if output.get(..4) != Some(&ON_ERC721_RECEIVED_FUNCTION_SELECTOR[..]) {
 						return Err(revert("ERC721: transfer to non ERC721Receiver implementer"));
 					}
 				},
-- 
2.43.0


From 5ece7b9e5d133f599cbe576a5d7141576bbf917d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:44 +0000
Subject: [PATCH 26/38] fix: refuse too many XLS-20 mint requests instead of
 panicking

---
 evm-precompiles/erc721/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/evm-precompiles/erc721/src/lib.rs b/evm-precompiles/erc721/src/lib.rs
index c127031..594f080 100644
--- a/evm-precompiles/erc721/src/lib.rs
+++ b/evm-precompiles/erc721/src/lib.rs
@@ -1138,7 +1138,8 @@ where
 		let serial_numbers: BoundedVec<
 			SerialNumber,
 			<Runtime as pallet_xls20::Config>::MaxTokensPerXls20Mint,
-		> = BoundedVec::try_from(serial_numbers_unbounded).expect("Should not fail");
+		> = BoundedVec::try_from(serial_numbers_unbounded)
+			.map_err(|_| revert("XLS20: Too many serial numbers in one request"))?;
 
 		// Dispatch call (if enough gas).
 		RuntimeHelper::<Runtime>::try_dispatch(
-- 
2.43.0


From 032a083dc4ac55155e4a0a277c40de6a78e9da09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:44 +0000
Subject: [PATCH 27/38] fix: ask batch receivers through onERC1155BatchReceived

---
 evm-precompiles/erc1155/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/evm-precompiles/erc1155/src/lib.rs b/evm-precompiles/erc1155/src/lib.rs
index e8fd821..dd17b91 100644
--- a/evm-precompiles/erc1155/src/lib.rs
+++ b/evm-precompiles/erc1155/src/lib.rs
@@ -541,7 +541,7 @@ where
 			// Setup input for onErc1155BatchReceived call
 			let sub_context =
 				Context { address: to, caller: operator, apparent_value: Default::default() };
-			let input = EvmDataWriter::new_with_selector(Action::OnErc1155Received)
+			let input = EvmDataWriter::new_with_selector(Action::OnErc1155BatchReceived)
 				.write::<Address>(operator.into())
 				.write::<Address>(from)
 				.write::<Vec<U256>>(ids)
-- 
2.43.0


From 263c9e7f9e9fc1e09c2836359b5d58ea9d8244d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:09 +0000
Subject: [PATCH 28/38] fix: charge gas for tokens created through the ERC1155
 precompile

---
 evm-precompiles/erc1155/src/lib.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/evm-precompiles/erc1155/src/lib.rs b/evm-precompiles/erc1155/src/lib.rs
index dd17b91..01ba5b5 100644
--- a/evm-precompiles/erc1155/src/lib.rs
+++ b/evm-precompiles/erc1155/src/lib.rs
@@ -25,7 +25,8 @@ use frame_support::{
 	ensure,
 	traits::OriginTrait,
 };
-use pallet_evm::{Context, ExitReason, PrecompileFailure, PrecompileSet};
+use pallet_evm::{Context, ExitReason, GasWeightMapping, PrecompileFailure, PrecompileSet};
+use pallet_sft::WeightInfo;
 use precompile_utils::{
 	constants::{ERC1155_PRECOMPILE_ADDRESS_PREFIX, ERC20_PRECOMPILE_ADDRESS_PREFIX},
 	prelude::*,
@@ -884,6 +885,10 @@ where
 		let token_owner: Option<Runtime::AccountId> =
 			if token_owner == H160::default() { None } else { Some(token_owner.into()) };
 
+		// Manually record gas
+		handle.record_cost(<Runtime as pallet_evm::Config>::GasWeightMapping::weight_to_gas(
+			<Runtime as pallet_sft::Config>::WeightInfo::create_token(),
+		))?;
 		let serial_number = pallet_sft::Pallet::<Runtime>::do_create_token(
 			handle.context().caller.into(),
 			collection_id,
-- 
2.43.0


From 547a737b0f469df79f2528d538ff3d11dcc239e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:04 +0000
Subject: [PATCH 29/38] fix: name the operator to ERC721 receivers

---
 evm-precompiles/erc721/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/evm-precompiles/erc721/src/lib.rs b/evm-precompiles/erc721/src/lib.rs
index 594f080..1d98d3c 100644
--- a/evm-precompiles/erc721/src/lib.rs
+++ b/evm-precompiles/erc721/src/lib.rs
@@ -479,8 +479,8 @@ where
 				apparent_value: Default::default(),
 			};
 			let input = EvmDataWriter::new_with_selector(Action::OnErc721Received)
+				.write::<Address>(handle.context().caller.into())
 				.write::<Address>(from.into())
-				.write::<Address>(to.into())
 				.write::<U256>(serial_number.into())
 				.write::<Bytes>(data)
 				.build();
-- 
2.43.0


From 1fa1600a9af7a82bb3bdec50b7e9c42e9da20a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:04 +0000
Subject: [PATCH 30/38] fix: call token receivers in the name of the token
 contract

---
 evm-precompiles/erc1155/src/lib.rs | 14 ++++++++++----
 evm-precompiles/erc721/src/lib.rs  |  2 +-
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/evm-precompiles/erc1155/src/lib.rs b/evm-precompiles/erc1155/src/lib.rs
index 01ba5b5..614f000 100644
--- a/evm-precompiles/erc1155/src/lib.rs
+++ b/evm-precompiles/erc1155/src/lib.rs
@@ -436,8 +436,11 @@ where
 		if !(caller_code.is_empty()) {
 			let operator = handle.context().caller;
 			// Setup input for onErc1155Received call
-			let sub_context =
-				Context { address: to, caller: operator, apparent_value: Default::default() };
+			let sub_context = Context {
+				address: to,
+				caller: handle.code_address(),
+				apparent_value: Default::default(),
+			};
 			let input = EvmDataWriter::new_with_selector(Action::OnErc1155Received)
 				.write::<Address>(operator.into())
 				.write::<Address>(from)
@@ -540,8 +543,11 @@ where
 		if !(caller_code.is_empty()) {
 			let operator = handle.context().caller;
 			// Setup input for onErc1155BatchReceived call
-			let sub_context =
-				Context { address: to, caller: operator, apparent_value: Default::default() };
+			let sub_context = Context {
+				address: to,
+				caller: handle.code_address(),
+				apparent_value: Default::default(),
+			};
 			let input = EvmDataWriter::new_with_selector(Action::OnErc1155BatchReceived)
 				.write::<Address>(operator.into())
 				.write::<Address>(from)
diff --git a/evm-precompiles/erc721/src/lib.rs b/evm-precompiles/erc721/src/lib.rs
index 1d98d3c..85b9638 100644
--- a/evm-precompiles/erc721/src/lib.rs
+++ b/evm-precompiles/erc721/src/lib.rs
@@ -475,7 +475,7 @@ where
 			// Setup input for onErc721Received call
 			let sub_context = Context {
 				address: to,
-				caller: handle.context().caller,
+				caller: handle.code_address(),
 				apparent_value: Default::default(),
 			};
 			let input = EvmDataWriter::new_with_selector(Action::OnErc721Received)
-- 
2.43.0


From 8e74ab3580965a16c7ff0fd032b4682206c454f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:40 +0000
Subject: [PATCH 31/38] fix: malformed hex from the Ethereum RPC is an error
 instead of a panic

---
 pallet/ethy/src/types.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pallet/ethy/src/types.rs b/pallet/ethy/src/types.rs
index cb379d3..526a725 100644
--- a/pallet/ethy/src/types.rs
+++ b/pallet/ethy/src/types.rs
@@ -614,7 +614,7 @@ impl<'a> Visitor<'a> for BytesVisitor {
 		E: Error,
 	{
 		if value.len() >= 2 && value.starts_with("0x") && value.len() & 1 == 0 {
-			Ok(decode_hex(&value[2..]).expect("it is hex"))
+			decode_hex(&value[2..]).map_err(|_| Error::custom("Invalid hexadecimal digits"))
 		} else {
 			Err(Error::custom(
 				"Invalid bytes format. Expected a 0x-prefixed hex string with even length",
@@ -656,7 +656,11 @@ impl<'a> Deserialize<'a> for Bytes {
 
 // decode a non-0x prefixed hex string into a `Vec<u8>`
 fn decode_hex(s: &str) -> Result<Vec<u8>, core::num::ParseIntError> {
-	(0..s.len()).step_by(2).map(|i| u8::from_str_radix(&s[i..i + 2], 16)).collect()
+	(0..s.len())
+		.step_by(2)
+		// not every pair of bytes of a string is a valid slice of it
+		.map(|i| u8::from_str_radix(s.get(i..i + 2).unwrap_or_default(), 16))
+		.collect()
 }
 
 #[cfg(test)]
-- 
2.43.0


From 5d73f1fd57e7df16adfaa26e56f08c8022307c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:03 +0000
Subject: [PATCH 32/38] fix: charge the gas of contracts created through a
 futurepass

---
 evm-precompiles/futurepass/src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/evm-precompiles/futurepass/src/lib.rs b/evm-precompiles/futurepass/src/lib.rs
index a07a18d..33399ee 100644
--- a/evm-precompiles/futurepass/src/lib.rs
+++ b/evm-precompiles/futurepass/src/lib.rs
@@ -485,6 +485,9 @@ where
 					evm_config,
 				)
 				.map_err(|_| RevertReason::custom("Futurepass: create failed"))?;
+				// the gas of the creation is not taken from this call by the runner
+				let used_gas = execution_info.used_gas.effective;
+				handle.record_cost(u64::try_from(used_gas).unwrap_or(u64::MAX))?;
 
 				// emit ContractCreated(CREATE, contractAddress, value, bytes32(0));
 				log4(
@@ -560,6 +563,9 @@ where
 					evm_config,
 				)
 				.map_err(|_| RevertReason::custom("Futurepass: create2 failed"))?;
+				// the gas of the creation is not taken from this call by the runner
+				let used_gas = execution_info.used_gas.effective;
+				handle.record_cost(u64::try_from(used_gas).unwrap_or(u64::MAX))?;
 
 				// emit ContractCreated(CREATE2, contractAddress, value, salt);
 				log4(
-- 
2.43.0


From 0119bc53a6ef3ed903c924b8afedd1e0fd3a06bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:41 +0000
Subject: [PATCH 33/38] fix: give the XLS20CompatibilityEnabled event its
 signature topic

---
 evm-precompiles/erc721/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/evm-precompiles/erc721/src/lib.rs b/evm-precompiles/erc721/src/lib.rs
index 85b9638..e787579 100644
--- a/evm-precompiles/erc721/src/lib.rs
+++ b/evm-precompiles/erc721/src/lib.rs
@@ -1110,7 +1110,7 @@ where
 			pallet_xls20::Call::<Runtime>::enable_xls20_compatibility { collection_id },
 		)?;
 
-		log0(handle.code_address(), SELECTOR_LOG_XLS20_ENABLED).record(handle)?;
+		log1(handle.code_address(), SELECTOR_LOG_XLS20_ENABLED, vec![]).record(handle)?;
 
 		// Build output.
 		Ok(succeed(EvmDataWriter::new().write(true).build()))
-- 
2.43.0


From dc4bf0a9e346958e528689fc9a5363866f4add67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:41 +0000
Subject: [PATCH 34/38] fix: charge gas for every log of the precompiles

---
 evm-precompiles/dex/src/lib.rs     | 2 ++
 evm-precompiles/erc1155/src/lib.rs | 2 ++
 evm-precompiles/erc721/src/lib.rs  | 1 +
 3 files changed, 5 insertions(+)

diff --git a/evm-precompiles/dex/src/lib.rs b/evm-precompiles/dex/src/lib.rs
index 4a7a515..4725d12 100644
--- a/evm-precompiles/dex/src/lib.rs
+++ b/evm-precompiles/dex/src/lib.rs
@@ -230,6 +230,8 @@ where
 	}
 
 	fn add_liquidity_eth(handle: &mut impl PrecompileHandle) -> EvmResult<PrecompileOutput> {
+		handle.record_log_costs_manual(3, 32)?;
+
 		// Parse input.
 		read_args!(
 			handle,
diff --git a/evm-precompiles/erc1155/src/lib.rs b/evm-precompiles/erc1155/src/lib.rs
index 614f000..adbf106 100644
--- a/evm-precompiles/erc1155/src/lib.rs
+++ b/evm-precompiles/erc1155/src/lib.rs
@@ -622,6 +622,8 @@ where
 		collection_id: CollectionUuid,
 		handle: &mut impl PrecompileHandle,
 	) -> EvmResult<PrecompileOutput> {
+		handle.record_log_costs_manual(4, 32)?;
+
 		// Parse input.
 		read_args!(handle, { account: Address, id: U256, value: U256 });
 
diff --git a/evm-precompiles/erc721/src/lib.rs b/evm-precompiles/erc721/src/lib.rs
index e787579..2ad01a9 100644
--- a/evm-precompiles/erc721/src/lib.rs
+++ b/evm-precompiles/erc721/src/lib.rs
@@ -1100,6 +1100,7 @@ where
 		handle: &mut impl PrecompileHandle,
 	) -> EvmResult<PrecompileOutput> {
 		handle.record_cost(RuntimeHelper::<Runtime>::db_read_gas_cost())?;
+		handle.record_log_costs_manual(1, 0)?;
 
 		let origin = handle.context().caller;
 
-- 
2.43.0


From b97fa9f307702abe44de73088509e821c4cb0dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:17 +0000
Subject: [PATCH 35/38] fix: refuse offers through a marketplace whose id does
 not fit 32 bits

makeSimpleOfferWithMarketplaceId clamped a too large marketplace id to
4294967295, so the offer named a marketplace the caller did not; every
other function of the precompile refuses such an id.
---
 evm-precompiles/marketplace/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/evm-precompiles/marketplace/src/lib.rs b/evm-precompiles/marketplace/src/lib.rs
index 80fd5a8..739c36b 100644
--- a/evm-precompiles/marketplace/src/lib.rs
+++ b/evm-precompiles/marketplace/src/lib.rs
@@ -952,6 +952,10 @@ where
 				marketplace_id: U256
 			}
 		);
+		ensure!(
+			marketplace_id <= u32::MAX.into(),
+			revert("Marketplace: Expected marketplace id <= 2^32")
+		);
 		let marketplace_id: u32 = marketplace_id.saturated_into();
 		ensure!(amount <= u128::MAX.into(), revert("Marketplace: Expected amount <= 2^128"));
 		let amount: Balance = amount.saturated_into();
-- 
2.43.0


From 5e973b1884516f606c1d133f984f7511f6fadbd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:31 +0000
Subject: [PATCH 36/38] fix: refuse ownership functions called on a futurepass
 of someone else

transferOwnership and renounceOwnership act on the caller's own futurepass.
Called at the address of another futurepass they moved the caller's
futurepass and logged OwnershipTransferred in the name of the other one.
---
 evm-precompiles/futurepass/src/lib.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/evm-precompiles/futurepass/src/lib.rs b/evm-precompiles/futurepass/src/lib.rs
index 33399ee..167e027 100644
--- a/evm-precompiles/futurepass/src/lib.rs
+++ b/evm-precompiles/futurepass/src/lib.rs
@@ -613,6 +613,14 @@ where
 		let caller = handle.context().caller;
 		let burn_account: H160 = H160::default();
 
+		// The function acts on the caller's futurepass, which must be the one that was called
+		handle.record_cost(RuntimeHelper::<Runtime>::db_read_gas_cost())?;
+		ensure!(
+			pallet_futurepass::Holders::<Runtime>::get(Runtime::AccountId::from(caller))
+				== Some(handle.code_address().into()),
+			revert("Futurepass: NotFuturepassOwner")
+		);
+
 		// Dispatch call (if enough gas).
 		RuntimeHelper::<Runtime>::try_dispatch(
 			handle,
@@ -645,6 +653,14 @@ where
 		let new_owner: H160 = new_owner.into();
 		let caller = handle.context().caller;
 
+		// The function acts on the caller's futurepass, which must be the one that was called
+		handle.record_cost(RuntimeHelper::<Runtime>::db_read_gas_cost())?;
+		ensure!(
+			pallet_futurepass::Holders::<Runtime>::get(Runtime::AccountId::from(caller))
+				== Some(handle.code_address().into()),
+			revert("Futurepass: NotFuturepassOwner")
+		);
+
 		// Dispatch call (if enough gas).
 		RuntimeHelper::<Runtime>::try_dispatch(
 			handle,
-- 
2.43.0


From 42d4030154751e86120be647e3821304723e105b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:27 +0000
Subject: [PATCH 37/38] fix: ethy-gadget never makes a proof without a
 signature

A validator set that is not known yet (or an XRPL signer set of at most one key)
has a proof threshold of 0, so an event reached consensus with no signature at all.
---
 ethy-gadget/src/witness_record.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ethy-gadget/src/witness_record.rs b/ethy-gadget/src/witness_record.rs
index 6fb6221..6682eba 100644
--- a/ethy-gadget/src/witness_record.rs
+++ b/ethy-gadget/src/witness_record.rs
@@ -108,7 +108,9 @@ impl WitnessRecord {
 		let proof_threshold = match chain_id {
 			EthyChainId::Ethereum => self.validators.proof_threshold as usize,
 			EthyChainId::Xrpl => self.xrpl_validators.proof_threshold as usize,
-		};
+		}
+		// a proof always takes a signature, even if the validator set is not known (yet)
+		.max(1);
 
 		let witness_count = match chain_id {
 			EthyChainId::Ethereum => self.witnesses.get(&event_id).map(|w| w.len()),
-- 
2.43.0


From d8d9e6626c41b4e6991108d489c5ce16e5375fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:32 +0000
Subject: [PATCH 38/38] fix: mint or block every token group of a bridged NFT
 deposit after one of them fails

---
 pallet/nft-peg/src/lib.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pallet/nft-peg/src/lib.rs b/pallet/nft-peg/src/lib.rs
index 45a9dfb..f5e513a 100644
--- a/pallet/nft-peg/src/lib.rs
+++ b/pallet/nft-peg/src/lib.rs
@@ -292,6 +292,7 @@ where
 
 		let destination: T::AccountId = destination.into();
 		let name = BoundedVec::truncate_from(b"bridged-collection".to_vec());
+		let mut mint_error: Option<DispatchError> = None;
 
 		for current_token in token_info.tokens.iter() {
 			// Assign collection owner to pallet. User can claim it later
@@ -371,12 +372,14 @@ where
 						blocked_mint_id,
 						collection_id,
 						serial_numbers,
-						destination_address: destination,
+						destination_address: destination.clone(),
 					});
 
 					weight = weight.saturating_add(T::DbWeight::get().reads_writes(1, 2));
 
-					return Err((weight, err));
+					// The remaining tokens of the deposit are still to be minted (or blocked)
+					mint_error = Some(err);
+					continue;
 				},
 			}
 
@@ -389,6 +392,10 @@ where
 			weight = weight.saturating_add(T::DbWeight::get().writes(2));
 		}
 
+		if let Some(err) = mint_error {
+			return Err((weight, err));
+		}
+
 		Self::deposit_event(Event::<T>::Erc721Deposit { destination });
 		Ok(weight)
 	}
-- 
2.43.0

