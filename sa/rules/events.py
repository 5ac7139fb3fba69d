"""The events by which calls report what they did."""
import re
from .base import *
from .calls import BIG

L, A, O = "vp(Listings[P1].q, 'FixedPrice', 0)", "vp(Listings[P1].q, 'Auction', 0)", "vp(Offers[P1].q, 'Simple', 0)"
# crate -> call -> the events of a successful call; exactly one of them is given
EVENTS = {
    "pallet-crowdsale": {
        "initialize": ["CrowdsaleCreated", "sale_id=NextSaleId"],
        "enable": ["CrowdsaleEnabled", "sale_id=P1"],
        "participate": ["CrowdsaleParticipated", "sale_id=P1, who=SIGNER, asset=SaleInfo[P1].q.payment_asset_id, amount=P2"],
        "redeem_voucher": ["CrowdsaleNFTRedeemed", "sale_id=P1, who=SIGNER, collection_id=SaleInfo[P1].q.reward_collection_id, quantity=P2"],
        "proxy_vault_call": ["VaultCallProxied", "sale_id=P1, who=SIGNER, vault=SaleInfo[P1].q.vault, call=P2"],
        "try_force_distribution": ["CrowdsaleManualDistribution", "sale_id=P1, who=SIGNER"]},
    "pallet-xrpl": {"transact": ["XRPLExtrinsicExecuted", "call=P3"]},
    "pallet-assets-ext": {"set_asset_deposit": ["AssetDepositSet", "asset_deposit=P1"], "create_asset": ["CreateAsset", ""]},
    "pallet-xrpl-bridge": {
        "submit_transaction": ["TransactionAdded", "P1, P2"],
        "set_payment_delay": ["PaymentDelaySet", "asset_id=P1, payment_threshold=P2.q.f0, delay=P2.q.f1", "PaymentDelayRemoved", "asset_id=P1"],
        "withdraw_xrp": ["WithdrawRequest", "amount=P1, asset_id=cfg.XrpAssetId, destination=P2, sender=SIGNER", "WithdrawDelayed", "amount=P1, asset_id=cfg.XrpAssetId, destination=P2, sender=SIGNER"],
        "withdraw_xrp_with_destination_tag": ["WithdrawRequest", "amount=P1, asset_id=cfg.XrpAssetId, destination=P2, sender=SIGNER", "WithdrawDelayed", "amount=P1, asset_id=cfg.XrpAssetId, destination=P2, sender=SIGNER"],
        "add_relayer": ["RelayerAdded", "P1"], "remove_relayer": ["RelayerRemoved", "P1"],
        "set_door_address": ["DoorAddressSet", "door_account=P1, address=P2"],
        "set_ticket_sequence_next_allocation": ["DoorNextTicketSequenceParamSet", "door_account=P1, ticket_sequence_start_next=P2, ticket_bucket_size_next=P3"],
        "set_ticket_sequence_current_allocation": ["DoorTicketSequenceParamSet", "door_account=P1, ticket_sequence=P2, ticket_sequence_start=P3, ticket_bucket_size=P4"],
        "prune_settled_ledger_index": ["LedgerIndexManualPrune", "ledger_index=P1"],
        "set_xrpl_asset_map": ["XrplAssetMapSet", "asset_id=P1, xrpl_currency=P2.q", "XrplAssetMapRemoved", "asset_id=P1"],
        "generate_nft_accept_offer": ["XrplTxSignRequest", ""], "withdraw_nft": ["XrplTxSignRequest", ""]},
    "pallet-fee-control": {"set_evm_base_fee": ["EvmBaseFeeSet", "base_fee=P1"], "set_weight_multiplier": ["WeightMultiplierSet", "weight_multiplier=P1"],
                           "set_length_multiplier": ["LengthMultiplierSet", "length_multiplier=P1"]},
    "pallet-marketplace": {
        "register_marketplace": ["MarketplaceRegister", "entitlement=P2, marketplace_id=NextMarketplaceId"],
        "sell_nft": ["FixedPriceSaleList", "listing_id=NextListingId, marketplace_id=P7, payment_asset=P4, price=P5, seller=SIGNER"],
        "sell": ["FixedPriceSaleList", "listing_id=NextListingId, marketplace_id=P6, payment_asset=P3, price=P4, seller=SIGNER, tokens=P1"],
        "update_fixed_price": ["FixedPriceSalePriceUpdate", "listing_id=P1, new_price=P2, marketplace_id=%s.marketplace_id, tokens=%s.tokens" % (L, L)],
        "buy": ["FixedPriceSaleComplete", "buyer=SIGNER, listing_id=P1, payment_asset=%s.payment_asset, price=%s.fixed_price, seller=%s.seller, tokens=%s.tokens" % (L, L, L, L)],
        "auction_nft": ["AuctionOpen", "listing_id=NextListingId, marketplace_id=P6, payment_asset=P3, reserve_price=P4, seller=SIGNER"],
        "auction": ["AuctionOpen", "listing_id=NextListingId, marketplace_id=P5, payment_asset=P2, reserve_price=P3, seller=SIGNER, tokens=P1"],
        "bid": ["Bid", "amount=P2, bidder=SIGNER, listing_id=P1, tokens=%s.tokens" % A],
        "cancel_sale": ["FixedPriceSaleClose", "listing_id=P1, tokens=%s.tokens, reason=var('VendorCancelled')" % L, "AuctionClose", "listing_id=P1, tokens=%s.tokens, reason=var('VendorCancelled')" % A],
        "make_simple_offer": ["Offer", "amount=P2, asset_id=P3, buyer=SIGNER, marketplace_id=P4, offer_id=NextOfferId"],
        "cancel_offer": ["OfferCancel", "offer_id=P1, token_id=%s.token_id" % O],
        "accept_offer": ["OfferAccept", "offer_id=P1, amount=%s.amount, asset_id=%s.asset_id, token_id=%s.token_id" % (O, O, O)],
        "set_fee_to": ["FeeToSet", "account=P1"]},
    "pallet-erc20-peg": {
        "activate_deposits": ["ActivateDeposits", "active=P1"], "activate_withdrawals": ["ActivateWithdrawals", "active=P1"],
        "activate_deposits_delay": ["ActivateDepositDelay", "active=P1"], "activate_withdrawals_delay": ["ActivateWithdrawalDelay", "active=P1"],
        "withdraw": ["Erc20Withdraw", "amount=P2, asset_id=P1, beneficiary=P3, source=SIGNER", "Erc20WithdrawalDelayed", "asset_id=P1, beneficiary=P3, source=SIGNER, payment_id=NextDelayedPaymentId", "NoAvailableDelayedPaymentIds", ""],
        "set_erc20_peg_address": ["SetContractAddress", "address=P1"], "set_root_peg_address": ["SetRootPegContract", "address=P1"],
        "set_payment_delay": ["PaymentDelaySet", "asset_id=P1, min_balance=P2, delay=P3"]},
    "pallet-ethy": {
        "set_xrpl_door_signers": ["XrplDoorSignersSet", "new_signers=P1"], "set_relayer": ["RelayerSet", "relayer=good(P1)"],
        "deposit_relayer_bond": ["RelayerBondDeposit", "relayer=SIGNER, bond=cfg.RelayerBond"], "withdraw_relayer_bond": ["RelayerBondWithdraw", "relayer=SIGNER, bond=RelayerPaidBond[SIGNER]"],
        "set_event_block_confirmations": ["EventBlockConfirmationsSet", "confirmations=P1"], "set_delayed_event_proofs_per_block": ["DelayedEventProofsPerBlockSet", "count=P1"],
        "set_challenge_period": ["ChallengePeriodSet", "period=P1"], "set_contract_address": ["SetContractAddress", "address=P1"], "set_bridge_paused": ["BridgeManualPause", "paused=P1"],
        "remove_missing_event_id": ["MissingEventIdsRemoved", "range=P1"], "submit_event": ["EventSubmit", ""], "submit_missing_event": ["EventSubmit", ""],
        "submit_challenge": ["Challenged", "event_claim_id=P1, challenger=SIGNER"]},
    "pallet-nft": {
        "claim_unowned_collection": ["CollectionClaimed", "account=P2, collection_id=P1"], "set_owner": ["OwnerSet", "collection_id=P1, new_owner=P2"],
        "set_max_issuance": ["MaxIssuanceSet", "collection_id=P1, max_issuance=P2"], "set_base_uri": ["BaseUriSet", "collection_id=P1, base_uri=P2"],
        "create_collection": ["CollectionCreate", "name=P1, initial_issuance=P2, max_issuance=P3, metadata_scheme=P5, compatibility=P7, collection_owner=SIGNER"],
        "toggle_public_mint": ["PublicMintToggle", "collection_id=P1, enabled=P2"],
        "set_mint_fee": ["MintPriceSet", "collection_id=P1, payment_asset=alt(good(P2.q.f0), none), mint_price=alt(good(P2.q.f1), none)"],
        "mint": ["Mint", "collection_id=P1, owner=alt(P3.q, SIGNER)"],
        "transfer": ["Transfer", "collection_id=P1, new_owner=P3, previous_owner=SIGNER, serial_numbers=P2"],
        "burn": ["Burn", "collection_id=P1.f0, serial_number=P1.f1"], "set_name": ["NameSet", "collection_id=P1, name=P2"],
        "set_royalties_schedule": ["RoyaltiesScheduleSet", "collection_id=P1, royalties_schedule=P2"],
        "set_utility_flags": ["UtilityFlagsSet", "collection_id=P1, utility_flags=P2"]},
    "pallet-maintenance-mode": {
        "enable_maintenance_mode": ["MaintenanceModeActivated", "enabled=P1"], "block_account": ["AccountBlocked", "account=P1, blocked=P2"],
        "block_evm_target": ["EVMTargetBlocked", "target_address=P1, blocked=P2"],
        "block_call": ["CallBlocked", "pallet_name=has(P1), call_name=has(P2), blocked=P3"], "block_pallet": ["PalletBlocked", "pallet_name=has(P1), blocked=P2"]},
    "pallet-echo": {"ping": ["PingSent", "session_id=NextSessionId, source=SIGNER, destination=P1"]},
    "pallet-nft-peg": {"set_contract_address": ["ContractAddressSet", "contract=P1"],
                       "withdraw": ["Erc721Withdraw", "origin=SIGNER, collection_ids=P1, serial_numbers=P2, destination=P3"],
                       "reclaim_blocked_nfts": ["Erc721Withdraw", "origin=SIGNER, collection_ids=has(BlockedTokens[P1].q.collection_id), serial_numbers=has(BlockedTokens[P1].q.serial_numbers), destination=P2"]},
    "pallet-dex": {"set_fee_to": ["FeeToSet", "P1"], "remove_liquidity": ["RemoveLiquidity", "SIGNER"], "reenable_trading_pair": ["EnableTradingPair", "_"],
                   "disable_trading_pair": ["DisableTradingPair", "_"]},
    "pallet-futurepass": {
        "create": ["FuturepassCreated", "delegate=P1"], "register_delegate_with_signature": ["DelegateRegistered", "futurepass=P1, delegate=P2, proxy_type=P3"],
        "unregister_delegate": ["DelegateUnregistered", "futurepass=P1, delegate=P2"],
        "transfer_futurepass": ["FuturepassTransferred", "futurepass=Holders[P1].q, old_owner=P1, new_owner=P2"], "proxy_extrinsic": ["ProxyExecuted", "delegate=SIGNER"]},
    "pallet-xls20": {
        "set_relayer": ["RelayerSet", "account=P1"], "set_xls20_fee": ["Xls20MintFeeSet", "new_fee=P1"],
        "enable_xls20_compatibility": ["Xls20CompatibilityEnabled", "collection_id=P1"], "re_request_xls20_mint": ["Xls20MintRequest", "collection_id=P1, serial_numbers=P2"],
        "fulfill_xls20_mint": ["Xls20MappingSet", "collection_id=P1, mappings=P2"], "set_collection_mappings": ["Xls20CollectionMappingsSet", "mappings=P1"]},
    "pallet-sft": {
        "create_collection": ["CollectionCreate", "name=P1, metadata_scheme=P3, royalties_schedule=P4, collection_owner=alt(P2.q, SIGNER)"],
        "create_token": ["TokenCreate", "initial_issuance=P3, max_issuance=P4, token_name=P2, token_id=(P1, SftCollectionInfo[P1].q.next_serial_number)"],
        "mint": ["Mint", "collection_id=P1, owner=alt(P3.q, SIGNER), balances=has(elem(P2).f1), serial_numbers=has(elem(P2).f0)"],
        "transfer": ["Transfer", "collection_id=P1, previous_owner=SIGNER, new_owner=P3, balances=has(elem(P2).f1), serial_numbers=has(elem(P2).f0)"],
        "burn": ["Burn", "collection_id=P1, owner=SIGNER, balances=has(elem(P2).f1), serial_numbers=has(elem(P2).f0)"],
        "set_owner": ["OwnerSet", "collection_id=P1, new_owner=P2"], "set_max_issuance": ["MaxIssuanceSet", "token_id=P1, max_issuance=P2"],
        "set_base_uri": ["BaseUriSet", "collection_id=P1, metadata_scheme=P2"], "set_name": ["NameSet", "collection_id=P1, collection_name=P2"],
        "set_royalties_schedule": ["RoyaltiesScheduleSet", "collection_id=P1, royalties_schedule=P2"], "toggle_public_mint": ["PublicMintToggle", "token_id=P1, enabled=P2"],
        "set_mint_fee": ["MintPriceSet", "token_id=P1, payment_asset=alt(good(P2.q.f0), none), mint_price=alt(good(P2.q.f1), none)"],
        "set_utility_flags": ["UtilityFlagsSet", "collection_id=P1, utility_flags=P2"]},
    "pallet-migration": {"enable_migration": ["MigrationEnabled", "", "MigrationDisabled", ""], "set_block_delay": ["BlockDelaySet", "block_delay=P1"],
                         "set_block_limit": ["BlockLimitSet", "block_limit=P1"]},
    "pallet-vortex-distribution": {
        "set_admin": ["AdminAccountChanged", "old_key=AdminAccount"], "create_vtx_dist": ["VtxDistCreated", "id=NextVortexId"], "disable_vtx_dist": ["VtxDistDisabled", "id=P1"],
        "start_vtx_dist": ["VtxDistStarted", "id=P1"], "set_vtx_dist_eras": ["SetVtxDistEras", "id=P1, start_era=P2, end_era=P3"],
        "set_asset_prices": ["SetAssetPrices", "asset_prices=P1, id=P2"], "register_rewards": ["RewardRegistered", "id=P1, rewards=P2"],
        "trigger_vtx_distribution": ["TriggerVtxDistribution", "id=P1"]},
    "pallet-nfi": {
        "set_relayer": ["RelayerSet", "account=P1"], "set_fee_to": ["FeeToSet", "account=P1"], "set_fee_details": ["FeeDetailsSet", "sub_type=P1, fee_details=P2"],
        "enable_nfi_for_trn_collection": ["NfiEnabled", "sub_type=P2, collection_id=has(P1)"],
        "manual_data_request": ["DataRequestNew", "caller=SIGNER, sub_type=P2, token_id=P1", "DataRequestExisting", "caller=SIGNER, sub_type=P2, token_id=P1"],
        "submit_nfi_data": ["DataSet", "token_id=P1, data_item=P2"]},
    "pallet-fee-proxy": {"call_with_fee_preferences": ["CallWithFeePreferences", "who=SIGNER, payment_asset=P1, max_payment=P2"]},
    "pallet-evm-chain-id": {"set_chain_id": ["ChainIdSet", "P1"]},
    "pallet-doughnut": {
        "transact": ["DoughnutCallExecuted", "doughnut=P2, call=P1"], "revoke_doughnut": ["DoughnutRevokeStateUpdated", "revoked=P2, doughnut_hash=has(P1)"],
        "revoke_holder": ["HolderRevokeStateUpdated", "issuer=SIGNER, holder=P1, revoked=P2"], "update_whitelisted_holders": ["WhitelistedHoldersUpdated", "holder=P1, enabled=P2"]},
}


@prop("T21")
def events(ctx):
    for c, fns in EVENTS.items():
        for fn, l in fns.items():
            r = "T21.%s.%s" % (c, fn)
            e = ctx.entry(c, fn, opaque=BIG)
            flags = ["P%d" % i for i, (p, t) in enumerate(e.fn.params) if t.get("k") == "Path" and t["p"][-1]["n"] == "bool"]
            groups = [(e.ok, {})]
            for f in flags:       # a flag may be reported as the value the path has taken it for
                new = []
                for trs, sub in groups:
                    yes, no = e.on("truth(%s)" % f, trs), e.on("false(%s)" % f, trs)
                    new += [(yes, dict(sub, **{f: "alt(%s, true)" % f})), (no, dict(sub, **{f: "alt(%s, false)" % f})),
                            ([t for t in trs if t not in yes and t not in no], sub)]
                groups = [g for g in new if g[0]]
            for trs, sub in groups:
                pats = []
                for n, a in zip(l[::2], l[1::2]):
                    for f, v in sub.items():
                        a = re.sub(r"\b%s\b" % f, v, a)
                    pats.append("event('%s'%s)" % (n, ", " + a if a else ""))
                e.must(r, " or ".join(pats), count=1, traces=trs)
                for n, p in zip(l[::2], pats):
                    e.only(r + ".only", "event", n, [p], traces=trs)
