"""The properties: one entry per id.  tools/gen.py turns this table into properties.jsonl and MANIFEST.json."""

PROPS = []
NA = []

WHY = "The pallet's unit tests run a handful of fixed scenarios against a mock runtime (and the stable baseline does not even build the pallets); the guarantee quantifies over every caller, argument and prior state."


def P(pid, title, statement, files, mech, over=("inputs", "histories"), text=None, why=WHY, state=(), observe=()):
    assert len(title) <= 80, title
    PROPS.append({
        "id": pid, "title": title, "statement": statement,
        "quantifier": {"over": list(over), "text": text or "every caller, every argument and every reachable prior state of the chain"},
        "why_tests_cant": why,
        "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                    "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                    "observe_at": list(observe) or ["storage and events after the call"], "hook_needed": None}})


def N(pid, title, statement, files, mech, reason, over=("inputs",), text=None, why=WHY):
    P(pid, title, statement, files, mech, over, text, why)
    NA.append({"property": pid, "reason": reason})


NFT = ["pallet/nft/src/lib.rs", "pallet/nft/src/impls.rs", "pallet/nft/src/types.rs"]
SFT = ["pallet/sft/src/lib.rs", "pallet/sft/src/impls.rs", "pallet/sft/src/types.rs"]
MKT = ["pallet/marketplace/src/lib.rs", "pallet/marketplace/src/impls.rs", "pallet/marketplace/src/types.rs"]
ETHY = ["pallet/ethy/src/lib.rs", "pallet/ethy/src/impls.rs", "pallet/ethy/src/types.rs"]

P("N01", "An NFT leaves its owner only by the owner's own, unlocked, permitted action",
  "A transfer or burn succeeds only when the acting account is recorded as owner of every named token, none of them is locked, and the collection's transferable (burnable) flag is on; the recipient differs from the sender. The named tokens are taken from the previous owner and credited to the recipient (or, for a burn, removed with the collection's issuance reduced by one), nothing else in the collection changes, and token approvals of every moved token are cleared.",
  NFT, [("do_transfer / do_burn ownership, lock and flag checks", "pallet/nft/src/impls.rs")])
P("N02", "NFT minting is authorised and never exceeds the collection's caps",
  "Tokens are minted only by the collection owner or, when public minting is enabled, by anyone, and only while the mintable flag is on, for a non-zero quantity within the mint limit, and never on a bridged collection; issuance stays within the collection's maximum and the global maximum. Minted serial numbers are the next unused ones and are credited to the recipient; a bridged mint credits only serials nobody owns yet, each once, and counts exactly those. A collection is created with an initial issuance within its caps and serial numbering continues after it.",
  NFT, [("pre_mint, do_mint, mint_bridged_token, do_create_collection", "pallet/nft/src/impls.rs")])
P("N03", "Only the collection owner administers an NFT collection",
  "Changing a collection's owner, name, base URI, royalties, maximum issuance, public mint, mint fee or utility flags requires a signature of its current owner and changes only that attribute of that collection; the maximum issuance can be set once and not below the current issuance; royalties stay within 100% and the entitlement bound. Only root may assign an unowned (pallet-owned) collection. No other operation writes collection records, public-mint settings, flags or the collection counter.",
  NFT, [("owner checks of the admin extrinsics", "pallet/nft/src/lib.rs")])
P("N04", "A locked NFT cannot be moved, burned or relocked",
  "A token lock can be placed only on an unlocked token by its owner, is removed only through the release operation, and while it exists no transfer or burn of that token can change the ownership table.",
  NFT, [("token locks", "pallet/nft/src/impls.rs")])
P("N05", "Public mint fees of an NFT collection are charged exactly",
  "When public minting is enabled with a price, every minter other than the collection owner pays the collection owner price times quantity in the configured asset before the mint succeeds, and nobody is charged otherwise; the fee event reports that payment. Setting the fee and toggling public mint change only that part of the settings.",
  NFT, [("charge_mint_fee", "pallet/nft/src/impls.rs")])
P("N06", "NFT queries report the recorded tokens",
  "A query for an account's tokens in a collection reports how many it owns and the owned serial numbers from the cursor on in ascending order, at most the limit and 1000 at once, with the serial to continue at, or 0 when the last one is returned. Balance, existence, collection and token URI queries report the collection's record, and nothing if there is none.",
  ["pallet/nft/src/impls.rs"], [("owned_tokens, token_balance_of, token_uri, collection_exists, get_collection_info", "pallet/nft/src/impls.rs")])
P("S01", "Semi-fungible balances move exactly and only by their holder",
  "A semi-fungible transfer or burn is signed by the holder, for non-zero amounts not above their free balance, with the corresponding flag enabled; the holder is debited exactly the amount and the recipient (never the holder) credited exactly the amount, or issuance reduced by it on a burn. Reserving and freeing shift exactly the amount between the free and reserved half of one holder's balance and only when sufficient. Holder entries are dropped only when both halves are zero.",
  SFT, [("transfer/burn/reserve", "pallet/sft/src/impls.rs")])
P("S02", "Semi-fungible supply is authorised and capped",
  "Semi-fungible tokens are minted only by the collection owner or under an enabled public mint, with the mintable flag on, for non-zero amounts, never beyond the token's maximum issuance; holder balance and issuance grow by exactly the amount. Token creation by the collection owner credits exactly the initial issuance, within the cap, under the next serial number, and the maximum issuance may be set once and not below the current issuance.",
  SFT, [("mint/create_token/set_max_issuance", "pallet/sft/src/impls.rs")])
P("S03", "Only the collection owner administers a semi-fungible collection",
  "Changing a semi-fungible collection's owner, name, base URI, royalties, public mint, mint fee or utility flags requires the signature of its current owner and changes only that attribute; royalties stay within 100% and the entitlement bound, and names are non-empty. New collections take the shared collection counter, which is advanced exactly once.",
  SFT, [("owner checks", "pallet/sft/src/impls.rs")])
P("S04", "Public mint fees of semi-fungible tokens are charged exactly",
  "When public minting of a token is enabled with a price, every minter other than the collection owner pays the collection owner price times amount in the configured asset and nobody is charged otherwise; the event reports that payment.",
  SFT, [("charge_mint_fee", "pallet/sft/src/impls.rs")])
P("S05", "SFT queries report the recorded balances and issuance",
  "The balance query reports the free balance recorded for exactly that account and token, the supply query the token's recorded issuance, the URI query the collection's metadata scheme with the serial number, and the existence and owner queries the collection's or token's record; for an unknown token or account they report zero or nothing.",
  ["pallet/sft/src/impls.rs", "pallet/sft/src/types.rs"], [("balance_of, total_supply, token_uri, collection_exists, token_exists, get_collection_owner", "pallet/sft/src/impls.rs"), ("SftTokenInformation::free_balance_of", "pallet/sft/src/types.rs")])
P("M01", "Listing locks what is sold and records the sale faithfully",
  "Every sale or auction listing is signed, non-empty, locks (or reserves) every listed token of the seller under the new listing id, and records seller, tokens, price and closing block; the closing block lies a non-zero duration ahead and is the block at which expiry is scheduled. Listing ids are never reused.",
  MKT, [("do_sell / do_auction / lock_tokens", "pallet/marketplace/src/impls.rs")])
P("M02", "A fixed-price purchase pays in full and delivers the tokens",
  "A fixed-price listing is bought only by a permitted buyer, who pays the listed price split between royalty holders and seller with nothing created or lost, before the listed tokens are released and transferred from seller to buyer; the listing, its schedule entry and index are removed. A multi-purchase obeys the same rules for every listing, and only the seller may change the price, and only the price.",
  MKT, [("do_buy / do_buy_multi / calculate_royalty_payouts", "pallet/marketplace/src/impls.rs")])
P("M03", "Auction bids are held, refunded and settled correctly",
  "A bid succeeds only on an auction, above the current best bid (or at least the reserve), with the bid amount placed on hold, and the previous bidder gets back exactly their held amount; extending the close moves the schedule entry with it. A sale is cancelled only by its seller and an auction only without bids, releasing all tokens; at close the winner's held bid pays royalties and seller and the tokens go to the winner, otherwise the bid is released.",
  MKT, [("do_bid / close_listings_at / process_payment_and_transfer", "pallet/marketplace/src/impls.rs")])
P("M04", "Offers hold the buyer's funds and settle only with the owner",
  "An offer has a non-zero amount, is made by a non-owner for an existing token not in auction, and holds exactly the offered amount; only its maker can cancel it and then gets exactly that amount back. Only the token's owner can accept it: the held amount is split between fee recipients and the owner with nothing created or lost, the token is released and transferred to the maker, and the offer disappears.",
  MKT, [("make_simple_offer / cancel_offer / accept_offer", "pallet/marketplace/src/impls.rs")])
P("M05", "Closing a listing never strands tokens or bid funds",
  "Whenever a listing disappears - bought, cancelled, expired, settled, failed to settle, or superseded by an accepted offer - every token it locked is released, and the funds of a winning bid are paid out or released.",
  MKT, [("listing removal paths", "pallet/marketplace/src/impls.rs")], over=("inputs", "histories", "fault_sequences"))
P("M06", "Listings and offers carry all agreed royalties and fees",
  "A new NFT listing carries the collection's royalties, the registered marketplace's entitlement and the network fee, with a total of at most 100%; accepting an offer deducts the network fee and the marketplace's entitlement. Marketplaces are registered with bounded entitlement under fresh ids, and only root sets the network fee recipient.",
  MKT, [("calculate_bundle_royalties / register_marketplace / set_fee_to", "pallet/marketplace/src/impls.rs")])
P("E01", "Bridge events are relayed once, after an unchallenged challenge period",
  "Only the current relayer can report an Ethereum event; it is recorded under the id, source, destination and data it encodes, must not be pending nor already processed (a missed id only if on the missed list), and is scheduled a full challenge period ahead. An event is executed only at its scheduled block, with exactly the recorded payload, never while challenged (a challenged one is postponed by another challenge period), and afterwards its claim is removed and its id remembered as processed. When old ids are forgotten, gaps are recorded as missed.",
  ETHY, [("submit_event / on_initialize / prune_claim_ids", "pallet/ethy/src/lib.rs")], over=("inputs", "histories", "schedules"))
P("E02", "Relayer and challenger bonds are held, released or slashed exactly once",
  "The relayer bond is held exactly once per account and released in full only while the account is not the relayer; only root appoints a relayer and only a bonded one. A challenge holds the challenger's bond for a pending, unchallenged claim; a claim proven invalid returns it and pays the relayer's bond to the challenger while removing the relayer, and one proven valid pays the challenge bond to the relayer. Either verdict clears votes, the challenge and its queue entry.",
  ETHY, [("deposit/withdraw bond, submit_challenge, handle_invalid_claim, handle_valid_claim", "pallet/ethy/src/impls.rs")])
P("E03", "Validator verdicts need a quorum of distinct, authentic votes",
  "A notarization enters the chain only unsigned, with a valid signature of the current validator at the named index and at most once per validator and item; it counts only for a challenged claim or an open request. Each stored vote counts once, towards validity or invalidity; a claim is judged valid at the notarization threshold of the validator set and invalid when more than the complement vote against. An eth-call result is delivered only at the threshold, after which the request and its votes are removed.",
  ETHY, [("submit_notarization / validate_unsigned / handle_event_notarization / handle_call_notarization", "pallet/ethy/src/impls.rs")], over=("inputs", "histories", "schedules"))
P("E04", "Event proofs have unique ids and follow validator-set changes",
  "Every outgoing message gets the next event proof id, and is signed at once over exactly its payload, validator-set id and proof id, or queued under that id while the bridge is paused; queued proofs are signed only when unpaused and then removed from the queue. A validator-set change sends the authority-change message before pausing and happens at most once per era; finalising it installs the new keys, the XRPL signer subset and the next set id, announces them and unpauses. The reported validator set is the stored one with the threshold of its size.",
  ETHY, [("send_event / do_request_event_proof / handle_authorities_change / do_finalise_authorities_change", "pallet/ethy/src/impls.rs")], over=("inputs", "histories", "schedules"))
P("E05", "A validator attests only what Ethereum really shows",
  "The off-chain worker votes an event valid only if the receipt exists, succeeded, was sent to the source contract, contains the matching log from the bridge contract with exactly the claimed id, source, destination and data, and is confirmed deep enough; it votes only on challenged, still pending claims it has not voted on, and not while the bridge is paused. A call result is attested only for a permitted block, not older than the request, with non-empty data; notarizations are signed with the validator's key.",
  ETHY, [("offchain_try_notarize_event / offchain_try_eth_call", "pallet/ethy/src/impls.rs")], over=("inputs", "histories", "schedules"))
P("E06", "Bridge parameters are changed only by root",
  "The confirmation depth, challenge period, proofs per block, contract address, manual pause, XRPL door signers and the missed-id list are changed only by root, each operation sets exactly the given value, and no other operation writes them.",
  ETHY, [("root setters", "pallet/ethy/src/lib.rs")])
XB = ["pallet/xrpl-bridge/src/lib.rs", "pallet/xrpl-bridge/src/types.rs"]
P("E07", "The bridge asks Ethereum exactly what it means to, and trusts only a good answer",
  "A notary's requests to its configured Ethereum endpoint name exactly the contract, input, block or transaction asked about, in the JSON-RPC form of the Ethereum API, with a deadline of 1.5 seconds. An answer counts only if it arrives in time with status 200 and parses; otherwise the caller gets an error, and without a configured endpoint nothing is sent.",
  ["pallet/ethy/src/ethereum_http_cli.rs", "pallet/ethy/src/types.rs"], [("EthereumRpcClient", "pallet/ethy/src/ethereum_http_cli.rs"), ("serialize_params, serialize_params_eth_call", "pallet/ethy/src/types.rs")])
P("E08", "The bridge's next keys are the queued validators' and their change is timed",
  "At each session change the keys the queued validators registered for the bridge are kept, in order, as the next notary keys; the keys in use are untouched. Only when the session that starts is the last of its era is the change of authorities timed, at the current block plus the epoch's length less the configured delay. At genesis the bridge's keys are set once, to the validators' keys, with the XRPL signing keys derived from them; no validators, no keys.",
  ["pallet/ethy/src/impls.rs"], [("on_new_session, on_genesis_session", "pallet/ethy/src/impls.rs")], over=("inputs", "histories"))
P("X01", "XRPL deposits are relayed once and credited once, unless challenged",
  "Only an active relayer can report an XRPL transaction, only within the submission window, never one whose hash is already recorded, and currency payments only for a mapped currency. It is queued a full challenge period ahead and executed only then, only if nobody challenged it and with exactly the recorded content: XRP and mapped assets are minted, ROOT is paid from the bridge account, XLS-20 tokens are delivered, each to the recorded address in the recorded amount. A success is recorded under its ledger index, a failure is reported and not recorded; the highest settled index never decreases.",
  XB, [("submit_transaction / process_xrp_tx / process_asset_deposit", "pallet/xrpl-bridge/src/lib.rs")], over=("inputs", "histories", "schedules"))
P("X02", "XRPL withdrawals burn exactly what the bridge pays out",
  "A withdrawal is signed, non-zero and needs a configured door. XRP withdrawals burn amount plus door fee; others burn the asset (ROOT moves to the bridge account) and the XRP fee. The amount taken equals the amount signed for payment, for the given destination, tag, currency and issuer, and may be rounded down only by less than one unit. A payment at or above the delay threshold is stored under a fresh id and scheduled the configured delay ahead, otherwise signed at once; a stored payment is released only once due, exactly once, as recorded, and blocks are worked off without skipping any.",
  XB, [("add_to_withdraw / process_*_withdrawal / delay_payment / process_delayed_payments", "pallet/xrpl-bridge/src/lib.rs")], over=("inputs", "histories", "schedules"))
P("X03", "Every XRPL transaction takes a fresh door ticket",
  "Each signed XRPL transaction carries the current ticket of its own door, after which that door's ticket counter is one higher. Within the bucket tickets are consecutive; once it is used up the next allocation is taken over (only if set and different) and cleared. Relayers may set the next, only root the current allocation; neither may lie before the current ticket or bucket start, nor be empty.",
  XB, [("get_door_ticket_sequence / set_ticket_sequence_*", "pallet/xrpl-bridge/src/lib.rs")], over=("inputs", "histories"))
P("X04", "Replay records are pruned only outside the submission window",
  "Transaction records of a settled ledger are removed only when that ledger lies before the submission window, automatically in ascending order with the pruned marker moving past a ledger only once it is completely cleared (a partially cleared one keeps exactly the remaining hashes), or manually by root. Only root resets the settled data, and then the pruned index may not lie inside the window.",
  XB, [("clear_storages / prune_settled_ledger_index / reset_settled_xrpl_tx_data", "pallet/xrpl-bridge/src/lib.rs")], over=("inputs", "histories"))
P("X05", "XRPL bridge parameters change only by their authority",
  "Relayers and door addresses are changed only by the approving origin; door fees, source tag, payment delays and the currency map only by root. Each operation sets exactly the given value, the two directions of the currency map are written together and only for valid symbols, and no other operation writes them.",
  XB, [("setters", "pallet/xrpl-bridge/src/lib.rs")])
P("X06", "NFTs leave to the XRPL only when burned here",
  "An NFT withdrawal is signed by its owner, requires the collection to be XRPL compatible, burns exactly that token and requests a sell offer for exactly the mapped XLS-20 token to the given destination from the NFT door. Only a relayer can request acceptance of an offer, for exactly the given offer id from the NFT door.",
  XB, [("do_nft_withdrawal / generate_nft_accept_offer", "pallet/xrpl-bridge/src/lib.rs")])
DX = ["pallet/dex/src/lib.rs", "pallet/dex/src/types.rs"]
P("D01", "Swaps respect the caller's limits and the fee-adjusted product",
  "A swap is signed, within its deadline, quoted over the whole path (two assets up to the path limit, every pair enabled with non-zero reserves, Uniswap formulas with the configured fee), and respects the caller's minimum output or maximum input. The first quoted amount is paid by the caller into the first pool, each hop pays its quoted amount out of its pool (less than its reserve) to the next pool and the last to the recipient; at every hop the fee-adjusted product of the balances is at least the product of the reserves before, and the reserves are set to the balances after the transfers.",
  DX, [("do_swap_with_exact_supply / do_swap_with_exact_target / _swap / get_amounts_out / get_amounts_in", "pallet/dex/src/lib.rs")], over=("inputs", "histories"))
P("D02", "Adding liquidity takes fair amounts and mints matching shares",
  "Adding liquidity is signed, within the deadline, for two different assets with non-zero amounts and an enabled (or just created) pair. Into an empty pool go the desired amounts, otherwise amounts at the pool's price within desired and minimum amounts. Shares minted to the recipient equal, for the amounts the pool really received, the root of their product less the 1000 shares locked at first, or the smaller proportional share of the supply; never zero. The reserves become the pool balances; the order in which the caller names the assets does not matter.",
  DX, [("do_add_liquidity / create_lp_token", "pallet/dex/src/lib.rs")], over=("inputs", "histories"))
P("D03", "Removing liquidity pays exactly the share of the pool",
  "Removing liquidity is signed, within the deadline, for an existing pair. The given shares are moved to the pool and all shares there are burned; the recipient gets exactly that fraction of each pool balance over the share supply, both non-zero and at least the caller's minimum for that asset in whichever order the assets were named; the reserves become the balances after the payout.",
  DX, [("do_remove_liquidity", "pallet/dex/src/lib.rs")], over=("inputs", "histories"))
P("D04", "Trading pairs are canonical and administered by root",
  "A pair has one canonical order, one pool address made of prefix and both asset ids, one share token, and its reserves are always reported in the order of the arguments. Only root enables or disables an existing pair (only from the opposite status) or sets the fee account. The protocol fee is minted in shares to that account only while it is set, by the Uniswap growth formula; no other operation writes reserves, product, pair token or status.",
  DX, [("TradingPair::new / pool_address / reenable_trading_pair / disable_trading_pair / set_fee_to / mint_fee", "pallet/dex/src/lib.rs")], over=("inputs", "histories"))
P("D05", "The exchange's arithmetic is exact or refuses",
  "Sums, differences, products and quotients of the exchange's computations are those of the operands in their order, and a result that does not fit its type, a difference below zero or a division by zero is an error: nothing wraps, saturates or is rounded differently.",
  ["pallet/dex/src/types.rs"], [("safe_math!", "pallet/dex/src/types.rs")], over=("inputs",))
AX = ["pallet/assets-ext/src/lib.rs", "pallet/assets-ext/src/impls.rs", "pallet/assets-ext/src/imbalances.rs"]
P("A01", "Held balances are backed, and released or spent exactly",
  "Placing a hold moves exactly the amount of the asset from the account to the holding account and adds it to that pallet's hold of the account and asset; releasing returns exactly the amount and spending pays exactly the listed amounts, only when the hold covers them, reducing the hold by just that. Used-up holds disappear, other pallets' holds stay untouched, and nothing else writes holds. A multi-payment is made only when the payer can cover all of it and skips zero amounts only.",
  AX, [("place_hold / release_hold / spend_hold / split_transfer", "pallet/assets-ext/src/lib.rs")], over=("inputs", "histories"))
P("A02", "Assets are created under fresh ids and managed by their owners",
  "Creating an asset needs a signature, at most 18 decimals and the asset deposit; it is created under an id of the next number and the parachain id, both within their bit widths, for the given owner (else the caller) and minimum balance, with its metadata and EVM account, and the number advances. The mint and burn calls never touch the native asset and act as the caller; transfer moves the caller's funds as asked. Only root sets the deposit.",
  AX + ["pallet/common/src/utils.rs"], [("create_asset / create / mint / burn_from / transfer", "pallet/assets-ext/src/lib.rs"), ("next_asset_uuid", "pallet/common/src/utils.rs")], over=("inputs", "histories"))
P("A03", "Every asset operation reaches the ledger of its own asset, exactly",
  "Queries, mints, burns and transfers through the multi-asset interface act on the native balances for the native asset and on pallet-assets with the same asset id otherwise, with the given accounts, amounts and options. The one-asset currency adapter takes or gives exactly the amount and returns a matching imbalance of that asset; splitting, merging or offsetting imbalances keeps the total, and dropping one corrects the issuance of its asset by its amount in the right direction.",
  AX, [("Inspect / Mutate", "pallet/assets-ext/src/lib.rs"), ("AssetCurrency", "pallet/assets-ext/src/impls.rs"), ("PositiveImbalance / NegativeImbalance", "pallet/assets-ext/src/imbalances.rs")])
EP = ["pallet/erc20-peg/src/lib.rs", "pallet/erc20-peg/src/types.rs"]
P("P01", "ERC20 peg withdrawals take exactly what Ethereum is told to pay",
  "A withdrawal needs active withdrawals and a mapped asset. The native asset moves to the peg account, any other is burned, exactly in the given amount, before a message with the mapped token address, that amount and the beneficiary goes from the peg account to the contract for that asset. While delays are active, an amount of at least the asset's threshold is instead taken and stored as a pending payment for the configured number of blocks later; over the EVM it is refused without effect.",
  EP, [("do_withdrawal / burn_or_transfer / process_withdrawal", "pallet/erc20-peg/src/lib.rs")], over=("inputs", "histories"))
P("P02", "ERC20 peg deposits credit the decoded amount of the right asset",
  "A bridged deposit counts only from the peg contracts and, for a mapped asset, only from the contract for that kind of asset, while deposits are active. The token, amount and beneficiary are those of the event data; the native asset is paid from the peg account, others are minted to the beneficiary in exactly that amount. An unmapped token gets a new asset with known (else default) metadata, mapped in both directions. Delayed deposits are stored, not paid.",
  EP, [("on_event / do_deposit / process_deposit / mint_or_transfer / verify_source", "pallet/erc20-peg/src/lib.rs")], over=("inputs", "histories"))
P("P03", "Delayed ERC20 payments are executed exactly once, when due",
  "A delayed payment is stored under a fresh id and scheduled for the block of now plus delay. Blocks become ready only when reached and are worked off in idle weight: every payment taken off a schedule is executed, the rest stays scheduled, and a block is dropped only when completely done. An executed payment is removed first, pays exactly what was stored, and failures are reported. Only root can execute a scheduled payment early, which unschedules it.",
  EP, [("delay_payment / on_initialize / on_idle / process_delayed_payment / claim_delayed_payment", "pallet/erc20-peg/src/lib.rs")], over=("inputs", "histories", "schedules"))
P("P04", "ERC20 peg settings are changed only by root",
  "Activation flags, contract addresses, payment delays, token metadata and the asset map are changed only by root, each operation sets exactly the given values, both directions of the asset map are written together, and nothing but a first deposit of an unmapped token writes them otherwise.",
  EP, [("root setters", "pallet/erc20-peg/src/lib.rs")])
QP = ["pallet/nft-peg/src/lib.rs", "pallet/nft-peg/src/types.rs"]
P("Q01", "Bridged NFT deposits mint exactly the decoded tokens or record them as blocked",
  "A deposit message counts only with the deposit prefix and equally many token addresses and id lists; addresses, ids and destination are those of the event data. Each token contract maps to one collection, created once (Ethereum origin) and recorded in both directions. Every listed token is minted to the destination in the mapped collection; when minting fails, exactly those tokens are stored as blocked for that destination under a fresh id and reported. Nothing else writes the mappings or blocked tokens, except reclaiming.",
  QP, [("on_event / decode_deposit_event / do_deposit", "pallet/nft-peg/src/lib.rs")], over=("inputs", "histories"))
P("Q02", "NFT withdrawals to Ethereum burn what is sent and free blocked tokens once",
  "A withdrawal needs as many serial lists as collections, each collection bridged from Ethereum with a mapped address. Every listed token is burned as the caller before one message with the mapped addresses, exactly these serials and the destination goes from the peg account to the peg contract. Only the destination of blocked tokens can reclaim them; then they are not burned, the message has the blocked serials, and the record is removed. Only root sets the contract address.",
  QP, [("do_withdrawal / do_reclaim_blocked_nfts", "pallet/nft-peg/src/lib.rs")], over=("inputs", "histories"))
FP = ["pallet/nfi/src/lib.rs", "pallet/nfi/src/types.rs"]
P("F01", "NFI data requests are authorised and pay the configured fee",
  "A manual request for a token of this chain needs NFI enabled for its collection and a caller who owns the token or its collection; a mint in an enabled collection requests data for every minted token. Either way the fee for the number of tokens is paid by the requester in the configured asset: the network percentage to the fee account if one is set and the rest to the receiver, else all to the receiver; a failed payment fails the request. Requests change no stored data and are reported per token.",
  FP, [("manual_data_request / pay_mint_fee / request", "pallet/nfi/src/lib.rs")])
P("F02", "NFI data is written only by the relayer and removed with its token",
  "Only the relayer stores data, under the token and the kind of the data; for tokens of this chain the collection must be enabled and the token exist. Burning a token removes all of its data and nothing else. Only the owner of a collection enables NFI for it. Only root sets the relayer, the fee account and the fees (never zero), and each call sets or clears exactly what it names.",
  FP, [("submit_nfi_data / on_burn / enable_nfi_for_trn_collection", "pallet/nfi/src/lib.rs")])
LP = ["pallet/xls20/src/lib.rs", "pallet/xls20/src/types.rs"]
P("L01", "XLS-20 mint requests pay the full fee to the relayer and list every token",
  "A mint in an XLS-20 compatible collection pays the relayer the configured fee (of any size) times the number of tokens in the payment asset, failing if it cannot, and is reported with all serials and their uris. Only the collection owner can request again, for a non-empty list of existing tokens of a compatible collection, none mapped yet, paying the same fee. Requests store nothing. Only root sets the relayer and the fee.",
  LP, [("pay_xls20_fee / request_xls20_mint / re_request_xls20_mint", "pallet/xls20/src/lib.rs")])
P("L02", "Each token maps to one XLS-20 token, decoded faithfully when bridged",
  "Only the relayer fulfils mint requests, mapping existing tokens that have no mapping yet. A token bridged from the XRPL is refused if it is burnable; otherwise its issuer, unscrambled taxon and sequence number select a collection, created once with XRPL origin and recorded if new, and exactly that serial is minted to the receiver before it is mapped. Only root sets collection mappings. All of this waits for a running migration.",
  LP, [("fulfill_xls20_mint / deposit_xls20_token / get_xls20_token_id", "pallet/xls20/src/lib.rs"), ("Xls20Token", "pallet/xls20/src/types.rs")], over=("inputs", "histories"))
CP = ["pallet/crowdsale/src/lib.rs", "pallet/crowdsale/src/impls.rs"]
P("C01", "Crowdsales start from a fresh, capped collection and end at a scheduled block",
  "A sale gets a fresh id and its own vault account. It needs an existing payment asset, a positive price, a positive duration within the limit, and a collection of the caller with a maximum and no issuance and no public mint; the collection moves to the vault, which holds 10^6 voucher units per token of the maximum issuance. Only its admin enables a pending sale, once, and its end block (now plus duration) is scheduled with it.",
  CP, [("initialize / enable", "pallet/crowdsale/src/lib.rs"), ("create_voucher_asset", "pallet/crowdsale/src/impls.rs")], over=("inputs", "histories"))
P("C02", "Crowdsale contributions are paid in full and recorded exactly",
  "Only an enabled sale accepts a contribution, which is positive and moves in full from the caller to the sale's vault in its payment asset. The caller's recorded contribution and the funds raised both grow by exactly that amount, and a first contribution counts one more participant. Nothing but participating, claiming and distribution changes contributions.",
  CP, [("participate", "pallet/crowdsale/src/lib.rs")], over=("inputs", "histories"))
P("C03", "A due crowdsale pays its admin, returns unsold vouchers and starts distribution",
  "At its end block every enabled sale pays the funds raised from its vault to its admin and, when under-subscribed, returns exactly the vouchers that no contribution can claim. It ends if nothing was raised; else it is queued for distribution and marked distributing, or marked failed if the queue is full. Anyone can retry a failed one. A sale that is not enabled is not touched.",
  CP, [("close_sales_at", "pallet/crowdsale/src/impls.rs"), ("try_force_distribution", "pallet/crowdsale/src/lib.rs")], over=("inputs", "schedules"))
P("C04", "Each contribution yields its fair share of vouchers exactly once",
  "A contribution yields its share of the voucher supply when over-subscribed, else the amount at the soft cap price, never more than the vault holds. A claim or the unsigned distribution removes the contribution before paying it, only while the sale is distributing. The sale ends, leaves the queue and returns the rest to the admin only once no contribution is left; else it goes on. Only the distribution call is accepted unsigned, and only while a sale is queued.",
  CP, [("claim_voucher / distribute_crowdsale_rewards / validate_unsigned", "pallet/crowdsale/src/lib.rs"), ("calculate_voucher_rewards / transfer_user_vouchers", "pallet/crowdsale/src/impls.rs")], over=("inputs", "histories", "schedules"))
P("C05", "Vouchers redeem one to one, and the vault runs only vetted calls",
  "After a sale has closed, redeeming a positive quantity burns exactly 10^6 voucher units per token from the caller before that many tokens of the sale's collection are minted to them; otherwise nothing happens. Only the sale's admin can run a call as the vault, and only after the call passed the validator.",
  CP, [("redeem_voucher / proxy_vault_call", "pallet/crowdsale/src/lib.rs")])
UP = ["pallet/futurepass/src/lib.rs", "runtime/src/impls.rs"]
P("U01", "Each account holds one futurepass, and transferring it leaves one owner",
  "Creating a futurepass needs an account without one, uses up an id, gives it the address of the futurepass prefix followed by that id, and makes the account its holder and its only delegate, as owner. Only the holder or the futurepass itself transfers it: the holder loses it, the new owner, who must hold none, becomes its holder and owner, and every other delegate is removed; without a new owner all its delegates are removed. Nothing else changes who holds what.",
  UP, [("create / transfer_futurepass", "pallet/futurepass/src/lib.rs")], over=("inputs", "histories"))
P("U02", "Delegates join a futurepass only by their own signature, never as owner",
  "A delegate is registered only by the futurepass or its owner, with the default type, if new and before the deadline, and only with the delegate's own signature of exactly this futurepass, delegate, type and deadline. The owner cannot be unregistered; others only by themselves, the owner or the futurepass. A proxied call is refused when blacklisted, and the futurepass's own management calls only pass for its owner.",
  UP, [("register_delegate_with_signature / unregister_delegate / proxy_extrinsic", "pallet/futurepass/src/lib.rs")])
P("U03", "Delegate permissions and deposits of futurepasses follow the delegate's type",
  "Only owner and general delegates can act; the proxy pallet's calls are never proxied, and of the futurepass pallet's only the three management calls, only for the owner; the same holds for calls to futurepass addresses through the EVM. Adding a delegate funds exactly the additional deposit (plus the existential deposit for an empty account) from the funder; removing one, or all, pays exactly the released deposit to the receiver.",
  UP, [("ProxyType::filter / is_evm_proxy_call_allowed / ProxyPalletProvider", "runtime/src/impls.rs")])
P("U04", "A futurepass acts in the EVM only for its delegates and never hides failure",
  "A proxied EVM call needs the caller to be an undelayed delegate whose type allows the call; the management functions of futurepasses need the caller to be the owner. The call runs with the futurepass as sender, to the requested address with the requested data and value, statically exactly when asked, moving the value only from the futurepass. A failed call is never reported as a success.",
  ["evm-precompiles/futurepass/src/lib.rs"], [("proxy_call / do_proxy", "evm-precompiles/futurepass/src/lib.rs")])
P("U05", "A futurepass's owner and delegates are exactly its registered proxies",
  "The owner of a futurepass is the first of its registered proxies with the owner type, and there is none if no proxy has it. Its delegates are all its registered proxies with their types, and an account is a delegate exactly if the proxy pallet finds it. Looking up a holder yields exactly its recorded futurepass; looking up a futurepass yields its owner, else the zero address. One delegate type includes another only if they are equal or it is the owner's or the general one.",
  ["runtime/src/impls.rs"], [("ProxyPalletProvider, FuturepassLookup, DoughnutFuturepassLookup, ProxyType", "runtime/src/impls.rs")])
GP = ["pallet/fee-proxy/src/lib.rs", "pallet/fee-proxy/src/impls.rs", "pallet/fee-proxy/src/runner.rs"]
P("G01", "Fees of a call are paid by its signer or futurepass, in the chosen asset",
  "A call can be wrapped to pay its fee in another asset than the gas token, not nested, and runs with the same origin. Before the fee is withdrawn, exactly the fee (plus the maximum gas cost of a wrapped EVM call, plus the minimum balance if the payer has less) is bought from that asset, for at most the stated maximum. The payer is the signer, or the futurepass when the signer, one of its delegates, has it make the call. The full fee is withdrawn from that payer; unwrapped calls swap nothing.",
  GP, [("call_with_fee_preferences", "pallet/fee-proxy/src/lib.rs"), ("withdraw_fee / correct_and_deposit_fee", "pallet/fee-proxy/src/impls.rs")])
P("G02", "EVM calls through the fee proxy address swap the fee and run the inner call",
  "An EVM call to the fee proxy address runs the call it encodes, with the encoded target and data and otherwise unchanged, after buying the gas fee for the sender from the encoded asset: the total fee is gas times base plus priority fee, at most the maximum fee, both scaled to the gas token and rounded up. Other calls and creations pass unchanged. Senders and targets (also encoded ones) that are blocked by maintenance mode are refused.",
  GP, [("FeePreferencesRunner / get_fee_preferences_data", "pallet/fee-proxy/src/runner.rs"), ("scale_wei_to_correct_decimals", "pallet/common/src/utils.rs")])
P("G03", "Fee parameters are set only by root, and fees follow them",
  "The EVM base fee, the weight multiplier and the length multiplier are changed only by root, one at a time and to exactly the given value. The weight fee is the weight multiplier times the reference time, the length fee the length multiplier times the length, and the gas price of the EVM is the base fee.",
  ["pallet/fee-control/src/lib.rs", "runtime/src/lib.rs"], [("setters, FeeConfig and FeeCalculator", "pallet/fee-control/src/lib.rs")])
P("G04", "Fees land in full in the fee pot, and an era pays out exactly its fees",
  "Withdrawn fees are deposited in full in the fee pot and added to the fees of the era; staking imbalances handed to the pot are deposited in full without counting as fees. Rewards are withdrawn from the pot in exactly their amount. An era's payout is the fees recorded since the last one, which are reset with it, and nothing else.",
  ["pallet/tx-fee-pot/src/lib.rs"], [("OnUnbalanced / EraPayout", "pallet/tx-fee-pot/src/lib.rs")], over=("inputs", "histories"))
BP = ["pallet/maintenance-mode/src/lib.rs"]
P("B01", "Maintenance blocks are set only by root and never lock the chain out",
  "Only root switches maintenance mode and blocks accounts, EVM targets, calls or pallets. Blocking records exactly the named item (names in lower case, never empty) and unblocking removes exactly it. Calls of the maintenance, sudo, timestamp, im-online and Ethereum bridge pallets can never be blocked.",
  BP, [("enable_maintenance_mode / block_*", "pallet/maintenance-mode/src/lib.rs")])
P("B02", "Blocked calls, accounts and EVM targets are refused, everything else passes",
  "In maintenance mode, or from a blocked account, a signed transaction is refused unless its pallet is exempt, and so is every EVM call or creation; EVM calls to a blocked target are refused. A blocked call, or call of a blocked, non-exempt pallet, does not pass the runtime's call filter, nor do asset creation, bridge challenges, staking payouts, adding proxies or re-staked rewards. Nothing else is refused.",
  BP + ["runtime/src/lib.rs"], [("MaintenanceChecker", "pallet/maintenance-mode/src/lib.rs"), ("CallFilter", "runtime/src/lib.rs")])
VP = ["pallet/vortex-distribution/src/lib.rs"]
P("V01", "A vortex distribution moves through its stages in order, under its admin",
  "Only root sets the admin, and only root or the admin creates distributions and sets their eras and asset prices; the vortex token itself never gets a price. A distribution takes a fresh id and moves from enabled to triggered to paying to done only in that order, each step on an explicit call; it can be disabled, which ends it for good.",
  VP, [("create_vtx_dist / trigger_vtx_distribution / start_vtx_dist", "pallet/vortex-distribution/src/lib.rs")], over=("inputs", "histories"))
P("V02", "Vortex rewards are minted once as registered, and each account is paid once",
  "Rewards are registered only while the distribution is enabled; the recorded total changes by exactly the difference to what the account had. Starting mints exactly that total to the vault, once. Triggering moves the whole fee pot and root balances of the priced assets to the vault. Payouts run only while paying, give an unpaid account exactly its registered amount, mark it paid, resume where they stopped, and finish only when no entry is left.",
  VP, [("register_rewards / do_pay_unsigned / do_collate_reward_tokens", "pallet/vortex-distribution/src/lib.rs")], over=("inputs", "histories", "schedules"))
P("V03", "Redeeming vortex burns it for the exact share of every asset in the vault",
  "Redeeming a positive amount of owned vortex tokens after the distribution is done burns exactly that amount from the caller and pays them, of every priced asset, the vault's balance times the amount over the total issuance; if any payment or the burn fails, nothing happens.",
  VP, [("do_redeem_tokens_from_vault", "pallet/vortex-distribution/src/lib.rs")])
RP = ["pallet/xrpl/src/lib.rs"]
P("R01", "Calls signed by XRPL wallets pay fees and use the signer's nonce once",
  "A transaction wrapped for an XRPL wallet acts as the account of its signing key, or as that account's futurepass when it is a futurepass call. It enters the pool and a block only after the sender, version, weight and fee checks passed for that account and the nonce check for the signing account; it provides exactly that account and nonce, waits for the previous nonce, and the fee, taken before the call runs, is settled after it.",
  RP, [("check_self_contained / validate_self_contained / apply_self_contained", "pallet/xrpl/src/lib.rs")])
P("R02", "XRPL wallet signatures cover the chain, call, nonce, tip and validity",
  "A wallet's signature is accepted only if it verifies under the signing public key over the encoded transaction including all memos, and the memo names this chain's genesis hash, the hash of exactly this call, its nonce, its tip and a last block that has not passed. A nested XRPL call is refused. Malformed transactions, keys and signatures are refused without a panic.",
  ["pallet/xrpl/src/lib.rs", "pallet/xrpl/src/types.rs"], [("validate_params", "pallet/xrpl/src/lib.rs"), ("XRPLTransaction", "pallet/xrpl/src/types.rs")])
P("R03", "An XRPL wallet's call runs once, as the account of the signing key",
  "The wrapped call is dispatched only when it arrives as a self-contained transaction and its kind is allowed. It runs exactly once, as the account of the transaction's signing key; its failure is the failure of the transaction, and the event names the account and the call.",
  RP, [("transact", "pallet/xrpl/src/lib.rs")])
HP = ["pallet/doughnut/src/lib.rs"]
P("H01", "A doughnut call is accepted only with its issuer's and holder's signatures",
  "A doughnut transaction is accepted only if the doughnut decodes completely, without trailing bytes, as version 1, is within its validity for its holder at the current block, carries its issuer's signature, and the holder signed exactly this call, doughnut, nonce, genesis hash and tip. It then acts for its holder's account; anything else is refused.",
  HP, [("check_self_contained / run_doughnut_common_validations", "pallet/doughnut/src/lib.rs")])
P("H02", "Doughnut calls use the holder's nonce and charge the doughnut's fee payer",
  "A doughnut transaction enters the pool and a block only if it names this chain, and the nonce and weight checks for the holder and the fee check for the doughnut's fee payer (or the payer's futurepass for futurepass calls) passed. It provides exactly the holder and nonce, waits for the previous nonce, runs once, only after these checks, and settles the fee afterwards.",
  HP, [("validate_self_contained / apply_self_contained / validate_params", "pallet/doughnut/src/lib.rs")])
P("H03", "Doughnuts run only permitted calls of trusted, unrevoked holders",
  "The call of a doughnut runs once as its issuer, only for a whitelisted holder, if neither the doughnut nor the holder was revoked, the issuer's signature verifies and its topping permits the call. A doughnut is revoked or restored only by its issuer, a holder only for the issuer who asks, and holders are whitelisted only by root; nothing else changes these lists.",
  HP, [("transact / revoke_doughnut / revoke_holder / update_whitelisted_holders", "pallet/doughnut/src/lib.rs")], over=("inputs", "histories"))
P("H04", "A doughnut's permissions are checked against the call that really runs",
  "A doughnut permits only transfers, futurepass creation, remarks and asset transfers, directly or inside fee-proxy and futurepass wrappers. The permission is checked for the innermost call, by its pallet and function name and all its arguments in their full value, and refused when the call is paused.",
  ["runtime/src/impls.rs"], [("DoughnutCallValidator", "runtime/src/impls.rs")])

RT = ["runtime/src/impls.rs", "runtime/src/lib.rs"]
P("T01", "EVM amounts map to the 6-decimal gas token without creating value",
  "Every EVM balance operation (burn, issue, transfer, withdraw, slash, deposit) is executed once on the gas token, on the same accounts and with the amount converted from 18 to 6 decimals, rounded up and saturating; failures are passed on, and a zero transfer does nothing. EVM balances are the reducible gas token balance times 10^12, and no one can be slashed through the EVM.",
  RT + ["pallet/common/src/utils.rs"], [("EvmCurrencyScaler", "runtime/src/impls.rs"), ("scale_wei_to_correct_decimals", "pallet/common/src/utils.rs")])
P("T02", "EVM fees are withdrawn in full, refunded and split between pot and author",
  "An EVM transaction's maximum fee is withdrawn from the sender's account before it runs, and nothing else is. Afterwards the sender is refunded exactly what exceeds the corrected fee, the base fee goes to the fee pot, and the rest is paid to the account of the block's author, the validator at the slot's author index.",
  RT, [("FutureverseEVMCurrencyAdapter", "runtime/src/impls.rs"), ("EthereumFindAuthor", "runtime/src/impls.rs")])
P("T03", "EVM addresses and runtime ids map one to one, and callers act only as themselves",
  "An EVM address acts as its own account, or as its default futurepass where it has one. An asset or collection id and its EVM address (a 4-byte class prefix followed by the id, zero padded) convert into each other only under their own prefix. Creating an asset gives exactly that address precompile code. An EVM call is dispatched only for the address that signed it.",
  RT, [("AddressMapping, ErcIdConversion, OnNewAssetSubscription, FutureverseEnsureAddressSame", "runtime/src/impls.rs")])
P("T04", "A bridge event reaches exactly the pallet its destination names",
  "A verified Ethereum event is given, with its source and data, exactly once to the pallet whose account is the event's destination (echo, ERC20 peg or NFT peg), and to no other; an event with another destination is an error, and a failure of the pallet is passed on.",
  RT, [("EthereumEventRouter", "runtime/src/impls.rs")])
P("T05", "Wrapped calls are restricted to what their wrapper may run",
  "A call counts as a futurepass call only if it is a futurepass proxy call, directly or inside the fee proxy; looking up a futurepass gives the one its holder owns, or its owner. Futurepasses never run XRPL-wrapped calls. A crowdsale vault runs only remark and the collection's metadata changes, and no wrapper runs paused calls. EVM transactions need the balance for their fee unless they go to the fee proxy address.",
  RT, [("FuturepassLookup, FuturepassCallValidator, CrowdsaleProxyVaultValidator, MaintenanceModeCallValidator, HandleTxValidation", "runtime/src/impls.rs")])
P("T06", "Self-contained transactions are checked and run by their own pallet",
  "Ethereum, XRPL and doughnut transactions, and no others, are self-contained; each is checked, validated, pre-dispatched and applied once by its own pallet with unchanged arguments, Ethereum ones dispatched with the recovered signer as origin. Ethereum transactions also pass the signed extensions' unsigned validation, and those to the fee proxy only if the sender owns the payment asset's worst case; a malformed one is refused without a panic.",
  ["runtime/src/lib.rs"], [("SelfContainedCall for RuntimeCall, validate_self_contained_inner, transaction_asset_check", "runtime/src/lib.rs")])
P("T07", "Runtime APIs report the chain's state unaltered",
  "The runtime APIs for the exchange, NFTs, SFTs, asset balances and the bridge's validator sets return exactly the pallets' answers for the given arguments, and an error instead of a truncated amount. The Ethereum APIs report chain id, gas price, author and account as the EVM sees them, and simulate a call or creation with exactly the given parameters, the gas limit capped at 64 bits, without checking the nonce.",
  ["runtime/src/lib.rs", "pallet/ethy/src/lib.rs"], [("impl_runtime_apis", "runtime/src/lib.rs")])
P("T13", "The bridge learns of the last session of an era exactly when it is",
  "The runtime tells the bridge that a session is its era's last one exactly if the staking pallet's current session is the era's start session plus the sessions per era minus one, or a new era is being forced; in every other session it says it is not. The bridge then hands its keys over once per era, before the validators change.",
  ["runtime/src/impls.rs"], [("StakingSessionTracker::is_active_session_final", "runtime/src/impls.rs")])
P("T14", "Off-chain workers sign exactly the transaction they submit",
  "A transaction made by an off-chain worker carries the given call, account and nonce, no tip, and a mortal era starting at the last block and at most the known block hashes long, in the extensions the runtime checks. Its signature is made with the given key over exactly that payload; if the payload or the signature fails there is no transaction.",
  ["runtime/src/impls.rs"], [("CreateSignedTransaction::create_transaction", "runtime/src/impls.rs")])
P("T15", "Genesis starts identifiers at one and installs the configured members",
  "At genesis the identifiers of assets, collections, marketplaces, listings and offers start at one, exactly the configured ERC20 metadata, XRPL relayers and door signers are installed, and the XRPL keys are the notary keys that are door signers, at most the maximum, taken after the signers are known. Genesis writes nothing else in these pallets.",
  ["pallet/assets-ext/src/lib.rs", "pallet/nft/src/lib.rs", "pallet/marketplace/src/lib.rs", "pallet/erc20-peg/src/lib.rs", "pallet/xrpl-bridge/src/lib.rs", "pallet/ethy/src/lib.rs"], [("BuildGenesisConfig implementations", "pallet/ethy/src/lib.rs")])
P("T16", "Block building and consensus APIs answer from the runtime itself",
  "The node's block calls run exactly once and unchanged in the runtime's executive: executing, initializing and finalizing a block, applying and validating an extrinsic, off-chain work. Inherents are made and checked from the given data. Keys, nonces and fee queries, the BABE configuration (genesis leader rate and slots, current authorities and randomness), epochs and GRANDPA authorities come from the pallets that own them. An equivocation report is submitted with its decoded proof, or not at all.",
  ["runtime/src/lib.rs"], [("impl_runtime_apis! Core, BlockBuilder, BabeApi, GrandpaApi, SessionKeys, TransactionPaymentApi", "runtime/src/lib.rs")], observe=("answers of the runtime APIs",))
P("T17", "Ethereum queries show the stored block, receipts, code and storage",
  "Code and storage of an address are read at exactly that address and big-endian slot; the current block, receipts and statuses are the stored ones. Filtering a block's extrinsics yields every Ethereum transaction and nothing else, and a converted transaction is the unsigned transact call with it. A pending block applies every given extrinsic, whatever their outcome, then finalizes the next block before it is read.",
  ["runtime/src/lib.rs"], [("impl_runtime_apis! EthereumRuntimeRPCApi, ConvertTransactionRuntimeApi", "runtime/src/lib.rs")], observe=("answers of the runtime APIs",))
P("T18", "Every call is open only to the origin it is meant for",
  "Of the 159 calls of the chain's own pallets, configuration calls succeed only for root (or the configured approval origin), the reward pallet's for its admin or root, machine calls only unsigned, and every other call only for a signer. Minting and burning assets hands the caller on, unchanged, to the assets pallet that checks it. No successful run of a call skips its check, whatever the arguments.",
  ["pallet"], [("#[pallet::call] of every pallet", "pallet")])
P("T19", "Every call is charged the weight measured for it",
  "Each call of the chain's own pallets declares the weight measured for it, taken at the actual number of items, delegates or payouts where it was measured per item, and the runtime takes each pallet's weights from that pallet's own measurements. A call that runs another call weighs at least as much as that call on top of its own weight and never leaves that call's dispatch class for a privileged one; only the XRPL bridge's operational calls use the operational class, and none is free.",
  ["pallet", "runtime/src/lib.rs"], [("#[pallet::weight] of every pallet", "pallet"), ("WeightInfo bindings", "runtime/src/lib.rs")])
P("T20", "A setting nobody has set takes its safe default",
  "Until set, deposits and withdrawals of the ERC20 peg are off and their delays on, the bridge challenges events for 150 blocks, wants three Ethereum confirmations and works off at most five delayed proofs a block, XRPL records are kept for 288,000 ledgers and the door fee is one XRP, migrations take at most 100 items a block, fees, fee receivers and chain id come from the runtime's configuration, and every other setting, counter and switch starts empty, zero or off.",
  ["pallet"], [("#[pallet::type_value] and the storage items of every pallet", "pallet")])
P("T21", "A call reports what it did by its event, once and with the true values",
  "Each call of the chain's own pallets that has an event of its own emits it once when it succeeds: new owners, transfers, mints, burns, listings, bids, offers, withdrawals, payments, delegates, bonds, blocks, prices and settings are reported with the caller, the tokens, assets, amounts and accounts that were given or recorded, and a withdrawal that is delayed or an entry that is removed is reported as that. No path of such a call succeeds silently or reports another value.",
  ["pallet"], [("#[pallet::call] and Event of every pallet", "pallet")], observe=("events",))
P("T08", "Token, asset and bridge pallets are wired to the pallets that guard them",
  "In the runtime, NFT and SFT transfers notify the token approvals pallet, new assets get their EVM code, and every pallet that moves assets or tokens does so through the asset and NFT pallets. ROOT, XRP and the vortex token are three different assets, each used where its role requires, balances are kept without freezing or dust hooks, and the default fee receiver is the fee pot.",
  ["runtime/src/lib.rs", "runtime/src/constants.rs"], [("Config implementations", "runtime/src/lib.rs")], text="every pallet configuration of the runtime", over=("inputs",))
P("T09", "Pallet indices, pot accounts, EVM addresses and selectors never collide",
  "All pallets have distinct explicit indices and distinct pot accounts. The precompile addresses and address prefixes are distinct and the published ones, outside the Ethereum builtins, and the fee proxy's selectors are the hashes of its documented signatures.",
  ["runtime/src/lib.rs", "evm-precompiles/utils/src/constants.rs"], [("construct_runtime, PalletId constants, precompile addresses", "runtime/src/lib.rs")], text="all indices, accounts, addresses and selectors declared in the source", over=("inputs",))
P("T10", "Precompiles run only at their address, unnested and never by DELEGATECALL",
  "Each precompile is reachable at exactly its own address or prefix. It runs at most once per call, only when called there, and not above its nesting limit. None of the chain's own precompiles can be run through DELEGATECALL or CALLCODE, where it would act for the calling contract's caller; only the Ethereum builtins can.",
  ["runtime/src/precompiles.rs", "evm-precompiles/utils/src/precompile_set.rs"], [("FutureversePrecompiles", "runtime/src/precompiles.rs"), ("PrecompileSetFragment::execute", "evm-precompiles/utils/src/precompile_set.rs")])
P("T11", "Every transaction passes the fee, maintenance and replay checks",
  "Signed transactions carry the sender, spec, transaction version, genesis, era, nonce, weight, maintenance and fee checks. Fees are computed by fee control, charged in XRP through the fee proxy and collected in the fee pot; staking rewards come from it. Blocked calls are filtered, EVM gas uses the same currency, scaled, and withdrawals from EVM accounts are never possible. XRPL, doughnut, futurepass and proxy calls use the runtime's own call filters.",
  ["runtime/src/lib.rs"], [("SignedExtra and Config implementations", "runtime/src/lib.rs")], text="every pallet configuration of the runtime", over=("inputs",))
P("T12", "Governance needs root, and consensus parameters fit together",
  "Forced asset changes, scheduling, preimages, bridge approvals, chain id, staking and election administration need root. The bridge's validators come from the historical session set, offences and equivocations reach staking, and a bridge proof needs a two-thirds majority. Slots, epochs and eras fit together, slashing ends before unbonding, equivocations stay reportable while bonded, bags ascend, and slashed funds go to the slash pot in full.",
  ["runtime/src/lib.rs", "runtime/src/constants.rs", "runtime/src/impls.rs", "runtime/src/bag_thresholds.rs"], [("Config implementations and parameters", "runtime/src/lib.rs"), ("SlashImbalanceHandler", "runtime/src/impls.rs")], text="every pallet configuration and parameter of the runtime", over=("inputs",))

P("O01", "Approvals come from the owner, are spent at most once, end with the token",
  "A single-token approval is recorded only when the calling account owns the token or is approved for all of the owner's collection, and is removed only by the owner or when the token moves. ERC20 allowances are recorded per owner, asset and spender, spending reduces them by exactly the amount and never below zero. Approve-for-all is set and removed by its own account. Approval calls can come from no transaction. A spender may move a token iff owner, approved for it, or for all.",
  ["pallet/token-approvals/src/lib.rs"], [("calls, is_approved_or_owner, on_nft_transfer", "pallet/token-approvals/src/lib.rs")])
P("O02", "Echo answers each ping once, to its sender, with the same session",
  "Every ping takes a fresh session number, sends one bridge message carrying it and the destination, and reports it. A received ping is answered by exactly one pong with the same session and destination, a received pong is only reported, and any other message is refused.",
  ["pallet/echo/src/lib.rs"], [("ping", "pallet/echo/src/lib.rs"), ("on_event", "pallet/echo/src/lib.rs")])
P("O03", "Multi-block migrations run once, step by step, from where they stopped",
  "Only root controls migrations. An upgrade starts a migration when the version check demands one and none is running. Steps run only while in progress, enabled and in a permitted block, at most the block limit of them and only while below the weight limit; each continues from the key the previous one returned, across blocks. Progress is counted exactly, completion runs once and clears the key, and guarded calls are refused meanwhile.",
  ["pallet/migration/src/lib.rs"], [("migrate, on_runtime_upgrade, ensure_migrated", "pallet/migration/src/lib.rs")])
P("O04", "Collection and asset ids are unique per chain; chain id is the approved one",
  "A new asset or collection id combines its 22-bit sequence number with the 10-bit parachain id, without overlap, and is refused when either does not fit. The EVM chain id is the stored one and changes only with the approving origin.",
  ["pallet/common/src/utils.rs", "pallet/evm-chain-id/src/lib.rs"], [("next_asset_uuid", "pallet/common/src/utils.rs"), ("set_chain_id, Get<u64>", "pallet/evm-chain-id/src/lib.rs")])

P("Z01", "No transaction, block hook or bridge message can panic the runtime",
  "Whatever a transaction, an unsigned submission, a message from Ethereum or the XRP Ledger, or an on-chain state reachable through them contains, no call, hook, validity check, message handler, offchain worker or decoder of the chain's own pallets and runtime reaches a failing unwrap or expect, an explicit panic, an out-of-range index or slice, a division by zero or a narrowing that does not fit.",
  ["pallet/*/src/**/*.rs", "runtime/src/*.rs"], [("every call, hook and handler", "pallet/*/src/**/*.rs")], text="every call, hook, message handler, validity check and decoder", over=("inputs", "histories"))
P("Z02", "No Solidity call can panic a precompile",
  "Whatever call data, value, caller or contract reply a precompile meets, decoding, executing and answering end in success or a revert: no function of any precompile and none of the shared decoding code reaches a failing unwrap or expect, an explicit panic, an out-of-range index or slice, a division by zero or a narrowing that does not fit.",
  ["evm-precompiles/*/src/**/*.rs"], [("execute of every precompile", "evm-precompiles/*/src/lib.rs"), ("EvmDataReader, read_args, try_dispatch", "evm-precompiles/utils/src")], text="every Solidity function and the shared decoding code", over=("inputs",))
P("Y01", "Every Solidity function decodes, guards, charges and logs as its ABI says",
  "Every function decodes exactly the argument types of its signature, refuses value unless payable, never changes state or logs in a static call, refuses numbers that do not fit the runtime's types instead of clamping them, and acts with a signer (only approval calls go without). A dispatched call must fit the remaining gas beforehand and is charged afterwards, direct calls and EVM runs are charged, a failed inner call makes the function fail, and each log carries its event's signature, is recorded and is paid for.",
  ["evm-precompiles/*/src/**/*.rs"], [("every Action", "evm-precompiles/*/src/lib.rs"), ("try_dispatch", "evm-precompiles/utils/src/substrate.rs")], text="every Solidity function of every precompile", over=("inputs",))
P("Y02", "The ERC20 precompile moves the caller's tokens or spends its allowance",
  "transfer moves the caller's balance of the token behind the address to the recipient; transferFrom first spends the caller's allowance from the owner and then moves the owner's balance; approve records the caller as owner. Each replies true and logs the event of the standard with the same parties and amount. Views answer from the same asset: balance, supply, allowance, name, symbol and decimals.",
  ["evm-precompiles/erc20/src/lib.rs"], [("Erc20PrecompileSet", "evm-precompiles/erc20/src/lib.rs")], over=("inputs",))
P("Y03", "The ERC721 precompile moves only tokens its caller owns or was approved for",
  "Transfers and burns need the caller to be owner or approved, act on the named owner, collection and token, and log that. A safe transfer asks a receiving contract and fails unless it answers with its selector. Approvals are recorded in the caller's name. Mint, owner, supply, fee, base URI, public mint and XLS-20 functions act as the caller on the collection behind the address, with the arguments given, log them and reply true. Views answer from that collection's own record.",
  ["evm-precompiles/erc721/src/lib.rs"], [("Erc721PrecompileSet", "evm-precompiles/erc721/src/lib.rs")], over=("inputs",))
P("Y04", "The ERC1155 precompile moves only tokens its caller owns or was approved for",
  "Transfers and burns, single or in batches, need the caller to be the owner or approved for all by the owner, act on the named owner, collection, ids and amounts pair by pair, and log them. A safe transfer asks a receiving contract and fails unless it answers with its selector. Lists of unequal length are refused. Create, mint, owner, supply, fee, URI and public mint functions act as the caller on the collection behind the address, with the arguments given. Views answer from that collection.",
  ["evm-precompiles/erc1155/src/lib.rs"], [("Erc1155PrecompileSet", "evm-precompiles/erc1155/src/lib.rs")], over=("inputs",))

P("Y05", "The exchange precompile passes a trade on exactly as its caller stated it",
  "Adding and removing liquidity and every kind of swap act as the caller, on the assets behind the token addresses in the order given, with the amounts, limits, receiver and deadline given, each once, and report what the exchange returned in the answer and in the Mint, Burn or Swap logs (one per hop, naming the pair of that hop). A non-empty path is never dropped. Value sent along with a call is spent by that call, not charged to the caller a second time. Quotes answer what the exchange computes for the same numbers and path.",
  ["evm-precompiles/dex/src/lib.rs"], [("DexPrecompile", "evm-precompiles/dex/src/lib.rs")], over=("inputs",))

P("Y06", "The marketplace precompile lists, sells and bids exactly as its caller stated",
  "Selling, auctioning, buying, bidding, cancelling, re-pricing, and making, cancelling and accepting offers act as the caller, once, with the collection, tokens, buyer, asset, price, duration and marketplace given; an optional argument left at zero means none and any other value is passed on; token ids and quantities of a semi-fungible listing are paired and of equal number. The log tells the seller, buyer, price and tokens of the listing or offer acted on, read before it is removed. Re-pricing refuses auctions and bidding refuses fixed-price sales. Registering a marketplace gives it to the account named, or to the caller. Views answer from the listing or offer asked for.",
  ["evm-precompiles/marketplace/src/lib.rs"], [("MarketplacePrecompile", "evm-precompiles/marketplace/src/lib.rs")], over=("inputs",))

P("Y07", "Collection-creating and bridge precompiles do what the caller stated, once",
  "Initialising an NFT or SFT collection gives it to the owner named, with the name, limits, metadata and royalties given (recipients and shares paired, of equal number; none when empty), and answers the address of the collection made. Withdrawing ERC20 or ERC721 tokens to Ethereum burns the caller's own tokens, of the assets or collections behind the addresses, in the amounts or serials given, to the destination given, in one bridge message whose id is answered and logged.",
  ["evm-precompiles/nft/src/lib.rs", "evm-precompiles/sft/src/lib.rs", "evm-precompiles/peg/src/lib.rs"],
  [("NftPrecompile", "evm-precompiles/nft/src/lib.rs"), ("SftPrecompile", "evm-precompiles/sft/src/lib.rs"), ("PegPrecompile", "evm-precompiles/peg/src/lib.rs")], over=("inputs",))

P("Y08", "A futurepass contract changes delegates and ownership only of itself",
  "Registering (with the delegate's signature) and removing a delegate act on the futurepass whose address was called, as the caller, with the arguments given. Transferring or renouncing ownership through a futurepass's address concerns that futurepass, which the caller holds: the call is refused on the address of anyone else's. The registrar creates a futurepass for the owner named. Owner, delegate type and futurepass-of answer from the registry, and zero where there is none; each change is logged by the contract called. Receiving value changes nothing else.",
  ["evm-precompiles/futurepass/src/lib.rs", "evm-precompiles/futurepass-registrar/src/lib.rs"],
  [("FuturePassPrecompile", "evm-precompiles/futurepass/src/lib.rs"), ("FuturePassRegistrarPrecompile", "evm-precompiles/futurepass-registrar/src/lib.rs")], over=("inputs",))

P("Y09", "Call data is decoded as the Solidity ABI lays it out, within its bounds",
  "A word is the 32 bytes at the cursor, which moves past them; an address is its last 20 bytes, a number its big-endian value and refused if it does not fit its type, a bool any non-zero word. A pointer leads to data inside the same container or is refused; byte strings and lists take their length from there, refuse more than their bound or than the data holds, and read exactly that many bytes or items in order from just after the length. Tuples are read in place if all parts are of fixed size and behind a pointer otherwise. The selector is the first four bytes, big-endian; arguments follow it, and fewer than a function takes are refused. Nothing else is refused.",
  ["evm-precompiles/utils/src/data/mod.rs", "evm-precompiles/utils/src/handle.rs"], [("EvmDataReader, EvmData::read, read_args!", "evm-precompiles/utils/src/data/mod.rs")], text="every call data and every decoded type", over=("inputs",),
  why="Round-trip tests of the codec sample a few values and well-formed inputs, and are not built by the stable test suite; truncated, oversized and maliciously placed pointers are unbounded in number.")

P("Y10", "Answers, log data and call data are written as the Solidity ABI lays them out",
  "Words are written as 32 big-endian bytes (addresses and numbers padded on the left, 32-byte strings on the right, bools as 0 or 1). Byte strings and lists leave a placeholder and are appended at the end as their length, then their bytes padded with zeros to whole words or their items in order; every placeholder is overwritten by the distance from the start of its container to its data, also for items of lists. Tuples are written in place if all parts are of fixed size and behind a pointer otherwise. The selector, if any, is put in front.",
  ["evm-precompiles/utils/src/data/mod.rs"], [("EvmDataWriter, EvmData::write", "evm-precompiles/utils/src/data/mod.rs")], text="every encoded type and value", over=("inputs",),
  why="Round-trip tests of the codec sample a few values, and are not built by the stable test suite; nested dynamic values are unbounded in number.")

P("Y11", "Function selectors and event signatures are Keccak-256 hashes of their text",
  "The selector written for a Solidity function is the big-endian number of the first four bytes of the Keccak-256 hash of its whole signature, and stands for the variant that carries that signature; decoding it back yields that variant. The hash written for a text is the whole Keccak-256 hash of it, byte for byte.",
  ["evm-precompiles/utils/macro/src/lib.rs"], [("generate_function_selector, keccak256!", "evm-precompiles/utils/macro/src/lib.rs")], text="every signature and every enum the macros are applied to", over=("inputs",),
  why="The macro's tests compare a couple of known selectors.")

P("K01", "A signature is valid only if its key hashes to the signer's account",
  "A signature verifies a message for an account iff the public key recovered from it over one of three digests hashes (last 20 bytes of Keccak-256) to exactly that account: Keccak-256 of the message, of the Ethereum signed form of the message, or of the signed form of the message's Blake2-256 hash. The signed form is the Ethereum prefix, the length in decimal and the message. An unrecoverable signature never verifies. Account ids of ECDSA keys come from the uncompressed key without its first byte, and keys that do not parse give none.",
  ["primitives/src/signature.rs"], [("EthereumSignature::verify, verify_signature, AccountId20, EthereumSigner", "primitives/src/signature.rs")], text="every message, signature, key and account", over=("inputs",), observe=("answers of verify and account ids derived from keys",))
P("K02", "Royalties never exceed the price, and token metadata is its scheme and serial",
  "A royalties schedule is valid iff it has at least one and at most 8 entitlements whose shares sum to no more than 100%. The total entitlement of a valid schedule is exactly the sum of its shares, and of an invalid one zero. A token's URI is its collection's scheme followed by the serial number, and a scheme beyond its length limit is refused.",
  ["primitives/src/nft.rs"], [("RoyaltiesSchedule, MetadataScheme", "primitives/src/nft.rs")], text="every schedule, scheme and serial number", over=("inputs",), observe=("answers of validate, calculate_total_entitlement and construct_token_uri",))
P("K03", "Bridge keys, chain ids and expanded proofs match what the bridged chains expect",
  "Ethereum is chain 1 and XRPL chain 2. A validator's index is its position in the set. A proof's signature count is the number of signatures that are not empty; expanded to n signatures it has n entries, each signature at its validator's index and empty ones elsewhere, and indexes beyond n are left out. A bridge key gives its Ethereum address, compressed form and XRPL account id by the standard hashes of the parsed key, and zeros if it does not parse.",
  ["primitives/src/ethy.rs"], [("EthyChainId, ValidatorSet, EventProof, EthyEcdsaToEthereum, EthyEcdsaToPublicKey, EthyEcdsaToXRPLAccountId", "primitives/src/ethy.rs")], text="every key, validator set and proof", over=("inputs",), observe=("converted keys, ids and expanded signatures",))

P("W01", "A bridge witness counts only for what its validator signed about this event",
  "A witness received from another node is counted for an event only if the event is not completed (not among the completed events nor at or below their watermark), this authority has not been counted for it yet, the local node knows the event's data from a finalised block, the witness's digest equals the one computed locally from that data (for XRPL with the validator's own key), the signature over it verifies against the authority's key, and the authority is in the validator set. It is kept once, with the validator's index, sorted by it, and the authority is remembered. A witness whose event data is not known yet is only set aside; a refused one changes nothing.",
  ["ethy-gadget/src/witness_record.rs", "ethy-gadget/src/types.rs", "ethy-gadget/src/keystore.rs"], [("WitnessRecord::note_event_witness, data_to_digest, EthyKeystore::verify_prehashed", "ethy-gadget/src/witness_record.rs")],
  text="every witness and every state of the record", over=("inputs", "histories"), observe=("answer of note_event_witness and signatures recorded",),
  why="The gadget's tests are not built by the stable test suite and play a few fixed witnesses; every combination of forged digest, foreign authority, replay and order of arrival must be refused.")

P("W02", "A bridge proof is made once a quorum of validators signed, never without",
  "An event has consensus iff the number of counted signatures is at least the threshold of its chain's validator set, and at least one: all counted witnesses against the validator set's threshold for Ethereum, only those of validators that are XRPL signers against the signer set's threshold for XRPL. A proof is stored only for an event whose data is known and that has consensus, after the witnesses set aside for it were looked at, under the key of the engine, its chain and event id, and holds that event's signatures, block and the validator set's id. Only a proved event is marked complete.",
  ["ethy-gadget/src/witness_record.rs", "ethy-gadget/src/worker.rs", "ethy-gadget/src/types.rs"], [("WitnessRecord::has_consensus, EthyWorker::try_make_proof, make_proof_key", "ethy-gadget/src/worker.rs")],
  text="every event, set of signatures and validator set", over=("inputs", "histories"), observe=("proofs stored by the node",),
  why="The gadget's tests are not built by the stable test suite and try two or three signatures with fixed thresholds; a set that is not known yet or a non-signer's signature only shows in states they do not build.")

P("W03", "The witness record keeps the first event data and forgets only completed events",
  "Event data once noted is not replaced. The signatures of an event are exactly those recorded for it. Completing an event drops its witnesses, data and voters, and adds it once, in order, to the completed events, which are compacted only from the front, past events that follow one another without a gap, keeping at least two. Witnesses set aside for an event are each noted again, once, when its data is known. New validator sets replace the old ones.",
  ["ethy-gadget/src/witness_record.rs"], [("WitnessRecord::{note_event_metadata, mark_complete, signatures_for, process_unverified_witnesses, set_validators}, compact_sequence", "ethy-gadget/src/witness_record.rs")],
  text="every history of events and witnesses", over=("inputs", "histories"), observe=("events and witnesses the node still accepts",),
  why="The gadget's tests are not built by the stable test suite and complete a handful of events; a watermark that jumps over a gap rejects an open event only in histories they do not build.")

P("W04", "Only fresh, signed witnesses of active validators are relayed",
  "A gossip message is processed and kept iff it decodes to a witness whose authority is an active validator not yet seen for that event, whose signature over its digest verifies, and whose block is no older than 90 blocks before the last finalised one; anything else is discarded. A node witnesses only with a validator key its own keystore holds.",
  ["ethy-gadget/src/gossip.rs", "ethy-gadget/src/keystore.rs"], [("GossipValidator::validate, EthyKeystore::authority_id", "ethy-gadget/src/gossip.rs")],
  text="every message from every peer", over=("inputs", "histories"), observe=("verdict of validate",),
  why="The gadget's tests are not built by the stable test suite and send a few messages; a message from any peer is arbitrary bytes.")

P("W05", "Each finalised block's proof requests are witnessed once, with the own key",
  "Finalised blocks are handled in order: one not newer than the best is ignored, and the parents of a block that skips ahead are handled first. The validator sets are renewed from the runtime when the block says they changed or none is known, for the record and the gossip filter alike. For each proof request among the block's ethy digest items, a validator signs the digest of the request's data with its own key and handles a witness for that event, chain, validator set and block, after noting the event's data; a node without a key notes the data and tries to make the proof. A witness is relayed, and a proof attempted, exactly when the record accepted it.",
  ["ethy-gadget/src/worker.rs", "ethy-gadget/src/keystore.rs"], [("EthyWorker::{handle_finality_notification, handle_finality_notification_active, handle_finality_notification_passive, handle_witness}, extract_proof_requests", "ethy-gadget/src/worker.rs")],
  text="every sequence of finalised blocks and witnesses", over=("inputs", "histories"), observe=("witnesses gossiped and event data noted",),
  why="The gadget's tests are not built by the stable test suite and feed one or two notifications; skipped blocks, set changes and failed signatures combine without bound.")
P("W06", "Relayers get the recorded proof with the validators that made it",
  "The proof RPCs look up exactly the proof recorded for the given event and chain, and report nothing if there is none. An Ethereum response has the proof's event, block, every validator's address in set order and each one's signature or an empty one at its place; an XRPL response has only the signatures of validators that were XRPL signers at the proof's block, DER encoded with low S, and their keys in the same order.",
  ["ethy-gadget/rpc/src/lib.rs"], [("get_event_proof, get_xrpl_tx_proof, build_event_proof_response, build_xrpl_tx_proof_response", "ethy-gadget/rpc/src/lib.rs")])
