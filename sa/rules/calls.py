"""The dispatchable calls of every pallet: who may make them, and what they are charged for."""
from .base import *
from sa.model import FnDef
from .wiring import types, wired
from .vortex import ADMIN

# calls that are not for any signer
ROOT = {
    "pallet-assets-ext": ("set_asset_deposit",),
    "pallet-xrpl-bridge": ("set_payment_delay", "set_door_tx_fee", "set_xrp_source_tag", "set_ticket_sequence_current_allocation",
                           "reset_settled_xrpl_tx_data", "prune_settled_ledger_index", "set_xrpl_asset_map"),
    "pallet-fee-control": ("set_evm_base_fee", "set_weight_multiplier", "set_length_multiplier"),
    "pallet-marketplace": ("set_fee_to",),
    "pallet-erc20-peg": ("activate_deposits", "activate_withdrawals", "activate_deposits_delay", "activate_withdrawals_delay", "set_erc20_peg_address",
                         "set_root_peg_address", "set_erc20_meta", "set_erc20_asset_map", "set_payment_delay", "claim_delayed_payment"),
    "pallet-ethy": ("set_xrpl_door_signers", "set_relayer", "set_event_block_confirmations", "set_delayed_event_proofs_per_block",
                    "set_challenge_period", "set_contract_address", "set_bridge_paused", "remove_missing_event_id"),
    "pallet-nft": ("claim_unowned_collection",),
    "pallet-maintenance-mode": ("enable_maintenance_mode", "block_account", "block_evm_target", "block_call", "block_pallet"),
    "pallet-nft-peg": ("set_contract_address",),
    "pallet-dex": ("set_fee_to", "reenable_trading_pair", "disable_trading_pair"),
    "pallet-xls20": ("set_relayer", "set_xls20_fee", "set_collection_mappings"),
    "pallet-migration": ("enable_migration", "set_block_delay", "set_block_limit"),
    "pallet-vortex-distribution": ("set_admin",),
    "pallet-nfi": ("set_relayer", "set_fee_to", "set_fee_details"),
    "pallet-doughnut": ("update_whitelisted_holders",),
}
UNSIGNED = {
    "pallet-crowdsale": ("distribute_crowdsale_rewards",),
    "pallet-token-approvals": ("erc721_approval", "erc20_approval", "erc20_update_approval", "erc721_approval_for_all", "erc1155_approval_for_all"),
    "pallet-xrpl": ("transact",),
    "pallet-ethy": ("finalise_authorities_change", "submit_notarization"),
    "pallet-vortex-distribution": ("pay_unsigned",),
    "pallet-doughnut": ("transact",),
}
APPROVE = {"pallet-xrpl-bridge": ("add_relayer", "remove_relayer", "set_door_address"), "pallet-evm-chain-id": ("set_chain_id",)}
ADMINS = {"pallet-vortex-distribution": ("create_vtx_dist", "disable_vtx_dist", "start_vtx_dist", "set_vtx_dist_eras", "set_asset_prices",
                                         "register_rewards", "trigger_vtx_distribution")}
# calls that hand the caller on to pallet-assets, which checks it
HANDED = {"pallet-assets-ext": {"mint": "pallet_assets::mint", "burn_from": "pallet_assets::burn"}}
KINDS = (("origin('root')", ROOT), ("origin('none_origin')", UNSIGNED), ("origin('origin:ApproveOrigin')", APPROVE), (ADMIN, ADMINS))
BIG = (("pallet-dex", "do_swap_with_exact_supply"), ("pallet-dex", "do_swap_with_exact_target"), ("pallet-dex", "do_add_liquidity"))


def calls(ctx):
    for f in ctx.m.fns_all():
        if f.is_call and any("pallet::" in a["p"] for a in f.attrs):
            yield f


@prop("T18")
def origins(ctx):
    r = "T18"
    want = {(c, n): k for k, tab in KINDS for c, ns in tab.items() for n in ns}
    seen = set()
    n = 0
    for f in calls(ctx):
        key = (f.crate.name, f.name)
        seen.add(key)
        n += 1
        e = ctx.analyse(f, opaque=BIG)
        to = HANDED.get(key[0], {}).get(key[1])
        if to:
            e.must("%s.%s.%s" % (r, key[0], key[1]), "call('%s', P0, ...)" % to, count=1)
            continue
        e.req("%s.%s.%s" % (r, key[0], key[1]), want.get(key, "origin('signer')"))
    for c, f in set(want) - seen:
        ctx.violation("anchor", "%s::%s" % (c, f), "the privileged call is not among the pallet's calls")
    ctx.check(r + ".calls", "runtime", n >= 150, "only %d calls found in the pallets" % n)


# the weight function of a call, where it is not named like the call
ALIAS = {
    "burn_from": ("burn",), "withdraw_xrp_with_destination_tag": ("withdraw_xrp",), "set_length_multiplier": ("set_weight_multiplier", "set_length_multiplier"),
}
SPECIAL = {("pallet-xrpl-bridge", "withdraw"), ("pallet-marketplace", "sell"), ("pallet-marketplace", "auction"), ("pallet-fee-proxy", "call_with_fee_preferences")}
# calls whose work grows with a list or a number of delegates, and what their weight is taken for
SIZED = {
    ("pallet-marketplace", "sell_nft"): "len(P2)", ("pallet-marketplace", "auction_nft"): "len(P2)", ("pallet-marketplace", "buy_multi"): "len(P1)",
    ("pallet-ethy", "set_xrpl_door_signers"): "len(P1)", ("pallet-xls20", "set_collection_mappings"): "len(P1)", ("pallet-sft", "transfer"): "len(P2)",
    ("pallet-vortex-distribution", "set_asset_prices"): "len(P1)",
    ("pallet-futurepass", "register_delegate_with_signature"): "len(call('Proxy::delegates', P1))",
    ("pallet-futurepass", "unregister_delegate"): "len(call('Proxy::delegates', P1))",
    ("pallet-futurepass", "proxy_extrinsic"): "len(call('Proxy::delegates', P1))",
}
INNER = {("pallet-xrpl", "transact"): 3, ("pallet-doughnut", "transact"): 1, ("pallet-crowdsale", "proxy_vault_call"): 2,
         ("pallet-futurepass", "proxy_extrinsic"): 2, ("pallet-fee-proxy", "call_with_fee_preferences"): 3}
OPERATIONAL = {"pallet-xrpl-bridge": ("submit_transaction", "set_payment_delay", "add_relayer", "remove_relayer", "set_door_tx_fee", "set_xrp_source_tag",
                                      "set_door_address", "set_ticket_sequence_next_allocation", "set_ticket_sequence_current_allocation",
                                      "prune_settled_ledger_index")}


def weight_fn(f):
    """the weight a call declares, as a function of its arguments"""
    w = [a for a in f.attrs if a["p"].endswith("::weight") or a["p"] == "weight"]
    if len(w) != 1 or not w[0].get("a"):
        return None
    g = FnDef()
    for k in FnDef.__slots__:
        setattr(g, k, getattr(f, k))
    a = w[0]["a"]
    g.body = [{"k": "Expr", "e": a[0] if len(a) == 1 else {"k": "Tuple", "a": a}, "semi": False, "l": f.line}]
    g.ret, g.attrs, g.is_call = None, [], False
    return g


@prop("T19")
def weights(ctx):
    r = "T19"
    n = 0
    found = set()
    for f in calls(ctx):
        key = (f.crate.name, f.name)
        found.add(key)
        rr = "%s.%s.%s" % (r, key[0], key[1])
        g = weight_fn(f)
        if g is None:
            ctx.violation(rr, f.qual, "the call declares no weight that can be read")
            continue
        n += 1
        e = ctx.analyse(g)
        own = "alt(%s)" % ", ".join("call('*WeightInfo::%s', ...)" % x for x in ALIAS.get(f.name, (f.name, f.name)))
        if key not in SPECIAL:
            e.returns(rr, "has(%s)" % own, traces="all")
        if key in SIZED:
            e.returns(rr + ".size", "has(call('*WeightInfo::*', has(%s)))" % SIZED[key], traces="all")
        inner = INNER.get(key)
        if inner is None:
            inner = next((i for i, (p, t) in enumerate(f.params) if "RuntimeCall" in str(t) and "'n': 'Box'" in str(t)), None)
        if inner is not None:
            d = "mc('get_dispatch_info', P%d)" % inner
            e.returns(rr + ".inner", "alt({0}, ({0}, _))".format("has(%s.weight)" % d), traces="all")
            for t in e.all:
                if t.val.op == "tup":
                    e.returns(rr + ".class", "(_, has(%s))" % d, traces=[t])
            e.returns(rr + ".sum", "alt({0}, ({0}, _))".format("alt(op('sat+', ...), _ + _, %s.weight)" % d), traces="all")
        elif any(t.val.op == "tup" for t in e.all):
            ctx.check(rr + ".class", f.qual, f.name in OPERATIONAL.get(key[0], ()), "the call is put in another dispatch class")
    for key in set(SIZED) | set(INNER) | SPECIAL:
        if key not in found:
            ctx.violation("anchor", "%s::%s" % key, "call not found")
    e = ctx.analyse(weight_fn(ctx.fn("pallet-xrpl-bridge", "withdraw")))
    e.returns(r + ".withdraw.asset", "call('*WeightInfo::withdraw_asset')", unless="P1 == cfg.XrpAssetId")
    e.returns(r + ".withdraw.xrp", "call('*WeightInfo::withdraw_xrp')", when="P1 == cfg.XrpAssetId")
    for fn in ("sell", "auction"):
        e = ctx.analyse(weight_fn(ctx.fn("pallet-marketplace", fn)))
        for k in ("Nft", "Sft"):
            e.returns(r + "." + fn, "call('*WeightInfo::%s_%s', has(len(vp(P1, '%s', 0).serial_numbers)))" % (fn, k.lower(), k), when="isv(P1, '%s')" % k)
    e = ctx.analyse(weight_fn(ctx.fn("pallet-xrpl-bridge", "reset_settled_xrpl_tx_data")))
    e.returns(r + ".reset", "call('*WeightInfo::*', has(len(P4.q)))", when="good(P4)")
    e = ctx.analyse(weight_fn(ctx.fn("pallet-xrpl-bridge", "prune_settled_ledger_index")))
    led = "SettledXRPTransactionDetails[P1]"
    e.returns(r + ".prune", "has(call('*WeightInfo::*', has(len(%s.q))))" % led, when="good(%s)" % led)
    e = ctx.analyse(weight_fn(ctx.fn("pallet-futurepass", "transfer_futurepass")))
    e.returns(r + ".futurepass", "call('*WeightInfo::*', has(len(call('Proxy::delegates', Holders[P1].q))))", when="good(Holders[P1])")
    e = ctx.analyse(weight_fn(ctx.fn("pallet-vortex-distribution", "pay_unsigned")))
    e.returns(r + ".payout", "both(has(cfg.PayoutBatchSize), has(call('*WeightInfo::pay_unsigned')))")
    ctx.check(r + ".calls", "runtime", n >= 150, "only %d weights of calls found" % n)
    own = {c.replace("-", "_") for c, _ in found} - {"pallet_fee_proxy"}
    for pal, d in sorted(types(ctx).cfg.items()):
        for k in ("WeightInfo", "NftPegWeightInfo"):
            got = d.get(k)
            if got is not None and ("::" in got or pal in own):
                ctx.check(r + ".bound", "Runtime as %s::Config" % pal, "::" in got and got.split("::")[-2] in (pal, "weights"), "%s is %s" % (k, got))
    ctx.check(r + ".bound", "runtime", own <= set(types(ctx).cfg), "not configured: %s" % sorted(own - set(types(ctx).cfg)))
