"""The runtime's wiring: configuration of the pallets, identifiers, precompile set, EVM address guards."""
from .base import *
from ..wiring import Types, keccak256

CR = "seed-runtime"


def types(ctx):
    t = getattr(ctx.m, "_types", None)
    if t is None:
        t = ctx.m._types = Types(ctx.m, CR)
        t.cfg = t.config()
    return t


def wired(ctx, r, table):
    t = types(ctx)
    for pal, items in table.items():
        d = t.cfg.get(pal)
        if d is None:
            ctx.violation("anchor", pal, "the runtime does not configure the pallet")
            continue
        for k, v in items.items():
            got = d.get(k)
            want = v if isinstance(v, (tuple, list, set)) else (v,)
            ctx.check(r, "Runtime as %s::Config" % pal, got in want, "%s is %s, not %s" % (k, got, " or ".join(want)))
    ctx.note(CR, r, sum(len(x) for x in table.values()), "associated types of %d pallet configurations" % len(table))


def value(ctx, r, n, want=None):
    t = types(ctx)
    v = t.const(n)
    ctx.check(r, CR + "::" + n, v is not None and (want is None or v == want), "the constant is %s%s" % (v, "" if want is None else ", not %s" % (want,)))
    return v


@prop("T08")
def asset_wiring(ctx):
    r = "T08"
    sub = {"OnTransferSubscription": "TokenApprovals", "OnNewAssetSubscription": "OnNewAssetSubscription", "MultiCurrency": "AssetsExt", "NFIRequest": "Nfi"}
    wired(ctx, r + ".tokens", {
        "pallet_nft": dict(sub, PalletId="NftPalletId", ParachainId="WorldId", Xls20MintRequest="Xls20"),
        "pallet_sft": dict(sub, PalletId="SftPalletId", ParachainId="WorldId", NFTExt="Nft"),
        "pallet_nfi": {"MultiCurrency": "AssetsExt", "NFTExt": "Nft", "SFTExt": "Sft", "ChainId": "EVMChainId"},
        "pallet_xls20": {"MultiCurrency": "AssetsExt", "NFTExt": "Nft", "NFTCollectionInfo": "Nft", "NFTMinter": "Nft", "Xls20PaymentAsset": "XrpAssetId", "PalletId": "Xls20PalletId"},
        "pallet_token_approvals": {"NFTExt": "Nft"},
        "pallet_marketplace": {"MultiCurrency": "AssetsExt", "NFTExt": "Nft", "SFTExt": "Sft", "PalletId": "MarketplacePalletId"},
        "pallet_crowdsale": {"MultiCurrency": "AssetsExt", "NFTExt": "Nft", "PalletId": "CrowdSalePalletId", "ProxyCallValidator": "CrowdsaleProxyVaultValidator"},
        "pallet_nft_peg": {"NFTMinter": "Nft", "EthBridge": "EthBridge", "PalletId": "NftPegPalletId"},
    })
    wired(ctx, r + ".assets", {
        "pallet_assets_ext": {"NativeAssetId": "RootAssetId", "ParachainId": "WorldId", "OnNewAssetSubscription": "OnNewAssetSubscription", "PalletId": "AssetsExtPalletId"},
        "pallet_assets": {"Currency": "Balances", "Freezer": "()", "Extra": "()", "ForceOrigin": "EnsureRoot<AccountId>"},
        "pallet_balances": {"AccountStore": "System", "DustRemoval": "()"},
        "pallet_dex": {"MultiCurrency": "AssetsExt", "DEXBurnPalletId": "DEXBurnPalletId"},
        "pallet_erc20_peg": {"MultiCurrency": "AssetsExt", "EthBridge": "EthBridge", "NativeAssetId": "RootAssetId", "PegPalletId": "PegPalletId"},
        "pallet_vortex_distribution": {"MultiCurrency": "AssetsExt", "NativeAssetId": "RootAssetId", "VtxAssetId": "VortexAssetId", "VtxDistPotId": "VtxVortexPotId", "RootPotId": "VtxRootPotId", "TxFeePotId": "VtxTxFeePotId"},
        "pallet_xrpl_bridge": {"MultiCurrency": "AssetsExt", "XrpAssetId": "XrpAssetId", "NativeAssetId": "RootAssetId", "PalletId": "XrplPalletId", "NFTExt": "Nft", "Xls20Ext": "Xls20", "EthyAdapter": "EthBridge", "UnixTime": "Timestamp"},
    })
    # the network assets' ids; the marketplace's and dex's network fee goes to the fee pot
    ids = [value(ctx, r + ".id", n, w) for n, w in (("RootAssetId", 1), ("XrpAssetId", 2), ("VortexAssetId", 3))]
    ctx.check(r + ".id", CR, len(set(ids)) == 3, "network assets share an id")
    d = types(ctx).cfg
    for p in ("pallet_marketplace", "pallet_dex"):
        n = d.get(p, {}).get("DefaultFeeTo")
        v = types(ctx).const(n) if n else None
        pot = types(ctx).const("TxFeePotId")
        if p == "pallet_marketplace":
            ctx.check(r + ".fee_to", p, v is not None, "the network fee has no receiver")
        ctx.check(r + ".fee_to", p, v is None or v == ("Some", pot) or v == "None", "the default fee receiver is not the fee pot")


@prop("T11")
def fee_wiring(ctx):
    r = "T11"
    xrp = "AssetCurrency<Runtime,XrpAssetId>"
    wired(ctx, r + ".fees", {
        "pallet_transaction_payment": {"OnChargeTransaction": "FeeProxy", "WeightToFee": "FeeControlWeightToFee", "LengthToFee": "FeeControlLengthToFee"},
        "pallet_fee_proxy": {"FeeAssetId": "XrpAssetId", "OnChargeTransaction": "CurrencyAdapter<%s,TxFeePot>" % xrp, "EVMBaseFeeProvider": "FeeControl", "MaintenanceChecker": "MaintenanceChecker<Runtime>", "ErcIdConversion": "Runtime"},
        "pallet_tx_fee_pot": {"FeeCurrency": xrp, "StakeCurrency": "Balances", "TxFeePotId": "TxFeePotId"},
        "pallet_staking": {"EraPayout": "TxFeePot", "Reward": "TxFeePot", "RewardRemainder": "TxFeePot", "Slash": "SlashImbalanceHandler", "Currency": "Balances"},
        "pallet_election_provider_multi_phase": {"SlashHandler": "SlashImbalanceHandler", "Currency": "Balances"},
    })
    wired(ctx, r + ".evm", {
        "pallet_evm": {"FeeCalculator": "FeeControl", "CallOrigin": "FutureverseEnsureAddressSame<AccountId>", "WithdrawOrigin": "EnsureAddressNever<AccountId>", "AddressMapping": "AddressMapping<AccountId>",
                       "Currency": "EvmCurrencyScaler<%s>" % xrp, "Runner": "FeePreferencesRunner<Runtime,Runtime,Futurepass>", "ChainId": "EVMChainId", "PrecompilesValue": "PrecompilesValue", "Timestamp": "Timestamp"},
    })
    d = types(ctx).cfg
    ev = d.get("pallet_evm", {})
    ctx.check(r + ".evm", "pallet_evm", str(ev.get("OnChargeTransaction", "")).startswith("FutureverseEVMCurrencyAdapter<" + str(ev.get("Currency")) + ",TxFeePot"), "the EVM fee adapter works on another currency or receiver: %s" % ev.get("OnChargeTransaction"))
    for p in ("pallet_evm", "pallet_ethereum"):
        ctx.check(r + ".validation", p, str(d.get(p, {}).get("HandleTxValidation", "")).startswith("HandleTxValidation<"), "EVM transactions are not validated by the chain's own balance check")
    ctx.check(r + ".author", "pallet_evm", str(ev.get("FindAuthor", "")).startswith("EthereumFindAuthor<Babe"), "the EVM's block author is %s" % ev.get("FindAuthor"))
    # blocked calls never pass
    wired(ctx, r + ".filter", {"frame_system": {"BaseCallFilter": "CallFilter"},
                               "pallet_xrpl": {"CallValidator": "MaintenanceModeCallValidator", "FuturepassLookup": "FuturepassLookup"},
                               "pallet_doughnut": {"CallValidator": "DoughnutCallValidator", "FuturepassLookup": "DoughnutFuturepassLookup"},
                               "pallet_futurepass": {"BlacklistedCallValidator": "FuturepassCallValidator", "Proxy": "ProxyPalletProvider", "ProxyType": "ProxyType"},
                               "pallet_proxy": {"ProxyType": "ProxyType", "Currency": "Balances"},
                               "pallet_maintenance_mode": {"SudoPallet": "Sudo", "TimestampPallet": "Timestamp", "ImOnlinePallet": "ImOnline", "EthyPallet": "EthBridge"}})
    # every signed transaction passes all of these
    t = types(ctx)
    se = t.c.types.get("SignedExtra")
    got = {t.s(x).split("<")[0] for x in se["t"].get("a", [])} if se else set()
    for n in ("CheckNonZeroSender", "CheckSpecVersion", "CheckTxVersion", "CheckGenesis", "CheckEra", "CheckNonce", "CheckWeight", "MaintenanceChecker", "ChargeTransactionPayment"):
        ctx.check(r + ".extensions", CR + "::SignedExtra", n in got, "signed transactions are not subject to %s" % n)
    ux = t.c.types.get("UncheckedExtrinsic")
    ctx.check(r + ".extensions.used", CR + "::UncheckedExtrinsic", ux is not None and t.s(ux["t"]).endswith(t.s(se["t"]) + ">") if se else False, "the extrinsic type does not carry the signed extensions")
    ctx.note(CR, r + ".extensions", len(got), "signed extensions: " + ", ".join(sorted(got)))


@prop("T12")
def governance_wiring(ctx):
    r = "T12"
    root = "EnsureRoot<AccountId>"
    wired(ctx, r + ".root", {
        "pallet_assets": {"ForceOrigin": root}, "pallet_scheduler": {"ScheduleOrigin": root, "OriginPrivilegeCmp": "EqualPrivilegeOnly"}, "pallet_preimage": {"ManagerOrigin": root},
        "pallet_xrpl_bridge": {"ApproveOrigin": root}, "pallet_evm_chain_id": {"ApproveOrigin": root}, "pallet_futurepass": {"ApproveOrigin": root},
        "pallet_staking": {"AdminOrigin": root}, "pallet_election_provider_multi_phase": {"ForceOrigin": root}})
    wired(ctx, r + ".validators", {
        "pallet_ethy": {"AuthoritySet": "Historical", "FinalSessionTracker": "StakingSessionTracker", "EventRouter": "EthereumEventRouter", "XrplBridgeAdapter": "XRPLBridge", "NativeAssetId": "XrpAssetId", "MultiCurrency": "AssetsExt", "BridgePalletId": "BridgePalletId", "UnixTime": "Timestamp", "Scheduler": "Scheduler"},
        "pallet_echo": {"EthereumBridge": "EthBridge", "PalletId": "EchoPalletId"},
        "pallet_session": {"SessionManager": "NoteHistoricalRoot<Runtime,Staking>", "ShouldEndSession": "Babe", "NextSessionRotation": "Babe", "ValidatorIdOf": "StashOf<Runtime>", "Keys": "SessionKeys"},
        "pallet_authorship": {"FindAuthor": "FindAccountFromAuthorIndex<Runtime,Babe>", "EventHandler": ("(Staking,ImOnline)", "(ImOnline,Staking)")},
        "pallet_offences": {"OnOffenceHandler": "Staking"},
        "pallet_im_online": {"ReportUnresponsiveness": "Offences", "ValidatorSet": "Historical"},
        "pallet_babe": {"DisabledValidators": "Session", "EquivocationReportSystem": "EquivocationReportSystem<Runtime,Offences,Historical,ReportLongevity>"},
        "pallet_grandpa": {"EquivocationReportSystem": "EquivocationReportSystem<Runtime,Offences,Historical,ReportLongevity>"},
        "pallet_bags_list": {"ScoreProvider": "Staking"}, "pallet_timestamp": {"OnTimestampSet": "Babe"}})
    # consistent time and staking parameters
    t = types(ctx)
    v = {n: value(ctx, r + ".parameters", n) for n in ("MILLISECS_PER_BLOCK", "SLOT_DURATION", "MinimumPeriod", "ExpectedBlockTime", "EPOCH_DURATION_IN_SLOTS", "EpochDuration", "SessionsPerEra", "BondingDuration", "SlashDeferDuration",
                                                     "HistoryDepth", "ReportLongevity", "MaxSetIdSessionEntries", "NotarizationThreshold", "OffendingValidatorsThreshold", "HOURS", "ChallengeBond", "RelayerBond", "THRESHOLDS", "BagThresholds",
                                                     "XRP_DECIMALS", "ROOT_DECIMALS", "ExistentialDeposit", "SS58Prefix", "DefaultChainId", "SignedPhase", "UnsignedPhase")}
    if any(x is None for x in v.values()):
        return
    rel = [
        ("slots are as long as blocks", v["SLOT_DURATION"] == v["MILLISECS_PER_BLOCK"] == v["ExpectedBlockTime"]),
        ("the minimum period is half a slot", v["MinimumPeriod"] * 2 == v["SLOT_DURATION"]),
        ("an hour has 3600 seconds of blocks", v["HOURS"] * v["MILLISECS_PER_BLOCK"] == 3600 * 1000),
        ("babe's epoch is the configured one", v["EpochDuration"] == v["EPOCH_DURATION_IN_SLOTS"] > 0),
        ("an era is a day", v["SessionsPerEra"] * v["EPOCH_DURATION_IN_SLOTS"] == 24 * v["HOURS"]),
        ("the election fits in a session", v["SignedPhase"] + v["UnsignedPhase"] <= v["EPOCH_DURATION_IN_SLOTS"]),
        ("slashes apply before funds unbond", v["SlashDeferDuration"] < v["BondingDuration"]),
        ("history outlives bonding", v["HistoryDepth"] > v["BondingDuration"]),
        ("equivocations are reportable while bonded", v["ReportLongevity"] == v["BondingDuration"] * v["SessionsPerEra"] * v["EpochDuration"]),
        ("grandpa set ids are kept while bonded", v["MaxSetIdSessionEntries"] >= v["BondingDuration"] * v["SessionsPerEra"]),
        ("bridge events need a supermajority", v["NotarizationThreshold"][0] == "from_percent" and 66 <= v["NotarizationThreshold"][1] <= 100),
        ("offences end an era before a third offends", v["OffendingValidatorsThreshold"][0] == "from_percent" and v["OffendingValidatorsThreshold"][1] <= 33),
        ("bridge bonds are positive", v["ChallengeBond"] > 0 and v["RelayerBond"] > 0),
        ("gas and native tokens have 6 decimals", v["XRP_DECIMALS"] == v["ROOT_DECIMALS"] == 6),
        ("bags ascend to the maximum", list(v["BagThresholds"]) == sorted(set(v["BagThresholds"])) and v["BagThresholds"][-1] == 2 ** 64 - 1 and len(v["BagThresholds"]) >= 100),
    ]
    for n, ok in rel:
        ctx.check(r + ".parameters", CR, ok, "broken: " + n)
    ctx.note(CR, r + ".parameters", len(rel), "relations between runtime constants")
    # slashed funds go to the slash pot, in full
    e = ctx.entry(CR, "on_nonzero_unbalanced", ty="SlashImbalanceHandler")
    d = "call('*resolve_creating', mc('into_account_truncating', alt(cfg.SlashPotId, call('SlashPotId::get'))), P0)"
    e.must(r + ".slash", d, count=1)
    e.only(r + ".slash", "call", "*resolve_creating", [d], floor=1)


@prop("T09")
def identifiers(ctx):
    r = "T09"
    t = types(ctx)
    c = t.c
    # pallet indices (they encode calls, events, errors and origins)
    seen = {}
    for n, (path, idx) in c.pallets.items():
        ctx.check(r + ".index", CR + "::" + n, idx is not None, "the pallet has no explicit index")
        if idx is not None:
            i = int(str(idx), 0)
            ctx.check(r + ".index", CR + "::" + n, i not in seen and i < 256, "shares the index %s with %s" % (idx, seen.get(i)))
            seen[i] = n
    ctx.check(r + ".index", CR, len(seen) >= 40, "construct_runtime not found")
    ctx.note(CR, r + ".index", len(seen), "pallet indices")
    # pot accounts
    pots, n = {}, 0
    for k in c.consts:
        if not isinstance(k, str):
            continue
        v = t.const(k)
        e = c.consts[k].get("t") or {}
        if e.get("k") == "Path" and e["p"][-1]["n"] == "PalletId":
            n += 1
            ctx.check(r + ".pot", CR + "::" + k, isinstance(v, tuple) and v[0] == "PalletId", "the pallet id is not a constant")
            if isinstance(v, tuple):
                key = str(v)
                ctx.check(r + ".pot", CR + "::" + k, key not in pots, "shares its account with %s" % pots.get(key))
                pots[key] = k
    ctx.check(r + ".pot", CR, n >= 16, "pallet ids not found")
    ctx.note(CR, r + ".pot", n, "pallet accounts")
    # addresses in the EVM
    addr = {}
    for k in ("NFT_PRECOMPILE", "SFT_PRECOMPILE", "PEG_PRECOMPILE", "DEX_PRECOMPILE", "FEE_PROXY_ADDRESS", "FUTUREPASS_REGISTRAR_PRECOMPILE", "MARKETPLACE_PRECOMPILE"):
        v = value(ctx, r + ".address", k)
        ctx.check(r + ".address", k, v not in addr and isinstance(v, int) and 9 < v < 65536 and v not in (1024, 1026), "the address is shared with %s" % addr.get(v))
        addr[v] = k
    pre = {}
    for k in ("ERC721_PRECOMPILE_ADDRESS_PREFIX", "ERC1155_PRECOMPILE_ADDRESS_PREFIX", "ERC20_PRECOMPILE_ADDRESS_PREFIX", "FUTUREPASS_PRECOMPILE_ADDRESS_PREFIX"):
        v = value(ctx, r + ".prefix", k)
        ctx.check(r + ".prefix", k, v not in pre and v is not None and len(v) == 4 and any(v), "the prefix is shared with %s" % pre.get(v))
        pre[v] = k
    pub = {"ERC20_PRECOMPILE_ADDRESS_PREFIX": 0xCC, "ERC721_PRECOMPILE_ADDRESS_PREFIX": 0xAA, "ERC1155_PRECOMPILE_ADDRESS_PREFIX": 0xBB, "FUTUREPASS_PRECOMPILE_ADDRESS_PREFIX": 0xFF}
    for k, b in pub.items():
        value(ctx, r + ".prefix", k, (b,) * 4)
    for k, b in {"NFT_PRECOMPILE": 1721, "SFT_PRECOMPILE": 1731, "PEG_PRECOMPILE": 1939, "DEX_PRECOMPILE": 0xDDDD, "FEE_PROXY_ADDRESS": 1211, "FUTUREPASS_REGISTRAR_PRECOMPILE": 0xFFFF, "MARKETPLACE_PRECOMPILE": 1741}.items():
        value(ctx, r + ".address", k, b)
    for k, sig in (("FEE_FUNCTION_SELECTOR", b"callWithFeePreferences(address,address,bytes)"), ("FEE_FUNCTION_SELECTOR_DEPRECATED", b"callWithFeePreferences(address,uint128,address,bytes)")):
        value(ctx, r + ".selector", k, tuple(keccak256(sig)[:4]))
    ctx.note(CR, r + ".address", len(addr) + len(pre), "precompile addresses and prefixes")


def flatten(t):
    """the fragments of a precompile set: (fragment type, [enclosing range or None])"""
    out = []

    def go(x, rng):
        if x.get("k") == "Tuple":
            for y in x["a"]:
                go(y, rng)
        elif x.get("k") == "Path":
            last = x["p"][-1]
            g = last.get("g") or []
            if last["n"] == "PrecompilesInRangeInclusive":
                go(g[1], g[0])
            else:
                out.append((last["n"], g, rng))
    go(t, None)
    return out


@prop("T10")
def precompile_set(ctx):
    r = "T10"
    t = types(ctx)
    al = t.c.types.get("FutureversePrecompiles")
    if al is None:
        ctx.violation("anchor", CR + "::FutureversePrecompiles", "the precompile set is not found")
        return
    top = al["t"]
    W = CR + "::FutureversePrecompiles"
    while top.get("k") == "Path" and top["p"][-1]["n"] != "PrecompileSetBuilder":
        nxt = t.c.types.get(top["p"][-1]["n"])
        if nxt is None:
            break
        top = nxt["t"]
    fr = flatten(top["p"][-1]["g"][-1])

    def addr(x):
        a = ((x.get("p") or [{}])[-1].get("g") or [None])[0]
        if a is None:
            return None
        v = t.val(a) if a.get("k") not in ("Const", "Block") else t.val(a.get("e") or a)
        if v is None and a.get("k") == "Path":
            v = t.const(a["p"][-1]["n"])
        return v
    at, pre = {}, {}
    for n, g, rng in fr:
        nm = [t.s(x).split("<")[0] for x in g]
        opts = nm[2:]
        if n in ("PrecompileAt", "StatefulPrecompileAt"):
            v = addr(g[0])
            ctx.check(r + ".at", W, isinstance(v, int) and v not in at, "%s has no unique address" % nm[1])
            at[v] = (nm[1], opts)
            if rng is not None and isinstance(v, int):
                lo, hi = [addr(y) for y in rng["a"]]
                ctx.check(r + ".range", W, lo <= v <= hi, "%s at %s is outside its range and unreachable" % (nm[1], v))
        elif n == "PrecompileSetStartingWith":
            v = t.const(t.s(g[0]).split("<")[0])
            ctx.check(r + ".prefix", W, v is not None and v not in pre and rng is None, "%s has no unique prefix" % nm[1])
            pre[v] = (nm[1], opts)
        elif n not in ("RevertPrecompile",):
            ctx.check(r + ".fragment", W, False, "unknown kind of precompile: " + n)
    C = lambda n: t.const(n)
    want_at = {C("NFT_PRECOMPILE"): "NftPrecompile", C("SFT_PRECOMPILE"): "SftPrecompile", C("PEG_PRECOMPILE"): "PegPrecompile", C("DEX_PRECOMPILE"): "DexPrecompile", C("FUTUREPASS_REGISTRAR_PRECOMPILE"): "FuturePassRegistrarPrecompile", C("MARKETPLACE_PRECOMPILE"): "MarketplacePrecompile"}
    eth = {1: "ECRecover", 2: "Sha256", 3: "Ripemd160", 4: "Identity", 5: "Modexp", 6: "Bn128Add", 7: "Bn128Mul", 8: "Bn128Pairing", 9: "Blake2F"}
    want_pre = {C("ERC721_PRECOMPILE_ADDRESS_PREFIX"): "Erc721PrecompileSet", C("ERC1155_PRECOMPILE_ADDRESS_PREFIX"): "Erc1155PrecompileSet", C("ERC20_PRECOMPILE_ADDRESS_PREFIX"): "Erc20PrecompileSet", C("FUTUREPASS_PRECOMPILE_ADDRESS_PREFIX"): "FuturePassPrecompileSet"}
    for w, g in (({**want_at, **eth}, at), (want_pre, pre)):
        for k, v in w.items():
            ctx.check(r + ".installed", W, g.get(k, ("",))[0] == v, "at %s is %s, not %s" % (k, g.get(k, ("nothing",))[0], v))
    for g in (at, pre):
        for k, (n, o) in g.items():
            if n not in eth.values():
                ctx.check(r + ".delegate", W, "AllowDelegateCall" not in o, "%s can be delegate-called, acting as the calling contract's caller" % n)
    ctx.note(CR, r + ".installed", len(at) + len(pre), "precompile fragments")
    # the guards themselves
    PU = "precompile-utils"
    for ty, want in (("ForbidDelegateCall", "false"), ("AllowDelegateCall", "true")):
        e = ctx.entry(PU, "allow_delegate_call", ty=ty, trait="DelegateCallSupport")
        e.returns(r + ".guard." + ty, want)
    e = ctx.entry(PU, "recursion_limit", ty="UnlimitedRecursion", trait="RecursionLimit")
    e.returns(r + ".guard.UnlimitedRecursion", "none")
    e = ctx.entry(PU, "recursion_limit", ty="LimitRecursionTo", trait="RecursionLimit")
    e.returns(r + ".guard.LimitRecursionTo", "good(_)")
    e.returns(r + ".guard.LimitRecursionTo", "good(op('const', 'N'))")
    fb = t.m.crates[PU].types.get("ForbidRecursion")
    ctx.check(r + ".guard.ForbidRecursion", PU + "::ForbidRecursion", fb is not None and t.s(fb["t"]) == "LimitRecursionTo<0>", "nested calls are not forbidden")
    CODE, CTX = "mc('code_address', P0)", "mc('context', P0).address"
    LIM = "call('R::recursion_limit')"
    for ty in ("PrecompileAt", "StatefulPrecompileAt", "PrecompileSetStartingWith"):
        e = ctx.entry(PU, "execute", ty=ty, trait="PrecompileSetFragment")
        q = "%s.guard.%s" % (r, ty)
        run = {"PrecompileAt": "call('P::execute', P0)", "StatefulPrecompileAt": "call('execute', SELF.precompile, P0)", "PrecompileSetStartingWith": "call('execute', SELF.precompile_set, P0)"}[ty]
        mine = "%s == cfg.A" % CODE if ty != "PrecompileSetStartingWith" else "truth(vp(mc('is_precompile', SELF.precompile_set, %s, _), 'Answer', 'is_precompile'))" % CODE
        d = "call('D::allow_delegate_call')"
        lvl = "mc('try_borrow_mut', SELF.current_recursion_level).q"
        if ty == "PrecompileSetStartingWith":
            lvl = "alt(mc('or_insert', mc('entry', %s, %s), 0), mc('get', %s, %s).q, op('idx', %s, %s), mc('get_mut', %s, %s).q, op('get', %s, %s).q, op('idx', %s, %s).q)" % ((lvl, CODE) * 6)
        hit = [x for x in e.all if any(True for _ in holds(F("does(%s)" % run), x.facts, {}, x))]
        ctx.check(q + ".runs", e.where, len(hit) >= 4, "the precompile never runs")
        e.req(q + ".address", mine, traces=hit)
        e.req(q + ".delegate", "truth(%s) or %s == %s" % (d, CODE, CTX), traces=hit)
        e.req(q + ".level", "absent(%s) or %s <= %s.q" % (LIM, lvl, LIM), traces=hit)
        e.must(q + ".once", run, when=" and ".join(["does(%s)" % run]), count=1, traces="all")
        up, down = "setref(_, %s + 1)" % lvl, "setref(_, sub(%s, 1))" % lvl
        n1 = n2 = 0
        for x in hit:
            ks = [y for y in x.fx if y.kind in ("call", "mcall", "set") and (y.kind == "set" or y.name.endswith("execute"))]
            pos = [i for i, y in enumerate(ks) if y.kind != "set"]
            if not pos:
                continue
            lim = [b for b in (True, False) if any(True for _ in holds(F("%s(%s)" % ("good" if b else "absent", LIM)), x.facts, {}, x))]
            before = [y for y in ks[:pos[0]] if any(True for _ in match_eff(E(up), y, {}))]
            after = [y for y in ks[pos[0]:] if any(True for _ in match_eff(E(down), y, {}))]
            n1 += len(before)
            n2 += len(after)
            if any(y.kind == "set" and y not in before and y not in after for y in ks):
                ctx.violation(q + ".count", e.where, "the nesting level is changed in another way", x)
        ctx.check(q + ".count", e.where, n1 > 0 and n2 > 0, "the nesting level is not counted up before and down after the call")
        lim_hit = [x for x in hit if any(True for _ in holds(F("good(%s)" % LIM), x.facts, {}, x))]
        ctx.check(q + ".count", e.where, lim_hit and all(any(y.kind == "set" for y in x.fx) for x in lim_hit), "a limited precompile runs without being counted")
