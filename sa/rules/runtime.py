"""Runtime adapters: EVM balances, addresses, bridge routing, call wrappers, runtime APIs."""
from .base import *
from ..terms import isT, subterms

CR = "seed-runtime"
SC = (("seed-pallet-common", "scale_wei_to_correct_decimals"), ("seed-pallet-common", "scale_decimals_to_wei"))
DOWN = "call('scale_wei_to_correct_decimals', %s, 6)"
UP = "call('scale_decimals_to_wei', %s, 6)"


@prop("T01")
def evm_currency(ctx):
    r = "T01"
    X = "EvmCurrencyScaler"
    forms = {"burn": (0, 1), "issue": (0, 1), "ensure_can_withdraw": (1, 4), "slash": (1, 2), "deposit_into_existing": (1, 2),
             "deposit_creating": (1, 2), "withdraw": (1, 4), "make_free_balance_be": (1, 2), "transfer": (2, 4)}
    for fn, (i, n) in forms.items():
        e = ctx.entry(CR, fn, ty=X, trait="Currency", opaque=SC)
        args = ["P%d" % k for k in range(n)]
        args[i] = DOWN % args[i]
        call = "call('*%s', %s)" % (fn, ", ".join(args))
        if fn == "transfer":
            e.returns(r + ".transfer", "good(())", when="P2 == 0")
            e.must(r + ".transfer", call, unless="P2 == 0", count=1)
            e.req(r + ".transfer.ok", "P2 == 0 or good(%s)" % call)
        elif fn in ("deposit_into_existing", "withdraw", "ensure_can_withdraw"):
            e.returns(r + "." + fn, "alt(good(%s.q), good(_))" % call)
            e.req(r + "." + fn, "good(%s)" % call)
        else:
            e.returns(r + "." + fn, call)
        e.only(r + "." + fn + ".only", "call", "C::*", [call], floor=0)
    for f in ("reducible_balance", "balance"):
        e = ctx.entry(CR, f, ty=X, trait="Inspect", opaque=SC)
        pol = "P2" if f == "reducible_balance" else "var('Polite')"
        e.returns(r + "." + f, "call('*reducible_balance', P0, var('Expendable'), %s) * 1000000000000" % pol)
    e = ctx.entry(CR, "can_slash", ty=X, trait="Currency")
    e.returns(r + ".can_slash", "false")
    # the scaling itself
    e = ctx.entry("seed-pallet-common", "scale_wei_to_correct_decimals", ty=None)
    q = "P0 / op('**', 10, 18 - P1)"
    rest = "op('%', P0, op('**', 10, 18 - P1))"
    e.returns(r + ".scale_down", "alt(%s, 340282366920938463463374607431768211455)" % q, when=rest + " == 0")
    e.returns(r + ".scale_down.rounded_up", "alt(%s + 1, 340282366920938463463374607431768211455)" % q, unless=rest + " == 0")
    e.returns(r + ".scale_down.fits", q, when="%s == 0 and good(%s)" % (rest, q))
    e.returns(r + ".scale_down.fits", q + " + 1", when="good(%s + 1)" % q, unless=rest + " == 0")
    e.returns(r + ".scale_down.saturates", "340282366920938463463374607431768211455", when="absent(%s) or absent(%s + 1)" % (q, q))
    e = ctx.entry("seed-pallet-common", "scale_decimals_to_wei", ty=None)
    e.returns(r + ".scale_up", "mc('as_u128', P0 * op('**', 10, 18 - P1))")


@prop("T02")
def evm_fees(ctx):
    X = "FutureverseEVMCurrencyAdapter"
    OFF = SC + (("pallet-assets-ext", "offset"),)
    WHO = "call('*into_account_id', P0)"
    e = ctx.entry(CR, "withdraw_fee", ty=X, opaque=OFF)
    r = "T02.withdraw"
    w = "call('*withdraw', %s, P1, op('const', 'WithdrawReasons::FEE'), var('AllowDeath'))" % WHO
    e.must(r, w, unless="P1 == 0", count=1)
    e.req(r + ".paid", "P1 == 0 or good(%s)" % w)
    e.returns(r, "good(good(%s.q))" % w, unless="P1 == 0")
    e.returns(r + ".free", "good(none)", when="P1 == 0")
    e.only(r + ".only", "call", "*withdraw", [w], floor=1)
    e = ctx.entry(CR, "correct_and_deposit_fee", ty=X, opaque=OFF)
    r = "T02.correct"
    PAID = "P3.q"
    amt = "alt(mc('peek', %s), %s.amount)" % (PAID, PAID)
    refund = "sub(%s, P1)" % (UP % amt)
    dep = "call('*deposit_into_existing', %s, %s)" % (WHO, refund)
    e.must(r + ".refund", dep, when="good(P3)", count=1)
    zero = "call('*make_free_balance_be', %s, %s)" % (WHO, refund)
    e.only(r + ".only", "call", "C::*", [dep, (zero, "call('*minimum_balance') == 0 and %s != 0 and call('*total_balance', %s) == 0" % (refund, WHO))], floor=1)
    back = "alt(good(%s), %s.q, vp(%s, 'Positive', 0), call('*zero'), _)" % (dep, dep, zero)
    base = DOWN % "P2"
    split = "mc('split', alt(mc('same', mc('offset', %s, _)).q, call('*zero'), _), %s)" % (PAID, base)
    e.must(r + ".base_fee", "call('*on_unbalanced', %s.f0)" % split, when="good(P3)", count=1)
    e.only(r + ".base_fee.only", "call", "*on_unbalanced", ["call('*on_unbalanced', %s.f0)" % split], floor=1)
    e.returns(r + ".tip", "good(%s.f1)" % split, when="good(P3)")
    e.returns(r + ".nothing", "none", when="absent(P3)")
    e.noeffect(r + ".nothing", kinds=("call",), names=("C::*", "*on_unbalanced"), traces=e.on("absent(P3)"))
    e = ctx.entry(CR, "pay_priority_fee", ty=X, opaque=OFF)
    r = "T02.tip"
    amt = "alt(mc('peek', P0.q), P0.q.amount)"
    d = "call('*deposit_into_existing', call('*into_account_id', call('*find_author')), %s)" % (UP % amt)
    e.must(r, d, when="good(P0)", count=1)
    e.only(r + ".only", "call", "C::*", [d], floor=1)
    # the author is the validator at the slot's author index
    e = ctx.entry(CR, "find_author", ty="EthereumFindAuthor")
    a = "call('F::find_author', P0)"
    v = "op('get', call('Session::validators'), %s.q)" % a
    e.returns("T02.author", "alt(none, good(%s.q))" % v)
    e.returns("T02.author", "good(_)", when="good(%s) and good(%s)" % (a, v))


@prop("T03")
def addresses(ctx):
    r = "T03"
    e = ctx.entry(CR, "into_account_id", ty="AddressMapping")
    e.returns(r + ".mapping", "DefaultProxy[P0].q", when="good(DefaultProxy[P0])")
    e.returns(r + ".mapping", "P0", when="absent(DefaultProxy[P0])")
    # ids <-> addresses
    e = ctx.entry(CR, "evm_id_to_runtime_id", ty="Runtime")
    sp = "op('slice', P0, op('range', 0, 4)) == P1"
    e.req(r + ".prefix", sp, traces=e.giving("good(_)"))
    e.returns(r + ".from_address", "good(call('u32::from_be_bytes', mut('copy_from_slice', _, op('slice', P0, op('range', 4, 8)))))", when=sp)
    e.returns(r + ".other_prefix", "none", unless=sp)
    e = ctx.entry(CR, "runtime_id_to_evm_id", ty="Runtime")
    pre = "op('updelem', op('rep', 0, 20), op('idx', _, op('range', 0, 4)), mut('copy_from_slice', _, P1))"
    e.returns(r + ".to_address", "has(op('updelem', %s, op('idx', _, op('range', 4, 8)), mut('copy_from_slice', _, mc('to_be_bytes', P0))))" % pre)
    e = ctx.entry(CR, "on_asset_create", ty="OnNewAssetSubscription")
    e.must(r + ".code", "call('pallet_evm::create_account', call('*runtime_id_to_evm_id', P0, P1), _)", count=1)
    e.only(r + ".code.only", "call", "pallet_evm::*", ["call('pallet_evm::create_account', call('*runtime_id_to_evm_id', P0, P1), _)"], floor=1)
    # an EVM caller may only act for itself
    e = ctx.entry(CR, "try_address_origin", ty="FutureverseEnsureAddressSame")
    who = "vp(P1.q, 'Signed', 0)"
    e.req(r + ".same", "isv(P1.q, 'Signed') and P0 == %s" % who)
    e.returns(r + ".same", "good(%s)" % who)


@prop("T04")
def routing(ctx):
    r = "T04"
    PAL = ("pallet_echo", "pallet_erc20_peg", "pallet_nft_peg")
    e = ctx.entry(CR, "route", ty="EthereumEventRouter")
    addr = {p: "call('%s::address')" % p for p in PAL}
    run = {p: "call('%s::process_event', P0, P2)" % p for p in PAL}
    e.only(r + ".only", "call", "*process_event", [(run[p], "P1 == %s" % addr[p]) for p in PAL], floor=3)
    for p in PAL:
        e.must(r + "." + p, run[p], when="P1 == %s" % addr[p], count=1, traces="all")
        e.req(r + ".ok", " or ".join("good(%s)" % run[x] for x in PAL))
    others = [t for t in e.all if not any(x in str(t.fx) for x in ("process_event",))]
    ctx.check(r + ".no_receiver", e.where, others, "no path refuses an unknown destination")
    e.req(r + ".no_receiver", " and ".join("P1 != %s" % addr[p] for p in PAL), traces=others)
    ctx.check(r + ".no_receiver.err", e.where, all(t in e.err for t in others), "an event without receiver counts as processed")


def is_call(x, v, c):
    return "isv(%s, '%s') and isv(vp(%s, '%s', 0), '%s')" % (x, v, x, v, c)


@prop("T05")
def validators(ctx):
    r = "T05"
    FEE = "vp(vp(P0, 'FeeProxy', 0), 'call_with_fee_preferences', 'call')"
    PX = is_call("P0", "Futurepass", "proxy_extrinsic")
    FX = is_call("P0", "FeeProxy", "call_with_fee_preferences") + " and " + is_call(FEE, "Futurepass", "proxy_extrinsic")
    e = ctx.entry(CR, "check_extrinsic", ty="FuturepassLookup")
    T_, F_ = e.giving("true"), e.giving("false")
    ctx.check(r + ".futurepass", e.where, len(T_) + len(F_) == len(e.ok) and T_ and F_, "neither true nor false")
    e.req(r + ".futurepass.true", "(%s) or (%s)" % (PX, FX), traces=T_)
    e.returns(r + ".futurepass", "true", when=PX)
    e.returns(r + ".futurepass_fee", "true", when=FX)
    e = ctx.entry(CR, "lookup", ty="FuturepassLookup", trait="StaticLookup")
    e.returns(r + ".lookup", "good(Holders[P0].q)")
    e = ctx.entry(CR, "unlookup", ty="FuturepassLookup", trait="StaticLookup", opaque=((CR, "owner"),))
    ow = "call('*owner', P0)"
    e.returns(r + ".unlookup", "%s.q" % ow, when="good(%s)" % ow)
    e.returns(r + ".unlookup", "op('default', _)", when="absent(%s)" % ow)
    # what may be wrapped
    for ty, v, c in (("FuturepassCallValidator", "Xrpl", "transact"),):
        e = ctx.entry(CR, "check_extrinsic", ty=ty)
        e.returns(r + ".blacklist", "true", when=is_call("P0", v, c))
        e.returns(r + ".blacklist_only", "false", unless=is_call("P0", v, c))
    e = ctx.entry(CR, "check_extrinsic", ty="CrowdsaleProxyVaultValidator", opaque=(("pallet-maintenance-mode", "call_paused"),))
    LIST = [("System", "remark"), ("Nft", "set_base_uri"), ("Nft", "set_name"), ("Nft", "set_royalties_schedule")]
    e.req(r + ".vault", " or ".join("(%s)" % is_call("P0", v, c) for v, c in LIST))
    e.req(r + ".vault_paused", "false(call('*call_paused', P0))")
    for v, c in LIST:
        ctx.check(r + ".vault_usable", e.where, [t for t in e.on(is_call("P0", v, c)) if t in e.ok], "%s.%s is never permitted" % (v, c))
    e = ctx.entry(CR, "check_extrinsic", ty="MaintenanceModeCallValidator", opaque=(("pallet-maintenance-mode", "call_paused"),))
    e.returns(r + ".paused", "alt(op('not', call('*call_paused', P0)), true, false)")
    for v, f in (("true", "false"), ("false", "truth")):
        if e.giving(v):
            e.req(r + ".paused." + v, "%s(call('*call_paused', P0))" % f, traces=e.giving(v))
    e = ctx.entry(CR, "with_balance_for", ty="HandleTxValidation")
    own = "call('*with_balance_for', P0, P1)"
    to = "call('H160::from_low_u64_be', 1211)"
    e.req(r + ".balance", "good(%s) or P0.transaction.to.q == %s" % (own, to))
    e.req(r + ".balance.err", "absent(%s)" % own, traces=e.err)


@prop("T06")
def self_contained(ctx):
    r = "T06"
    V = ("Ethereum", "Xrpl", "Doughnut")
    OP = tuple((c, f) for c in ("pallet-xrpl", "pallet-doughnut") for f in ("validate_self_contained", "apply_self_contained", "check_self_contained", "pre_dispatch_self_contained", "is_self_contained"))
    none = {"is_self_contained": "false"}
    for fn, args in (("is_self_contained", 0), ("check_self_contained", 0), ("validate_self_contained", 3), ("pre_dispatch_self_contained", 3)):
        e = ctx.entry(CR, fn, ty="RuntimeCall", opaque=OP + ((CR, "validate_self_contained_inner"),))
        a = "".join(", P%d" % i for i in range(args))
        for v in V:
            res = "mc('%s', vp(SELF, '%s', 0)%s)" % (fn, v, a)
            if fn == "validate_self_contained" and v == "Ethereum":
                inner = "call('validate_self_contained_inner', SELF, vp(SELF, 'Ethereum', 0), P0, P1, P2)"
                e.returns("%s.%s.%s" % (r, fn, v), "good(alt(%s, good(%s.q)))" % (inner, inner), when="isv(SELF, '%s')" % v)
                continue
            e.returns("%s.%s.%s" % (r, fn, v), "alt(%s, call('%s', vp(SELF, '%s', 0)%s))" % (res, "*" + fn, v, a), when="isv(SELF, '%s')" % v)
        e.returns("%s.%s.other" % (r, fn), none.get(fn, "none"), unless=" or ".join("isv(SELF, '%s')" % v for v in V))
    e = ctx.entry(CR, "apply_self_contained", ty="RuntimeCall", opaque=OP)
    eth = is_call("SELF", "Ethereum", "transact")
    d = "call('dispatch', SELF, var('EthereumTransaction', P0))"
    e.must(r + ".apply.ethereum", d, when=eth, count=1, traces="all")
    e.only(r + ".apply.only", "mcall", "dispatch", [(d, eth)], floor=1)
    e.only(r + ".apply.only", "call", "*apply_self_contained", [("call('*apply_self_contained', vp(SELF, '%s', 0), P0, P1, P2)" % v, "isv(SELF, '%s')" % v) for v in V[1:]], floor=2)
    for v in V[1:]:
        e.must(r + ".apply." + v, "call('*apply_self_contained', vp(SELF, '%s', 0), P0, P1, P2)" % v, when="isv(SELF, '%s')" % v, count=1, traces="all")
    # the pallets' own calls
    for pallet in ("pallet-xrpl", "pallet-doughnut"):
        for fn, yes, no in (("is_self_contained", "true", "false"), ("pre_dispatch_self_contained", "good(())", "none")):
            e = ctx.entry(pallet, fn, ty="Call")
            e.returns("%s.%s.%s" % (r, fn, pallet), yes, when="isv(SELF, 'transact')", traces="all")
            e.returns("%s.%s.%s" % (r, fn, pallet), no, unless="isv(SELF, 'transact')", traces="all")
    # Ethereum transactions
    e = ctx.entry(CR, "validate_self_contained_inner", ty=None, opaque=((CR, "transaction_asset_check"),))
    own = "mc('validate_self_contained', P1, P2, P3, P4)"
    ext = "call('*validate_unsigned', P0, mc('get_dispatch_info', P0), _)"
    e.req(r + ".ethereum", "isv(P1, 'transact') and good(%s) and good(%s) and good(%s.q)" % (ext, own, own))
    e.returns(r + ".ethereum", "good(mc('combine_with', %s.q, %s.q.q))" % (ext, own))
    tx = "vp(vp(P0, 'Ethereum', 0), 'transact', 'transaction')"
    e.req(r + ".asset_check", "notv(P0, 'Ethereum') or notv(vp(P0, 'Ethereum', 0), 'transact') or good(call('transaction_asset_check', P2, %s, alt(%s)))" % (tx, ", ".join("vp(vp(P1, 'transact', 'transaction'), '%s', 0).action" % v for v in ("Legacy", "EIP2930", "EIP1559"))))
    # senders of fee proxy transactions own the worst case payment
    e = ctx.entry(CR, "transaction_asset_check", ty=None, opaque=(("pallet-fee-proxy", "get_fee_preferences_data"), ("pallet-fee-proxy", "decode_input")))
    to = "P2 == var('Call', call('H160::from_low_u64_be', 1211))"
    t = "vp(P1, 'EIP1559', 0)"
    dec = "call('*decode_input', %s.input)" % t
    fee = "call('get_fee_preferences_data', %s.gas_limit, call('*evm_base_fee_per_gas'), good(%s.max_fee_per_gas), good(%s.max_priority_fee_per_gas), %s.q.f0)" % (t, t, t, dec)
    amt = "call('pallet_dex::get_amounts_in', alt(vp(%s.q, 'FeePreferencesData', 'max_fee_scaled'), %s.q.max_fee_scaled), alt(vp(%s.q, 'FeePreferencesData', 'path'), %s.q.path))" % (fee, fee, fee, fee)
    bal = "call('pallet_assets_ext::reducible_balance', %s.q.f0, P0, ...)" % dec
    hit = e.on(to)
    ctx.check(r + ".assets", e.where, hit, "the fee proxy address is not checked")
    e.req(r + ".assets", "isv(P1, 'EIP1559') and good(%s) and good(%s) and good(%s) and op('idx', %s.q, 0) <= %s" % (dec, fee, amt, amt, bal), traces=[x for x in hit if x in e.ok])
    e.req(r + ".assets.err", to, traces=e.err)


@prop("T07")
def runtime_apis(ctx):
    r = "T07"

    def api(fn, tr, res, when=None, opaque=(), **k):
        e = ctx.entry(CR, fn, ty="Runtime", trait=tr, opaque=opaque)
        e.returns("%s.%s.%s" % (r, tr, fn), res, when=when, **k)
        return e
    q = "call('pallet_dex::quote', P0, P1, P2)"
    e = api("quote", "DexApi", "good(%s.q)" % q)
    e.req(r + ".DexApi.quote.fits", "good(%s) and good(wide(%s.q))" % (q, q))
    ctx.check(r + ".DexApi.quote.err", e.where, [t for t in e.err if any(True for _ in holds(F("good(%s)" % q), t.facts, {}, t))], "an amount above 128 bits is truncated")
    for f in ("get_amounts_out", "get_amounts_in"):
        a = "call('pallet_dex::%s', P0, P1)" % f
        e = api(f, "DexApi", "good(%s.q)" % a)
        e.req("%s.DexApi.%s.err" % (r, f), "absent(%s)" % a, traces=e.err)
    for f in ("get_liquidity", "get_trading_pair_status"):
        api(f, "DexApi", "call('pallet_dex::%s', P0, P1)" % f)
    a = "call('pallet_dex::get_lp_token_id', P0, P1)"
    e = api("get_lp_token_id", "DexApi", "good(%s.q)" % a)
    api("owned_tokens", "NftApi", "call('pallet_nft::owned_tokens', P0, P1, P2, P3)")
    api("token_uri", "NftApi", "call('pallet_nft::token_uri', P0)")
    api("token_uri", "SftApi", "call('pallet_sft::token_uri', P0)")
    for w, p in (("truth(P2)", "Preserve"), ("false(P2)", "Expendable")):
        api("free_balance", "AssetsExtApi", "has(call('pallet_assets_ext::reducible_balance', P0, P1, var('%s'), var('Polite')))" % p, when=w)
    # the bridge's validator sets, as clients and relayers read them
    for fn, tr, n, thr in (("xrpl_signers", "EthyApi", "NotaryXrplKeys", "sub(op('len', NotaryXrplKeys), 1)"), ("validator_set", None, "NotaryKeys", "mc('mul_ceil', cfg.NotarizationThreshold, op('len', NotaryKeys))")):
        e = ctx.entry(CR, fn, ty="Runtime", trait=tr) if tr else ctx.entry("pallet-ethy", fn)
        e.returns("%s.ethy.%s" % (r, fn), "struct('ValidatorSet', id=NotarySetId, validators=%s, proof_threshold=%s)" % (n, thr))
    api("validator_set", "EthyApi", "call('pallet_ethy::validator_set')")
    # Ethereum
    X = "EthereumRuntimeRPCApi"
    api("chain_id", X, "alt(cfg.ChainId, call('*ChainId::get'))")
    api("account_basic", X, "call('*account_basic', P0).f0")
    api("gas_price", X, "call('pallet_fee_control::min_gas_price').f0")
    api("author", X, "call('*find_author')")
    for fn, n in (("call", 10), ("create", 9)):
        e = ctx.entry(CR, fn, ty="Runtime", trait=X)
        s = n - 7           # position of the value; gas limit, fees and nonce follow
        head_ = ", ".join("P%d" % i for i in range(s + 1))
        gas = "alt(min(P%d, 18446744073709551615), mc('low_u64', min(P%d, 18446744073709551615)), mc('low_u64', P%d), 18446744073709551615)" % (s + 1, s + 1, s + 1)
        run = "call('*Runner::%s', %s, %s, P%d, P%d, P%d, _, false, true, _, _, _)" % (fn, head_, gas, s + 2, s + 3, s + 4)
        e.must("%s.%s.%s" % (r, X, fn), run, count=1)
        e.only("%s.%s.%s.only" % (r, X, fn), "call", "*Runner::*", [run], floor=1)
        e.req("%s.%s.%s.ok" % (r, X, fn), "good(%s)" % run)
        e.returns("%s.%s.%s" % (r, X, fn), "good(%s.q)" % run)
        est = run.replace("_, _, _)", "_, _, %s)")
        e.must("%s.%s.%s.estimate" % (r, X, fn), est % "upd(_, estimate=true)", when="truth(P%d)" % (s + 5))
        e.must("%s.%s.%s.no_estimate" % (r, X, fn), est % "call('*config')", when="false(P%d)" % (s + 5))
        cap = "mc('low_u64', min(P%d, 18446744073709551615))" % (s + 1)
        e.req("%s.%s.%s.gas" % (r, X, fn), "does(%s) or P%d <= 18446744073709551615 or does(%s)" % (run.replace(gas, cap), s + 1, run.replace(gas, "18446744073709551615")))
        e.must("%s.%s.%s.access_list" % (r, X, fn), run.replace("_, false, true", "P%d.q, false, true" % (n - 1)), when="good(P%d)" % (n - 1))


@prop("T13")
def last_session(ctx):
    r = "T13"
    e = ctx.entry(CR, "is_active_session_final", ty="StakingSessionTracker")
    era = "call('Staking::active_era')"
    start = "call('Staking::eras_start_session_index', %s)"
    force = "call('Staking::force_era')"
    now = "call('Session::current_index')"
    forced = "(isv(%s, 'ForceNew') or isv(%s, 'ForceAlways'))" % (force, force)
    for era_, when in (("%s.q.index" % era, "good(%s)" % era), ("0", "absent(%s)" % era)):
        s = start % era_
        last = "(good(%s) and %s == %s.q + sub(cfg.SessionsPerEra, 1))" % (s, now, s)
        off = "(absent(%s) or %s != %s.q + sub(cfg.SessionsPerEra, 1))" % (s, now, s)
        e.returns(r + ".last", "true", when=when + " and " + last)
        e.returns(r + ".forced", "true", when=when + " and " + forced)
        e.returns(r + ".else", "false", when=when + " and " + off + " and notv(%s, 'ForceNew') and notv(%s, 'ForceAlways')" % (force, force))
    e.must(r + ".era", "%s or %s" % (start % (era + ".q.index"), start % "0"), count=1)
    e.noeffect(r + ".pure", kinds=("put", "rm", "mutate"))


@prop("T14")
def offchain_transactions(ctx):
    r = "T14"
    e = ctx.entry(CR, "create_transaction", ty="Runtime")
    pow2 = "mc('checked_next_power_of_two', cfg.BlockHashCount)"
    now = "sub(call('System::block_number'), 1)"

    def signed(period):
        fs = "frame_system::"
        extra = ["call('*CheckNonZeroSender::new')", "call('*CheckSpecVersion::new')", "call('*CheckTxVersion::new')", "call('*CheckGenesis::new')",
                 "call('*CheckEra::from', call('*Era::mortal', %s, %s))" % (period, now), "call('*CheckNonce::from', P3)", "call('*CheckWeight::new')",
                 "struct('MaintenanceChecker', ...)", "call('*ChargeTransactionPayment::from', 0)"]
        return "call('*SignedPayload::new', P0, tup(%s))" % ", ".join(extra)
    for period, when in (("%s.q / 2" % pow2, "good(%s)" % pow2), ("2", "absent(%s)" % pow2)):
        s = signed(period)
        p = s + ".q"
        sig = "mc('using_encoded', %s, ...)" % p
        parts = "mc('deconstruct', %s)" % p
        e.returns(r + ".tx", "good(tup(%s.f0, tup(P2, %s.q, %s.f1)))" % (parts, sig, parts), when="%s and good(%s) and good(%s)" % (when, s, sig))
        e.returns(r + ".refused", "none", when="%s and absent(%s)" % (when, s))
        e.returns(r + ".refused", "none", when="%s and good(%s) and absent(%s)" % (when, s, sig))
    ans = "call('C::sign', op('cloarg', 'using_encoded', 0), P1)"
    given = e.giving("good(_)")
    ctx.check(r + ".signs", e.where, given, "no signed transaction is ever made")
    e.must(r + ".signature", "gives('using_encoded', %s)" % ans, traces=given, count=1)
    e.only(r + ".key", "call", "C::*", [ans], floor=1)


@prop("T15")
def genesis(ctx):
    r = "T15"
    for cr, counters in (("pallet-assets-ext", ["NextAssetId"]), ("pallet-nft", ["NextCollectionId"]), ("pallet-marketplace", ["NextMarketplaceId", "NextListingId", "NextOfferId"])):
        e = ctx.entry(cr, "build", ty="GenesisConfig")
        for c in counters:
            e.must("%s.%s" % (r, c), "put(%s, 1)" % c, count=1)
        e.only("%s.%s.only" % (r, cr), WRITES, "*", ["put(%s, 1)" % c for c in counters], floor=len(counters), traces="all")
    e = ctx.entry("pallet-erc20-peg", "build", ty="GenesisConfig")
    it = "elem(SELF.erc20s)"
    w = "put(Erc20Meta[%s.f0], tup(%s.f1, %s.f2))" % (it, it, it)
    e.must(r + ".erc20", w, unless="empty(SELF.erc20s)", count=1)
    e.only(r + ".erc20.only", WRITES, "*", [w], floor=1, traces="all")
    e = ctx.entry("pallet-xrpl-bridge", "build", ty="GenesisConfig")
    w = "put(Relayer[elem(SELF.xrp_relayers)], true)"
    e.must(r + ".relayers", w, unless="empty(SELF.xrp_relayers)", count=1)
    e.only(r + ".relayers.only", WRITES, "*", [w], floor=1, traces="all")
    e = ctx.entry("pallet-ethy", "build", ty="GenesisConfig")
    signer = "put(XrplDoorSigners[elem(SELF.xrp_door_signers)], true)"
    keys = lambda n: "put(NotaryXrplKeys, op('it', 'take', op('coll', %s, elem(%s), has(XrplDoorSigners[elem(%s)])), cfg.MaxXrplKeys))" % (n, n, n)
    e.must(r + ".signers", signer, unless="empty(SELF.xrp_door_signers)", count=1)
    e.must(r + ".xrpl_keys", keys("NotaryKeys"), count=1)
    e.order(r + ".signers_first", signer, keys("NotaryKeys"), traces=[t for t in e.all if any(x.kind == "put" and x.name == "XrplDoorSigners" for x in t.fx)])
    e.only(r + ".signers.only", WRITES, "*", [signer, keys("NotaryKeys")], floor=1, traces="all")
    for t in e.all:
        for x in t.fx:
            if x.kind == "put" and x.name == "NotaryXrplKeys":
                cs = [y for y in subterms(x.args[1]) if isT(y) and y.op == "coll"]
                ctx.check(r + ".xrpl_keys.signers", e.where, cs and all(len(y.args) == 3 and len(y.args[2]) == 1 and y.args[2][0][1] is True for y in cs), "the XRPL keys are not those of the door signers")


@prop("T16")
def block_apis(ctx):
    r = "T16"

    def api(fn, tr, res=None, act=None, **k):
        e = ctx.entry(CR, fn, ty="Runtime", trait=tr)
        n = "%s.%s.%s" % (r, tr, fn)
        if act:
            e.must(n + ".once", act, count=1)
            e.only(n + ".only", "call", "*", [act], floor=1)
        if res:
            e.returns(n, res, **k)
        e.noeffect(n + ".pure", kinds=WRITES, traces="all")
        return e
    for fn, tr, args in (("execute_block", "Core", "P0"), ("initialize_block", "Core", "P0"), ("finalize_block", "BlockBuilder", ""), ("offchain_worker", "OffchainWorkerApi", "P0")):
        c = "call('Executive::%s'%s)" % (fn, ", " + args if args else "")
        api(fn, tr, c if fn == "finalize_block" else None, c)
    for fn, tr, args in (("apply_extrinsic", "BlockBuilder", "P0"), ("validate_transaction", "TaggedTransactionQueue", "P0, P1, P2")):
        c = "call('Executive::%s', %s)" % (fn, args)
        e = api(fn, tr, "alt(%s, good(%s.q))" % (c, c), c)
        e.req("%s.%s.%s.err" % (r, tr, fn), "absent(%s)" % c, traces=e.err)
    api("inherent_extrinsics", "BlockBuilder", "mc('create_extrinsics', P0)")
    c = "mc('check_extrinsics', P1, P0)"
    e = api("check_inherents", "BlockBuilder", "alt(%s, good(%s.q))" % (c, c))
    e.req(r + ".BlockBuilder.check_inherents.err", "absent(%s)" % c, traces=e.err)
    api("decode_session_keys", "SessionKeys", "call('SessionKeys::decode_into_raw_public_keys', P0)")
    api("generate_session_keys", "SessionKeys", "call('SessionKeys::generate', P0)")
    api("account_nonce", "AccountNonceApi", "call('System::account_nonce', P0)")
    for fn in ("query_info", "query_fee_details"):
        api(fn, "TransactionPaymentApi", "call('TransactionPayment::%s', P0, P1)" % fn)
    for fn, f in (("query_weight_to_fee", "weight_to_fee"), ("query_length_to_fee", "length_to_fee")):
        api(fn, "TransactionPaymentApi", "call('TransactionPayment::%s', P0)" % f)
    # consensus
    genesis = "struct('BabeEpochConfiguration', c=tup(1, 4), allowed_slots=var('PrimaryAndSecondaryPlainSlots')).%s"
    api("configuration", "BabeApi", "struct('BabeConfiguration', slot_duration=call('Babe::slot_duration'), epoch_length=cfg.EpochDuration, "
        "authorities=call('Babe::authorities'), randomness=call('Babe::randomness'), c=alt(tup(1, 4), %s), allowed_slots=alt(var('PrimaryAndSecondaryPlainSlots'), %s))" % (genesis % "c", genesis % "allowed_slots"))
    for fn in ("current_epoch_start", "current_epoch", "next_epoch"):
        api(fn, "BabeApi", "call('Babe::%s')" % fn)
    p = "call('Historical::prove', tup(op('const', 'sp_consensus_babe::KEY_TYPE'), P1))"
    api("generate_key_ownership_proof", "BabeApi", "good(call('*OpaqueKeyOwnershipProof::new', mc('encode', %s.q)))" % p, p, when="good(%s)" % p).returns(r + ".BabeApi.generate_key_ownership_proof.none", "none", when="absent(%s)" % p)
    d = "mc('decode', P1)"
    s = "call('Babe::submit_unsigned_equivocation_report', P0, %s.q)" % d
    e = ctx.entry(CR, "submit_report_equivocation_unsigned_extrinsic", ty="Runtime", trait="BabeApi")
    e.must(r + ".BabeApi.report", s, when="good(%s)" % d, count=1)
    e.returns(r + ".BabeApi.report", "alt(%s, good(%s.q))" % (s, s), when="good(%s)" % d)
    e.returns(r + ".BabeApi.report.none", "none", when="absent(%s)" % d)
    for fn in ("grandpa_authorities", "current_set_id"):
        api(fn, "GrandpaApi", "call('Grandpa::%s')" % fn)


@prop("T17")
def ethereum_state(ctx):
    r = "T17"
    X = "EthereumRuntimeRPCApi"

    def api(fn, res, tr=X, **k):
        e = ctx.entry(CR, fn, ty="Runtime", trait=tr)
        e.returns("%s.%s" % (r, fn), res, **k)
        e.noeffect("%s.%s.pure" % (r, fn), kinds=WRITES, traces="all")
        return e
    B, R, S = "cfg.CurrentBlock", "cfg.CurrentReceipts", "cfg.CurrentTransactionStatuses"
    api("account_code_at", "AccountCodes[P0]")
    api("storage_at", "AccountStorages[P0, call('H256::from_slice', mut('to_big_endian', op('rep', 0, 32), P1))]")
    api("current_block", B)
    api("current_receipts", R)
    api("current_transaction_statuses", S)
    api("current_all", "tup(%s, %s, %s)" % (B, R, S))
    f = "elem(P0).f0.function"
    tx = "vp(vp(%s, 'Ethereum', 0), 'transact', 'transaction')" % f
    e = api("extrinsic_filter", "op('coll', P0, %s, ...)" % tx)
    # every Ethereum transaction: nothing else decides what is kept
    other = [t for t in e.ok for c in (t.val.args[2] if t.val.op == "coll" and len(t.val.args) > 2 else ()) if not (isT(c[0]) and c[0].op == "is")]
    ctx.check(r + ".extrinsic_filter.all", e.where, not other, "an Ethereum transaction is left out for another reason than not being one")
    api("elasticity", "good(0)")
    api("convert_transaction", "call('UncheckedExtrinsic::new_unsigned', struct('transact', transaction=P0))", tr="ConvertTransactionRuntimeApi")
    e = api("pending_block", "tup(%s, %s)" % (B, S))
    run = "call('Executive::apply_extrinsic', elem(P0))"
    fin = "call('Ethereum::on_finalize', call('System::block_number') + 1)"
    e.must(r + ".pending_block.all", run, unless="empty(P0)", count=1)
    e.must(r + ".pending_block.finalized", fin, count=1)
    e.order(r + ".pending_block.order", run, fin, traces=e.on("nonempty(P0)"))
    e.only(r + ".pending_block.only", "call", "*", [run, fin], floor=2)
