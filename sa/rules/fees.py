"""Fee proxy (extrinsics and EVM), fee control, fee pot, and maintenance mode."""
import json
from .base import *
from .base import Anchor

FP = "pallet-fee-proxy"


@prop("G01")
def feeproxy(ctx):
    e = ctx.entry(FP, "call_with_fee_preferences")
    r = "G01.call"
    d = "call('dispatch', P3, P0)"
    e.req(r + ".signed", "origin('signer')")
    e.req(r + ".other_asset", "P1 != cfg.FeeAssetId")
    e.req(r + ".not_nested", "absent(mc('is_sub_type', P3)) or notv(mc('is_sub_type', P3).q, 'call_with_fee_preferences')")
    e.must(r + ".dispatched", d, count=1)
    e.req(r + ".ok", "good(mc('dispatch', P3, P0))")
    e.only(r + ".only", WRITES + ("call", "mcall"), "*", [d], floor=1)
    # who pays, and for what
    e = ctx.entry(FP, "withdraw_fee", trait="OnChargeTransaction", opaque=((FP, "get_fee_preferences_data"),))
    r = "G01.withdraw"
    C = "mc('is_sub_type', P1).q"
    IN = "vp(%s, 'call_with_fee_preferences', 'call')" % C
    INC = "mc('is_sub_type', %s).q" % IN
    F1, F2 = "vp(%s, 'proxy_extrinsic', 'futurepass')" % C, "vp(%s, 'proxy_extrinsic', 'futurepass')" % INC
    wrapped = "isv(%s, 'call_with_fee_preferences')" % C
    EX = "truth(call('Proxy::exists', %s, P0, none))"
    wd = "call('OnChargeTransaction::withdraw_fee', %s, P1, P2, P3, P4)"
    e.only(r + ".payer", "call", "OnChargeTransaction::*", [wd % "P0", (wd % F1, EX % F1), (wd % F2, EX % F2 + " and " + wrapped)], floor=3)
    e.must(r + ".paid", wd % "_", count=1)
    e.req(r + ".paid_ok", "good(%s)" % (wd % "_"))
    e.must(r + ".futurepass_pays", wd % F1, when="isv(%s, 'proxy_extrinsic') and %s" % (C, EX % F1), count=1)
    e.must(r + ".futurepass_pays", wd % F2, when=wrapped + " and isv(%s, 'proxy_extrinsic') and %s" % (INC, EX % F2), count=1)
    PAY, MAX = "vp(%s, 'call_with_fee_preferences', 'payment_asset')" % C, "vp(%s, 'call_with_fee_preferences', 'max_payment')" % C
    who = "same('who', alt(P0, %s, %s))" % (F1, F2)
    low = "call('pallet_assets_ext::balance', cfg.FeeAssetId, _) < call('pallet_assets_ext::minimum_balance', cfg.FeeAssetId)"
    MIN = "call('pallet_assets_ext::minimum_balance', cfg.FeeAssetId)"

    def data(ev):
        v = "vp(%s, 'call', '%%s')" % ev
        return "call('get_fee_preferences_data', %s, call('EVMBaseFeeProvider::evm_base_fee_per_gas'), good(%s), %s, %s)" % (v % "gas_limit", v % "max_fee_per_gas", v % "max_priority_fee_per_gas", PAY)
    E1 = data(INC)
    E2 = data("mc('is_sub_type', vp(%s, 'proxy_extrinsic', 'call')).q" % INC)
    sw = "call('pallet_dex::do_swap_with_exact_target', %s, %%s, %s, vec(%s, cfg.FeeAssetId), %s, none)" % (who, MAX, PAY, who)
    amounts = []
    for extra, gd in (([], None), (["%s.q.max_fee_scaled" % E1], E1), (["%s.q.max_fee_scaled" % E2], E2), (["%s.q.max_fee_scaled" % E1, "%s.q.max_fee_scaled" % E2], None)):
        for ed in (False, True):
            s = " + ".join(["P3"] + extra + ([MIN] if ed else []))
            amounts.append((sw % ("(%s)" % s), low if ed else "not (%s)" % low))
    e.only(r + ".swap", "call", "pallet_dex::*", amounts, floor=4)
    e.must(r + ".swapped", sw % "_", when=wrapped, count=1)
    e.req(r + ".swap_ok", "good(%s)" % (sw % "_"), when=wrapped)
    e.must(r + ".evm_gas_included", sw % ("has(%s)" % E1), when="good(%s) and %s" % (E1, wrapped), count=1)
    e.must(r + ".evm_gas_included", sw % ("has(%s)" % E2), when="good(%s) and %s" % (E2, wrapped), count=1)
    tr = [t for t in e.ok if any(True for _ in holds(F(wrapped + " and isv(%s, 'call')" % INC), t.facts, {}, t))]
    e.req(r + ".evm_gas_seen", "good(%s) or absent(%s)" % (E1, E1), traces=tr)
    e.noeffect(r + ".unwrapped", names="pallet_dex::*", traces=[t for t in e.ok if not any(True for _ in holds(F(wrapped), t.facts, {}, t))])
    e.order(r + ".swap_first", sw % "_", wd % "_", traces=[t for t in e.ok if any(True for _ in holds(F(wrapped), t.facts, {}, t))])
    for f, w in ((F2, wrapped + " and isv(%s, 'proxy_extrinsic') and %s" % (INC, EX % F2)), ("P0", wrapped + " and notv(%s, 'proxy_extrinsic')" % INC)):
        e.must(r + ".swapper", "call('pallet_dex::do_swap_with_exact_target', %s, ...)" % f, when=w, count=1)
    e = ctx.entry(FP, "correct_and_deposit_fee", trait="OnChargeTransaction")
    c = "call('OnChargeTransaction::correct_and_deposit_fee', P0, P1, P2, P3, P4, P5)"
    e.only("G01.correct", "call", "*", [c], floor=1)
    e.must("G01.correct", c, count=1)
    e.req("G01.correct.ok", "good(%s)" % c)


RUN, EVM = "FeePreferencesRunner", "call('Runner::%s', %s)"


@prop("G02")
def evmfees(ctx):
    e = ctx.entry(FP, "call", ty=RUN, trait="RunnerT", opaque=((FP, "decode_input"), (FP, "get_fee_preferences_data")))
    r = "G02.call"
    px = "call('P::primary_proxy', %s)"
    SRC = "alt(P0, %s.q)" % (px % "P0")
    TGT = "alt(P1, %s.q)" % (px % "P1")
    ACC = "call('AddressMapping::into_account_id', same('src', %s))" % SRC
    DEC = "call('FeePreferencesRunner::decode_input', P2)"
    FEE = "%s == call('H160::from_low_u64_be', 1211)" % TGT
    NOT = "%s != call('H160::from_low_u64_be', 1211)" % TGT
    D = "call('get_fee_preferences_data', P4, call('EVMBaseFeeProvider::evm_base_fee_per_gas'), P5, P6, %s.q.f0)" % DEC
    IN = "call('pallet_dex::get_amounts_in', %s.q.max_fee_scaled, %s.q.path)" % (D, D)
    rest = ", ".join("P%d" % i for i in range(3, 14))
    plain = EVM % ("call", "same('src', %s), %s, P2, %s" % (SRC, TGT, rest))
    inner = EVM % ("call", "same('src', %s), %s.q.f1, %s.q.f2, %s" % (SRC, DEC, DEC, rest))
    e.only(r + ".only", "call", "Runner::*", [(plain, NOT), (inner, FEE)], floor=2)
    e.must(r + ".called", plain, when=NOT, count=1)
    e.must(r + ".called", inner, when=FEE, count=1)
    e.returns(r + ".result", "good(alt(%s, %s).q)" % (plain, inner))
    chk = "truth(call('MaintenanceChecker::validate_evm_call', %s, %s))"
    e.req(r + ".not_blocked", chk % (ACC, TGT))
    e.req(r + ".target_not_blocked", chk % (ACC, DEC + ".q.f1"), when=FEE)
    diff = "%s.q.max_fee_scaled - %s.q.total_fee_scaled" % (D, D)
    sw = "call('pallet_dex::do_swap_with_exact_supply', same('acc', %s), op('idx', %s.q, 0), %s.q.%%s, %s.q.path, same('acc', _), none)" % (ACC, IN, D, D)
    hi, lo = sw % "max_fee_scaled", sw % "total_fee_scaled"
    e.only(r + ".swap_only", "call", "pallet_dex::do*", [(hi, FEE + " and (%s) == 1" % diff), (lo, FEE + " and (%s) != 1" % diff)], floor=2)
    for s, w in ((hi, " and (%s) == 1"), (lo, " and (%s) != 1")):
        e.must(r + ".swap", s, when=FEE + w % diff, count=1)
    e.req(r + ".swap_ok", "good(%s) or good(%s)" % (hi, lo), when=FEE)
    e.order(r + ".fee_first", "call('pallet_dex::do_swap_with_exact_supply', ...)", inner)
    e = ctx.entry(FP, "validate", ty=RUN, trait="RunnerT")
    v = EVM % ("validate", ", ".join("P%d" % i for i in range(13)))
    e.must("G02.validate", v, count=1)
    e.only("G02.validate", "call", "*", [v], floor=1)
    e.returns("G02.validate", "good(%s.q)" % v)
    for n, k in (("create", 13), ("create2", 14)):
        e = ctx.entry(FP, n, ty=RUN, trait="RunnerT")
        v = EVM % (n, ", ".join("P%d" % i for i in range(k)))
        e.req("G02.%s.not_blocked" % n, "truth(call('MaintenanceChecker::validate_evm_create', call('AddressMapping::into_account_id', P0)))")
        e.must("G02.%s" % n, v, count=1)
        e.only("G02.%s" % n, "call", "Runner::*", [v], floor=1)
        e.returns("G02.%s" % n, "good(%s.q)" % v)
    # arguments of the fee proxy call
    e = ctx.entry(FP, "decode_input", ty=RUN, outs=True)
    r = "G02.decode"
    ARG = "call('ethabi::decode', vec(%s), op('slice', P0, op('range', 4, none)))"
    A, B, U = "var('Address')", "var('Bytes')", "var('Uint', 128)"
    dep, new = ARG % ", ".join((A, U, A, B)), ARG % ", ".join((A, A, B))
    res = "tup(call('U::evm_id_to_runtime_id', vp(%s.q.f0, 'Address', 0), op('rep', 204, 4)).q, vp(%s.q.%s, 'Address', 0), vp(%s.q.%s, 'Bytes', 0))"
    OLD, NEW = "op('slice', P0, op('range', 0, 4)) == vec(37, 90, 52, 50)", "op('slice', P0, op('range', 0, 4)) == vec(246, 9, 130, 134)"
    e.req(r + ".long_enough", "op('len', P0) >= 4")
    e.req(r + ".selector", OLD + " or " + NEW)
    e.returns(r + ".new", "good(%s)" % (res % (new, new, "f1", new, "f2")), when=NEW)
    e.returns(r + ".old", "good(%s)" % (res % (dep, dep, "f2", dep, "f3")), when=OLD)
    # the fee itself
    e = ctx.entry(FP, "get_fee_preferences_data", ty=None)
    r = "G02.fee"
    TOT, MAX = "alt(P0 * (P1 + P3.q), P0 * P1)", "alt(P0 * P2.q, P0 * (P3.q + P1 * 2), P0 * (P1 * 2))"
    S = "op('**', 10, 18 - call('pallet_assets_ext::decimals', cfg.FeeAssetId))"
    e.returns(r + ".path", "good(has(struct('FeePreferencesData', path=vec(P4, cfg.FeeAssetId))))")
    BIG = "absent(alt(has((%s) / %s), 1 + has((%s) / %s)))"
    for f, x in (("total_fee_scaled", TOT), ("max_fee_scaled", MAX)):
        big = BIG % (x, S, x, S)
        ex = "has((%s) / %s)" % (x, S)
        up_ = "has(1 + (%s) / %s)" % (x, S)
        e.returns(r + ".rounded_up", "good(struct('FeePreferencesData', %s=%s))" % (f, up_), unless="((%s) %% %s) == 0 or %s" % (x, S, big))
        e.returns(r + ".scaled", "good(struct('FeePreferencesData', %s=both(%s, nota(%s))))" % (f, ex, up_), when="((%s) %% %s) == 0" % (x, S), unless="((%s) %% %s) != 0 or %s" % (x, S, big))
        e.returns(r + ".saturates", "good(struct('FeePreferencesData', %s=alt(340282366920938463463374607431768211455, op('const', 'u128::MAX'))))" % f, when=big)
    e.req(r + ".within", "(%s) <= (%s)" % (TOT, MAX))
    for w, x in (("good(P2)", "P0 * P2.q"), ("absent(P2) and good(P3)", "P0 * (P3.q + P1 * 2)"), ("absent(P2) and absent(P3)", "P0 * (P1 * 2)")):
        e.returns(r + ".max", "good(struct('FeePreferencesData', max_fee_scaled=has(%s)))" % x, when=w, unless=BIG % (x, S, x, S))
    for w, x in (("good(P3)", "P0 * (P1 + P3.q)"), ("absent(P3)", "P0 * P1")):
        e.returns(r + ".total", "good(struct('FeePreferencesData', total_fee_scaled=has(%s)))" % x, when=w, unless=BIG % (x, S, x, S))


@prop("G03")
def control(ctx):
    FC = "pallet-fee-control"
    for fn, f in (("set_evm_base_fee", "evm_base_fee_per_gas"), ("set_weight_multiplier", "weight_multiplier"), ("set_length_multiplier", "length_multiplier")):
        e = ctx.entry(FC, fn)
        e.req("G03." + fn, "origin('root')")
        w = "put(Data, upd(Data, %s=P1))" % f
        e.only("G03." + fn, WRITES, "*", [w], floor=1)
        e.must("G03." + fn, w, count=1)
    writer_table(ctx, "G03.writers", FC, {"Data": {"set_evm_base_fee", "set_weight_multiplier", "set_length_multiplier"}})
    RT = "mc('ref_time', P0)"
    for fn, p, tr in (("weight_to_fee", "alt(mc('mul', Data.weight_multiplier, {0}), Data.weight_multiplier * {0})", None),
                      ("length_to_fee", "alt(mc('mul', Data.length_multiplier, {0}), Data.length_multiplier * {0})", None),
                      ("base_fee_per_gas", "Data.evm_base_fee_per_gas", None), ("evm_base_fee_per_gas", "Data.evm_base_fee_per_gas", "FeeConfig"),
                      ("weight_multiplier", "Data.weight_multiplier", "FeeConfig"), ("length_multiplier", "Data.length_multiplier", "FeeConfig"),
                      ("min_gas_price", "tup(Data.evm_base_fee_per_gas, _)", "FeeCalculator")):
        e = ctx.entry(FC, fn, trait=tr)
        e.returns("G03." + fn, p.format(RT))
    for ty, fn in (("FeeControlWeightToFee", "weight_to_fee"), ("FeeControlLengthToFee", "length_to_fee")):
        e = ctx.entry("seed-runtime", "weight_to_fee", ty=ty, trait="WeightToFee")
        e.returns("G03.runtime." + fn, "alt(call('*%s', P0), %s)" % (fn, "alt(mc('mul', Data.%(m)s, {0}), Data.%(m)s * {0})".format(RT) % {"m": fn.split("_")[0] + "_multiplier"}))


@prop("G04")
def pot(ctx):
    TP = "pallet-tx-fee-pot"
    POT = "mc('into_account_truncating', cfg.TxFeePotId)"
    for imp, cur in (("FeeNegativeImbalanceOf", "FeeCurrency"), ("StakeNegativeImbalanceOf", "StakeCurrency")):
        e = onunb(ctx, TP, imp)
        r = "G04." + imp
        AM = "alt(mc('peek', P0), P0.amount)"
        dep = "call('%s::deposit_creating', %s, %s)" % (cur, POT, AM)
        e.must(r + ".deposited", dep, count=1)
        e.only(r + ".only", "call", "*", [dep], floor=1)
        if cur == "FeeCurrency":
            e.must(r + ".noted", "put(EraTxFees, EraTxFees + %s)" % AM, count=1)
            e.only(r + ".writes", WRITES, "*", ["put(EraTxFees, EraTxFees + %s)" % AM], floor=1)
        else:
            e.noeffect(r + ".not_noted", kinds=WRITES, traces="all")
    for imp, cur in (("FeePositiveImbalanceOf", "FeeCurrency"), ("StakePositiveImbalanceOf", "StakeCurrency")):
        e = onunb(ctx, TP, imp)
        wd = "call('%s::withdraw', %s, alt(mc('peek', P0), P0.amount), _, var('AllowDeath'))" % (cur, POT)
        e.must("G04.%s.withdrawn" % imp, wd, count=1)
        e.only("G04.%s.only" % imp, ("call",) + WRITES, "*", [wd, "call('WithdrawReasons::*', ...)"], floor=1)
    e = ctx.entry(TP, "era_payout", trait="EraPayout")
    e.returns("G04.payout", "tup(EraTxFees, 0)")
    e.must("G04.payout.reset", "rm(EraTxFees)", count=1)
    e.only("G04.payout.only", WRITES, "*", ["rm(EraTxFees)"], floor=1)
    for fn, p in (("era_pot_balance", "EraTxFees"), ("account_id", POT), ("total_pot_balance", "call('pallet_balances::balance', %s)" % POT)):
        ctx.entry(TP, fn).returns("G04." + fn, p)


def onunb(ctx, crate, imp):
    full = ("pallet_assets_ext" if imp.startswith("Fee") else "pallet_balances", "NegativeImbalance" if "Negative" in imp else "PositiveImbalance")
    fs = []
    for f in ctx.m.crates[crate].methods.get("Pallet", {}).get("on_nonzero_unbalanced", []):
        t = json.dumps(f.impl_tr)
        if imp in t or all('"%s"' % x in t for x in full) or "::".join(full) in t:
            fs.append(f)
    if len(fs) != 1:
        ctx.violation("G04.impl", crate, "%d handlers of %s" % (len(fs), imp))
        raise Anchor(imp)
    return ctx.analyse(fs[0])


MM = "pallet-maintenance-mode"
NAMES = ("Pallet", "SudoPallet", "TimestampPallet", "ImOnlinePallet", "EthyPallet")
low = lambda x: "mc('to_ascii_lowercase', %s)" % x
text = lambda x: "alt(%s.q, call('*from_utf8', %s).q, %s)" % ("call('*from_utf8', %s)" % x, x, x)


def blockable(x):
    return " and ".join("%s != %s" % (low("call('%s::name')" % n), x) for n in NAMES)


def exempt(x):
    return " or ".join("%s == %s" % (low("call('%s::name')" % n), x) for n in NAMES)


@prop("B01")
def settings(ctx):
    e = ctx.entry(MM, "enable_maintenance_mode")
    e.req("B01.enable", "origin('root')")
    e.only("B01.enable", WRITES, "*", ["put(MaintenanceModeActive, P1)"], floor=1)
    e.must("B01.enable", "put(MaintenanceModeActive, P1)", count=1)
    PN, CN = low("P1"), low("P2")
    for fn, st, key, flag in (("block_account", "BlockedAccounts", "P1", "P2"), ("block_evm_target", "BlockedEVMAddresses", "P1", "P2"),
                              ("block_call", "BlockedCalls", "tup(%s, %s)" % (PN, CN), "P3"), ("block_pallet", "BlockedPallets", PN, "P2")):
        e = ctx.entry(MM, fn)
        r = "B01." + fn
        e.req(r + ".root", "origin('root')")
        put, rm = "put(%s[%s], true)" % (st, key), "rm(%s[%s])" % (st, key)
        e.only(r + ".only", WRITES, "*", [(put, "truth(%s)" % flag), (rm, "false(%s)" % flag)], floor=2)
        e.must(r + ".blocked", put, when="truth(%s)" % flag, count=1)
        e.must(r + ".unblocked", rm, when="false(%s)" % flag, count=1)
        if fn in ("block_call", "block_pallet"):
            e.req(r + ".named", "nonempty(P1)")
            e.req(r + ".blockable", blockable(text(PN)))
        if fn == "block_call":
            e.req(r + ".call_named", "nonempty(P2)")
    writer_table(ctx, "B01.writers", MM, {"MaintenanceModeActive": {"enable_maintenance_mode"}, "BlockedAccounts": {"block_account"}, "BlockedEVMAddresses": {"block_evm_target"},
                                          "BlockedCalls": {"block_call"}, "BlockedPallets": {"block_pallet"}})


@prop("B02")
def enforced(ctx):
    ty = "MaintenanceChecker"
    e = ctx.entry(MM, "validate", ty=ty, trait="SignedExtension", outs=True)
    r = "B02.signed"
    N = low("alt(mc('get_call_metadata', P1).pallet_name, vp(mc('get_call_metadata', P1), 'CallMetadata', 'pallet_name'))")
    e.req(r + ".active", "false(MaintenanceModeActive) or " + exempt(N))
    e.req(r + ".account", "absent(BlockedAccounts[P0]) or " + exempt(N))
    e.req(r + ".exempt", blockable(N), traces=e.err)
    bad = [t for t in e.err if not any(True for _ in holds(F("truth(MaintenanceModeActive) or good(BlockedAccounts[P0])"), t.facts, {}, t))]
    ctx.check(r + ".only_if_blocked", "validate", not bad and len(e.err) >= 2, "a call is rejected without the chain or account being blocked")
    e = ctx.entry(MM, "pre_dispatch", ty=ty, trait="SignedExtension")
    e.req("B02.pre_dispatch.active", "false(MaintenanceModeActive) or " + exempt(N))
    e.req("B02.pre_dispatch.account", "absent(BlockedAccounts[P0]) or " + exempt(N))
    M = "mc('get_call_metadata', P0)"
    PN, FN = (low("alt(vp(%s, 'CallMetadata', '%s'), %s.%s)" % (M, n, M, n)) for n in ("pallet_name", "function_name"))
    C, Pq = "BlockedCalls[tup(%s, %s)]" % (PN, FN), "BlockedPallets[%s]" % PN
    e = ctx.entry(MM, "call_paused", ty=ty, trait="MaintenanceCheck")
    r = "B02.paused"
    blocked = "good(%s) or good(%s)" % (C, Pq)
    e.returns(r + ".blocked", "True", when="good(%s)" % C)
    e.returns(r + ".blocked", "True", when="good(%s)" % Pq)
    e.returns(r + ".open", "False", unless="(%s)" % blocked)
    e.returns(r + ".unknown", "True", unless="(absent(%s) and absent(%s)) or %s" % (C, Pq, exempt(PN)))
    e = ctx.entry("seed-runtime", "contains", ty="CallFilter", trait="Contains")
    r = "B02.filter"
    e.returns(r + ".blocked", "False", unless="(absent(%s) and absent(%s)) or %s" % (C, Pq, exempt(PN)))
    for p, c in (("Assets", "create"), ("EthBridge", "submit_challenge"), ("XRPLBridge", "submit_challenge"), ("Staking", "payout_stakers"), ("Proxy", "add_proxy")):
        e.returns(r + ".disabled", "False", when="isv(P0, '%s') and isv(vp(P0, '%s', 0), '%s')" % (p, p, c))
        e.returns(r + ".disabled", "False", unless="notv(P0, '%s') or notv(vp(P0, '%s', 0), '%s')" % (p, p, c))
    BOND = "vp(P0, 'Staking', 0)"
    e.returns(r + ".no_restake", "False", unless="notv(P0, 'Staking') or notv(%s, 'bond') or notv(vp(%s, 'bond', 'payee'), 'Staked')" % (BOND, BOND))
    for fn, k in (("validate_evm_call", 3), ("validate_evm_create", 2)):
        e = ctx.entry(MM, fn, ty=ty, trait="MaintenanceCheckEVM")
        bl = ["truth(MaintenanceModeActive)", "good(BlockedAccounts[P0])", "good(BlockedEVMAddresses[P1])"][:k]
        op = ["false(MaintenanceModeActive)", "absent(BlockedAccounts[P0])", "absent(BlockedEVMAddresses[P1])"][:k]
        e.returns("B02.%s.closed" % fn, "False", unless=" and ".join(op))
        e.returns("B02.%s.open" % fn, "True", unless=" or ".join(bl))
