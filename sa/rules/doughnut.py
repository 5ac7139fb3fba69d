"""Doughnuts: calls delegated by an issuer to a holder."""
from .base import *

CR = "pallet-doughnut"
OP = ((CR, "run_doughnut_common_validations"), (CR, "get_address"))
COMMON = "call('Pallet::run_doughnut_common_validations', %s)"
D1 = "vp(%s.q, 'V1', 0)" % COMMON
ADDR = "call('Pallet::get_address', %s)"


@prop("H01")
def signed(ctx):
    e = ctx.entry(CR, "check_self_contained", ty="Call", opaque=OP)
    r = "H01.check"
    f = {n: "vp(SELF, 'transact', '%s')" % n for n in ("call", "doughnut", "nonce", "genesis_hash", "tip", "signature")}
    d = D1 % f["doughnut"]
    H = ADDR % (d + ".holder")
    e.returns(r + ".holder", "alt(none, good(op('bad', _)), good(good(%s.q)))" % H)
    acc = e.giving("good(good(_))")
    ctx.check(r + ".accepts", "check_self_contained", acc, "no accepting path")
    e.req(r + ".v1", "isv(%s.q, 'V1')" % (COMMON % f["doughnut"]), traces=acc)
    e.req(r + ".not_expired", "good(mc('validate', %s, %s.holder, call('frame_system::block_number')))" % (d, d), traces=acc)
    e.req(r + ".issued", "good(mc('verify', %s))" % d, traces=acc)
    msg = "varst('transact', call=%(call)s, doughnut=%(doughnut)s, nonce=%(nonce)s, genesis_hash=%(genesis_hash)s, tip=%(tip)s, signature=op('vec'))" % f
    e.req(r + ".holder_signed", "good(call('verify_signature', op('const', 'SignatureVersion::EIP191'), %s, alt(%s.holder, mc('holder', %s)), mc('encode', %s)))" % (f["signature"], d, d, msg), traces=acc)
    for w in ("absent(%s)" % (COMMON % f["doughnut"]), "absent(mc('verify', %s))" % d, "absent(mc('validate', %s, ...))" % d, "absent(call('verify_signature', ...))"):
        e.returns(r + ".rejected", "good(op('bad', _))", when=w)
    e.returns(r + ".other", "none", when="notv(SELF, 'transact')")
    # decoding
    e = ctx.entry(CR, "run_doughnut_common_validations")
    r = "H01.decode"
    X = "call('Doughnut::decode', P0)"
    e.req(r + ".decoded", "good(%s)" % X)
    e.req(r + ".exact", "empty(mut('Doughnut::decode', P0)) or good(call('Doughnut::decode_all', P0))")
    e.returns(r + ".result", "good(%s.q)" % X)
    e.req(r + ".v1", "isv(%s.q, 'V1')" % X)


def run_extensions(ctx, r, e, me, origin, method, wi):
    f = {n: "vp(%s, 'transact', '%s')" % (me, n) for n in ("call", "doughnut", "nonce", "genesis_hash", "tip")}
    par = "call('Call::validate_params', %(doughnut)s, %(genesis_hash)s, %(call)s)" % f
    snd = "tup(call('CheckNonZeroSender::new'), call('CheckNonce::from', %s), call('CheckWeight::new'))" % f["nonce"]
    fee = "tup(call('ChargeTransactionPayment::from', %s),)" % f["tip"]
    run = "call('SignedExtension::%s', %%s, %%s, %s, %s)" % (method, f["call"], wi)
    a, b = run % (snd, origin), run % (fee, par + ".q")
    e.only(r + ".only", "call", "SignedExtension::%s" % method, [a, b], floor=2)
    for x in (a, b):
        e.each(r + ".params", x, "good(%s)" % par)
    return f, par, a, b


@prop("H02")
def lifecycle(ctx):
    OPV = OP + ((CR, "validate_params"),)
    e = ctx.entry(CR, "validate_self_contained", ty="Call", opaque=OPV)
    r = "H02.validate"
    f, par, a, b = run_extensions(ctx, r, e, "SELF", "P0", "validate", "P1, P2")
    OK = "good(%s) and good(%s)" % (a, b)
    e.returns(r + ".needs_all", "alt(none, good(op('bad', _)))", unless=OK)
    res = "good(mc('build', has(%s)))"
    e.returns(r + ".provides", res % ("mc('and_provides', _, (P0, %s))" % f["nonce"]), when=OK)
    e.returns(r + ".priority", res % ("mc('priority', _, call('ChargeTransactionPayment::get_priority', P1, P2, %s, 0))" % f["tip"]), when=OK)
    e.returns(r + ".after_previous", res % ("mc('and_requires', _, (P0, %s - 1))" % f["nonce"]), when=OK + " and %s > call('*Account::get', P0).nonce" % f["nonce"], unless="%s == 0" % f["nonce"])
    e = ctx.entry(CR, "apply_self_contained", ty="Call", opaque=OPV)
    r = "H02.apply"
    f, par, a, b = run_extensions(ctx, r, e, "mc('is_sub_type', P0).q", "P1", "pre_dispatch", "P2, P3")
    OK = "good(%s) and good(%s)" % (a, b)
    done = e.on(OK)
    run = "call('dispatch', P0, none)"
    e.must(r + ".dispatched", run, traces=done, count=1)
    e.each(r + ".checked", run, OK)
    e.only(r + ".only_outer", "mcall", "dispatch", [run], floor=1)
    for x in (a, b):
        e.order(r + ".first", x, run)
    for x in (a, b):
        post = "call('*post_dispatch', good(%s.q), P2, _, P3, _)" % x
        ok1 = [t for t in done if any(True for _ in holds(F("does(%s)" % post), t.facts, {}, t))]
        e.order(r + ".refund_last", run, post)
    e.must(r + ".fee_refund", "call('*post_dispatch', good(%s.q), P2, _, P3, _)" % b, traces=done, count=1)
    e.returns(r + ".nothing", "none", unless=OK)
    e.returns(r + ".result", "alt(none, good(mc('dispatch', P0, none)))")
    # who pays
    e = ctx.entry(CR, "validate_params", ty="Call", opaque=OP)
    r = "H02.params"
    d = D1 % "P0"
    payer = ADDR % ("alt(mc('fee_payer', %s), %s.fee_payer)" % (d, d))
    e.req(r + ".chain", "P1 == call('frame_system::block_hash', 0)")
    e.req(r + ".decoded", "good(%s) and isv(%s.q, 'V1')" % (COMMON % "P0", COMMON % "P0"))
    fp = "call('FuturepassLookup::check_extrinsic', P2, _)"
    e.returns(r + ".payer", "good(%s.q)" % payer, when="absent(%s)" % fp)
    e.returns(r + ".payer_futurepass", "good(call('FuturepassLookup::lookup', %s.q).q)" % payer, when="good(%s)" % fp)


def flag(e, rule, slot, v):
    """A boolean entry whose absence reads as false takes the value `v`."""
    up, down = "put(%s, alt(true, %s))" % (slot, v), "put(%s, alt(false, %s))" % (slot, v)
    e.only(rule, WRITES, "*", [(up, "truth(%s)" % v), ("rm(%s)" % slot, "false(%s)" % v), (down, "false(%s)" % v), "put(%s, %s)" % (slot, v)], floor=1)
    e.must(rule + ".set", up, unless="false(%s)" % v, count=1)
    e.must(rule + ".cleared", "rm(%s) or %s" % (slot, down), unless="truth(%s)" % v, count=1)


@prop("H03")
def transact(ctx):
    e = ctx.entry(CR, "transact", opaque=OP)
    r = "H03"
    d = D1 % "P2"
    I, H = ADDR % (d + ".issuer"), ADDR % (d + ".holder")
    HASH = "call('keccak_256', P2)"
    e.req(r + ".only_self_contained", "origin('none_origin')")
    e.req(r + ".v1", "isv(%s.q, 'V1')" % (COMMON % "P2"))
    e.req(r + ".issued", "good(mc('verify', %s))" % d)
    e.req(r + ".whitelisted", "truth(WhitelistedHolders[%s.q])" % H)
    e.req(r + ".not_revoked", "false(BlockedDoughnuts[%s])" % HASH)
    e.req(r + ".holder_not_revoked", "false(BlockedHolders[%s.q, %s.q])" % (I, H))
    top = "call('Topping::decode', mc('get_topping', %s, 'trn').q)" % d
    e.req(r + ".permitted", "good(call('CallValidator::check_extrinsic', P1, %s.q))" % top)
    run = "call('dispatch', P1, var('Signed', %s.q))" % I
    e.must(r + ".dispatched", run, count=1)
    e.only(r + ".only", "mcall", "dispatch", [run], floor=1)
    e.noeffect(r + ".no_state", kinds=WRITES, traces="all")
    e.must(r + ".event", "event('DoughnutCallExecuted', doughnut=P2, call=P1)", count=1)
    e.must(r + ".event_ok", "event('DoughnutCallExecuted', result=good(_))", when="good(mc('dispatch', P1, _))", count=1)
    # revocation
    e = ctx.entry(CR, "revoke_doughnut", opaque=OP)
    r = "H03.revoke"
    HASH = "call('keccak_256', P1)"
    e.req(r + ".issuer", "SIGNER == %s.q" % (ADDR % (D1 % "P1" + ".issuer")))
    flag(e, r, "BlockedDoughnuts[%s]" % HASH, "P2")
    e = ctx.entry(CR, "revoke_holder")
    r = "H03.revoke_holder"
    e.req(r + ".signed", "origin('signer')")
    flag(e, r, "BlockedHolders[SIGNER, P1]", "P2")
    e = ctx.entry(CR, "update_whitelisted_holders")
    e.req("H03.whitelist", "origin('root')")
    flag(e, "H03.whitelist", "WhitelistedHolders[P1]", "P2")
    writer_table(ctx, "H03.writers", CR, {"BlockedDoughnuts": {"revoke_doughnut"}, "BlockedHolders": {"revoke_holder"}, "WhitelistedHolders": {"update_whitelisted_holders"}})


RT = "seed-runtime"


@prop("H04")
def permissions(ctx):
    e = ctx.entry(RT, "check_extrinsic", ty="DoughnutCallValidator")
    r = "H04"
    FPX = "vp(vp(%s, 'Futurepass', 0), 'proxy_extrinsic', 'call')"
    FEE = "vp(vp(P0, 'FeeProxy', 0), 'call_with_fee_preferences', 'call')"
    forms = [("P0", None), (FPX % "P0", None), (FEE, None), (FPX % FEE, None)]
    CALL = "same('c', alt(%s))" % ", ".join(f for f, _ in forms)
    MD = "mc('get_call_metadata', %s)" % CALL
    PN, FN_ = "vp(%s, 'CallMetadata', 'pallet_name')" % MD, "vp(%s, 'CallMetadata', 'function_name')" % MD
    PN, FN_ = "alt(%s, %s.pallet_name)" % (PN, MD), "alt(%s, %s.function_name)" % (FN_, MD)
    val = "mc('validate_module', P1, %s, %s, %%s)" % (PN, FN_)
    S = "var('StringLike', var('StringLike', %s))"
    S1 = "alt(var('StringLike', var('StringLike', %s)), var('StringLike', %s))"
    N = "alt(var('Numeric', var('Numeric', %s)), var('Numeric', %s))"
    lk = "call('*lookup', %s).q"

    def arg(v, c, f):
        return "vp(vp(%s, '%s', 0), '%s', '%s')" % (CALL, v, c, f)
    table = []
    for c in ("transfer", "transfer_keep_alive"):
        table.append(("Balances", c, [("S", lk % arg("Balances", c, "dest")), ("N", arg("Balances", c, "value"))]))
    table.append(("Futurepass", "create", [("S", arg("Futurepass", "create", "account"))]))
    table.append(("System", "remark", [("S", arg("System", "remark", "remark"))]))
    table.append(("AssetsExt", "transfer", [("N", arg("AssetsExt", "transfer", "asset_id")), ("S", lk % arg("AssetsExt", "transfer", "destination")), ("N", arg("AssetsExt", "transfer", "amount")), ("N", arg("AssetsExt", "transfer", "keep_alive"))]))
    facts = []
    for v, c, args in table:
        t = "vec(%s)" % ", ".join((S1 if k == "S" else N) % ("wide(%s)" % x, "wide(%s)" % x) for k, x in args)
        fact = "isv(%s, '%s') and isv(vp(%s, '%s', 0), '%s') and good(%s)" % (CALL, v, CALL, v, c, val % t)
        facts.append(fact)
        tr = e.on("isv(vp(%s, '%s', 0), '%s')" % (CALL, v, c))
        e.req(r + ".%s_%s" % (v.lower(), c), "good(%s)" % (val % t), traces=tr)
    e.req(r + ".listed", " or ".join("(%s)" % f for f in facts))
    e.only(r + ".checked", "mcall", "validate_module", ["call('validate_module', P1, ...)"], floor=1)
    # the innermost call is the one that is checked
    p = ctx.entry(RT, "check_extrinsic", ty="DoughnutCallValidator", opaque=(("pallet-maintenance-mode", "call_paused"),))
    PX = "isv(P0, 'Futurepass') and isv(vp(P0, 'Futurepass', 0), 'proxy_extrinsic')"
    FX = "isv(P0, 'FeeProxy') and isv(vp(P0, 'FeeProxy', 0), 'call_with_fee_preferences')"
    IX = "isv(%s, 'Futurepass') and isv(vp(%s, 'Futurepass', 0), 'proxy_extrinsic')" % (FEE, FEE)
    for w, c in ((PX, FPX % "P0"), (FX + " and " + IX, FPX % FEE), (FX + " and notv(%s, 'Futurepass')" % FEE, FEE), ("isv(P0, 'Balances')", "P0")):
        md = "mc('get_call_metadata', %s)" % c
        e.req(r + ".innermost", "good(mc('validate_module', P1, alt(vp(%s, 'CallMetadata', 'pallet_name'), %s.pallet_name), ...))" % (md, md), when=w)
        ctx.check(r + ".usable", e.where, e.on(w), "no permitted call of the form %s" % w[:90])
        p.req(r + ".not_paused", "false(call('*call_paused', %s))" % c, when=w)
    # fee payer and holder futurepasses
    e = ctx.entry(RT, "lookup", ty="DoughnutFuturepassLookup", trait="StaticLookup")
    e.returns(r + ".futurepass", "good(Holders[P0].q)")
    e = ctx.entry(RT, "check_extrinsic", ty="DoughnutFuturepassLookup")
    e.req(r + ".is_futurepass_call", "(%s) or (isv(P0, 'FeeProxy') and isv(vp(P0, 'FeeProxy', 0), 'call_with_fee_preferences') and isv(%s, 'Futurepass') and isv(vp(%s, 'Futurepass', 0), 'proxy_extrinsic'))" % (PX, FEE, FEE))
    e.req(r + ".other", "not (%s)" % PX, traces=e.err)
