"""Futurepass: creation, ownership, delegates, proxied calls, and the runtime's proxy provider."""
from .base import *

CR = "pallet-futurepass"
EX = "call('Proxy::exists', %s, %s, none)"
ADD = "call('Proxy::add_delegate', SIGNER, %s, %s, %s)"
REM = "call('Proxy::remove_delegate', SIGNER, %s, %s)"


@prop("U01")
def ownership(ctx):
    e = ctx.entry(CR, "create")
    r = "U01.create"
    BYTES = "has(mc('to_be_bytes', NextFuturepassId))"
    FP = "same('fp', %s)" % BYTES
    w, h = "put(NextFuturepassId, 1 + NextFuturepassId)", "put(Holders[P1], %s)" % FP
    add = ADD % (FP, "P1", "255")
    e.req(r + ".signed", "origin('signer')")
    e.req(r + ".one_each", "absent(Holders[P1])")
    e.only(r + ".writes", WRITES, "*", [w, h], floor=2)
    e.must(r + ".id_used", w, count=1)
    e.must(r + ".holder", h, count=1)
    e.must(r + ".owner", add, count=1)
    e.req(r + ".ok", "good(%s)" % add)
    e.only(r + ".calls", "call", "*", [add], floor=1)
    # the address consists of the prefix in front and the id behind
    ident = T("mc", "to_be_bytes", T("ld", "NextFuturepassId", (), 0), ())
    want = [C(255)] * 4 + [T("byte", ident, i) for i in range(16)]
    for t in e.ok:
        for x in t.fx:
            if x.kind == "put" and x.name == "Holders":
                got = layout(x.args[1], lambda y: 16 if y is ident else None)
                ctx.check(r + ".address", e.where, got == want, "the address of a new futurepass is ffffffff and the 16 bytes of its number, not " + show(x.args[1])[:200])
    # transfer
    e = ctx.entry(CR, "transfer_futurepass")
    r = "U01.transfer"
    FP = "Holders[P1].q"
    take, give = "rm(Holders[P1])", "put(Holders[P2.q], %s)" % FP
    DEL = "call('Proxy::delegates', %s)" % FP
    D = "elem(%s)" % DEL
    add, rem, acc = ADD % (FP, "P2.q", "255"), REM % (FP, D + ".f0"), "call('Proxy::remove_account', SIGNER, %s)" % FP
    some, no = "good(P2)", "absent(P2)"
    e.req(r + ".owner", "P1 == SIGNER or %s == SIGNER" % FP)
    e.only(r + ".writes", WRITES, "*", [take, (give, some)], floor=2)
    e.only(r + ".calls", "call", "*", [(add, some), (DEL, some), (rem, some + " and %s.f0 != P2.q" % D), (acc, no)], floor=4)
    e.must(r + ".left", take, count=1)
    e.must(r + ".new_holder", give, when=some, count=1)
    e.must(r + ".new_owner", add, when=some, count=1)
    e.must(r + ".closed", acc, when=no, count=1)
    e.must(r + ".others_removed", rem, when=some + " and %s.f0 != P2.q" % D, count=1)
    tr = [t for t in e.ok if any(True for _ in holds(F(some), t.facts, {}, t))]
    e.req(r + ".all_seen", "empty(%s) or %s.f0 == P2.q or %s.f0 != P2.q" % (DEL, D, D), traces=tr)
    e.req(r + ".one_each", "absent(Holders[P2.q])", traces=tr)
    for x, w in ((add, some), (acc, no)):
        e.req(r + ".ok", "good(%s)" % x, when=w)
    e.each(r + ".removed_ok", rem, "good(%s)" % rem)
    e.order(r + ".after_add", add, DEL)
    writer_table(ctx, "U01.writers", CR, {"Holders": {"create", "do_create_futurepass", "transfer_futurepass", "proxy_extrinsic"}, "NextFuturepassId": {"create", "do_create_futurepass", "proxy_extrinsic"}})


@prop("U02")
def delegates(ctx):
    e = ctx.entry(CR, "register_delegate_with_signature")
    r = "U02.register"
    add = ADD % ("P1", "P2", "P3")
    MSG = "call('keccak_256', both(has(P1), has(P2), has(P3), has(P4)))"
    ETH = "call('keccak_256', mut('extend', mut('extend', _, has(op('len', same('h', call('hex::encode', %s))))), has(same('h', _))))" % MSG
    KEY = "call('crypto::secp256k1_ecdsa_recover', P5, %s)" % ETH
    e.req(r + ".owner", "P1 == SIGNER or Holders[SIGNER].q == P1")
    e.req(r + ".still_delegate", "P1 == SIGNER or truth(%s)" % (EX % ("P1", "SIGNER")))
    e.req(r + ".default_type", "P3 == op('default', ...)")
    e.req(r + ".not_yet", "false(%s)" % (EX % ("P1", "P2")))
    e.req(r + ".deadline", "P4 >= call('frame_system::block_number')")
    e.req(r + ".signature", "good(%s)" % KEY)
    e.req(r + ".by_delegate", "P2 == op('slice', call('keccak_256', %s.q), op('range', 12, none))" % KEY)
    e.must(r + ".added", add, count=1)
    e.req(r + ".ok", "good(%s)" % add)
    e.only(r + ".only", "call", "Proxy::*", [add], floor=1)
    e.noeffect(r + ".pure", kinds=WRITES, traces="all")
    e = ctx.entry(CR, "unregister_delegate")
    r = "U02.unregister"
    rem = REM % ("P1", "P2")
    e.req(r + ".not_owner", "absent(Holders[P2]) or Holders[P2].q != P1")
    e.req(r + ".allowed", "P1 == SIGNER or Holders[SIGNER].q == P1 or P2 == SIGNER")
    e.req(r + ".exists", "truth(%s)" % (EX % ("P1", "P2")))
    e.must(r + ".removed", rem, count=1)
    e.req(r + ".ok", "good(%s)" % rem)
    e.only(r + ".only", "call", "*", [rem], floor=1)
    e.noeffect(r + ".pure", kinds=WRITES, traces="all")
    # proxied calls
    e = ctx.entry(CR, "proxy_extrinsic")
    r = "U02.proxy"
    chk = "call('BlacklistedCallValidator::check_extrinsic', P2, _)"
    d = "call('Proxy::proxy_call', P0, P1, P2)"
    e.req(r + ".signed", "origin('signer')")
    e.req(r + ".not_blacklisted", "false(%s)" % chk)
    sub = "mc('is_sub_type', P2).q"
    for v in ("register_delegate_with_signature", "unregister_delegate", "transfer_futurepass"):
        e.req(r + ".owner_only", "Holders[SIGNER].q == P1", when="isv(%s, '%s')" % (sub, v))
    e.req(r + ".owner_only", "Holders[SIGNER].q == P1 or absent(mc('is_sub_type', P2)) or (notv(%s, 'register_delegate_with_signature') and notv(%s, 'unregister_delegate') and notv(%s, 'transfer_futurepass'))" % (sub, sub, sub))
    e.only(r + ".only", "call", "Proxy::*", [d], floor=1)
    e.must(r + ".dispatched", d, count=1)
    e.returns(r + ".result", d)
    e.noeffect(r + ".pure", kinds=WRITES, traces="all")


@prop("U03")
def provider(ctx):
    RT, TY, TR = "seed-runtime", "ProxyPalletProvider", "ProxyProvider"
    # which calls a delegate may make
    e = ctx.entry(RT, "filter", ty="ProxyType", trait="InstanceFilter")
    r = "U03.filter"
    FP = "vp(P0, 'Futurepass', 0)"
    unlisted = "(notv(%s, 'register_delegate_with_signature') and notv(%s, 'unregister_delegate') and notv(%s, 'transfer_futurepass'))" % (FP, FP, FP)
    OWN = "alt(op('eq', SELF, var('Owner')), op('eq', var('Owner'), SELF), False)"
    e.returns(r + ".closed", "False", when="isv(P0, 'Proxy')")
    e.returns(r + ".closed", "False", when="isv(P0, 'Futurepass') and " + unlisted)
    e.returns(r + ".owner_only", OWN, when="isv(P0, 'Futurepass')", unless="isv(SELF, 'Owner')")
    for v in ("NonTransfer", "Governance", "Staking", "NoPermission"):
        e.returns(r + ".nothing", "alt(%s, False)" % OWN, when="isv(SELF, '%s')" % v)
    # the same through the EVM
    e = ctx.entry(RT, "is_evm_proxy_call_allowed", ty="ProxyType", trait="EvmProxyCallFilter")
    r = "U03.evm"
    REG = "call('H160::from_low_u64_be', 65535)"
    PRE = "mc('starts_with', P0.to.f0, op('rep', 255, 4))"
    for v in ("NonTransfer", "Governance", "Staking", "NoPermission"):
        e.returns(r + ".nothing", "False", when="isv(SELF, '%s') and P0.to.f0 != %s and false(%s)" % (v, REG, PRE))
    names = ("registerDelegateWithSignature(address,uint8,uint32,bytes)", "unregisterDelegate(address)", "transferOwnership(address)")
    listed = " or ".join("op('slice', op('keccak', '%s'), op('range', 0, 4)) == _" % n for n in names)
    for w in ("P0.to.f0 == " + REG, "truth(%s)" % PRE):
        e.returns(r + ".closed", "False", when=w, unless=listed)
    # deposits travel with the delegates
    e = ctx.entry(RT, "add_delegate", ty=TY, trait=TR)
    r = "U03.add"
    PX = "Proxies[P1]"
    diff = "call('pallet_proxy::deposit', 1 + op('len', %s.f0)) - %s.f1" % (PX, PX)
    low = "call('pallet_balances::balance', P1) < cfg.ExistentialDeposit"
    pay = lambda x: "call('pallet_balances::transfer', P0, P1, %s, var('KeepAlive'))" % x
    rich, poor = pay(diff), pay("(%s) + cfg.ExistentialDeposit" % diff)
    add = "call('pallet_proxy::add_proxy_delegate', P1, P2, %s, 0)"
    kinds = ((0, "NoPermission"), (1, "Any"), (2, "NonTransfer"), (3, "Governance"), (4, "Staking"), (255, "Owner"))
    e.only(r + ".only", "call", "*", [(poor, low), (rich, "not (%s)" % low)] + [(add % ("var('%s')" % n), "P3 == %d" % v) for v, n in kinds], floor=8)
    e.must(r + ".paid", poor, when=low, count=1)
    e.must(r + ".paid", rich, when="not (%s)" % low, count=1)
    e.req(r + ".paid_ok", "good(%s) or good(%s)" % (rich, poor))
    e.must(r + ".added", add % "_", count=1)
    e.req(r + ".ok", "good(%s)" % (add % "_"))
    e = ctx.entry(RT, "remove_delegate", ty=TY, trait=TR)
    r = "U03.remove"
    rem = "call('pallet_proxy::remove_proxy_delegate', P1, P2, call('pallet_proxy::find_proxy', P1, P2, none).q.proxy_type, 0)"
    back = "call('pallet_balances::transfer', P1, P0, %s.f1 - %s.f1, _)" % (PX, PX)
    e.only(r + ".only", "call", "*", [rem, back], floor=2)
    e.must(r + ".removed", rem, count=1)
    e.must(r + ".refund", back, count=1)
    e.order(r + ".refund_of_removed", rem, back)
    e.req(r + ".ok", "good(%s) and good(%s)" % (rem, back))
    e = ctx.entry(RT, "remove_account", ty=TY, trait=TR)
    r = "U03.close"
    un, back = "call('pallet_balances::unreserve', P1, %s.f1)" % PX, "call('pallet_balances::transfer', P1, P0, %s.f1, var('AllowDeath'))" % PX
    e.only(r + ".only", ("call",) + WRITES, "*", ["rm(%s)" % PX, un, back], floor=3)
    for x in ("rm(%s)" % PX, un, back):
        e.must(r + ".all", x, count=1)
    e.order(r + ".unreserved_first", un, back)
    e.req(r + ".ok", "good(%s)" % back)
    e = ctx.entry(RT, "proxy_call", ty=TY, trait=TR)
    d = "call('RuntimeCall::dispatch', varst('proxy', real=P1, force_proxy_type=none, call=P2), P0)"
    e.only("U03.call", "call", "*", [d], floor=1)
    e.must("U03.call", d, count=1)
    e.req("U03.call.ok", "good(%s)" % d)
    e = ctx.entry(RT, "exists", ty=TY, trait=TR)
    e.returns("U03.exists", "op('good?', call('pallet_proxy::find_proxy', P0, P1, P2))")
    # an asset call through a futurepass never carries an XRPL transaction
    e = ctx.entry(RT, "check_extrinsic", ty="FuturepassCallValidator", trait="ExtrinsicChecker")
    e.returns("U03.blacklist", "True", when="isv(P0, 'Xrpl') and isv(vp(P0, 'Xrpl', 0), 'transact')")
    # lookup of the account behind a futurepass
    e = ctx.entry(RT, "lookup", ty="FuturepassLookup", trait="StaticLookup")
    e.returns("U03.lookup", "alt(Holders[P0], good(Holders[P0].q))")
    e.req("U03.lookup", "good(Holders[P0])")


@prop("U04")
def precompile(ctx):
    PC, TY = "pallet-evm-precompiles-futurepass", "FuturePassPrecompileSet"
    CALLER, FP = "mc('context', P0).caller", "mc('code_address', P0)"
    e = ctx.entry(PC, "proxy_call", ty=TY, opaque=((PC, "do_proxy"),))
    r = "U04.proxy_call"
    PRE = "mc('starts_with', op('arg', 1).f0, op('rep', 255, 4))"
    d = "call('*do_proxy', P0, %s, op('arg', 0), struct('EvmSubCall', to=op('arg', 1), call_data=op('arg', 3)), op('arg', 2))" % FP
    e.must(r + ".proxied", d, count=1)
    for n in ("registerDelegateWithSignature(address,uint8,uint32,bytes)", "unregisterDelegate(address)", "transferOwnership(address)"):
        is_ = "op('slice', op('keccak', '%s'), op('range', 0, 4)) == op('slice', op('arg', 3).inner, _)" % n
        e.req(r + ".owner_only", "Holders[%s].q == %s" % (CALLER, FP), when="truth(%s) and %s" % (PRE, is_))
        e.req(r + ".owner_only", "false(%s) or Holders[%s].q == %s or op('slice', op('keccak', '%s'), op('range', 0, 4)) != _" % (PRE, CALLER, FP, n))
    e = ctx.entry(PC, "do_proxy", ty=TY)
    r = "U04.do_proxy"
    DEF = "call('pallet_proxy::find_proxy', P1, %s, none)" % CALLER
    ALLOW = "mc('is_evm_proxy_call_allowed', %s.q.proxy_type, P3, _)" % DEF
    e.req(r + ".delegate", "good(%s)" % DEF)
    e.req(r + ".no_delay", "%s.q.delay == 0" % DEF)
    e.req(r + ".filtered", "truth(%s)" % ALLOW)
    ctx_ = "varst('Context', caller=P1, address=P3.to.f0, apparent_value=P4)"
    tr = "good(varst('Transfer', source=P1, target=P3.to.f0, value=P4))"
    cs = []
    for t, w in (("none", "P4 == 0"), (tr, "P4 != 0")):
        for st, v in (("True", "StaticCall"), ("False", "Call")):
            cs.append(("call('call', P0, P3.to.f0, %s, P3.call_data.inner, _, %s, %s)" % (t, st, ctx_), "%s and isv(P2, '%s')" % (w, v)))
    e.only(r + ".subcall", "mcall", "call", cs, floor=4)
    for c, w in cs:
        e.must(r + ".subcall", c, when=w, count=1)
    mk = "call('Runner::create', P1, P3.call_data.inner, P4, ...)"
    mk2 = "call('Runner::create2', P1, P3.call_data.inner, call('H256::from_slice', has(P3.call_data.inner)), P4, ...)"
    e.only(r + ".create", "call", "Runner::*", [(mk, "isv(P2, 'Create')"), (mk2, "isv(P2, 'Create2')")], floor=2)
    # what the callee decided is what the caller sees
    for n in ("Revert", "Error", "Fatal"):
        ctx.check(r + ".outcome", "do_proxy", not [t for t in e.ok if any(True for _ in holds(F("isv(mc('call', P0, ...).f0, '%s')" % n), t.facts, {}, t))], "a failed call through the futurepass is reported as a success")


@prop("U05")
def registered(ctx):
    RT, r = "seed-runtime", "U05"
    own = lambda k: "Proxies[%s].f0" % k
    O = own("P0")
    w = "one(%s)" % O
    e = ctx.entry(RT, "owner", ty="ProxyPalletProvider", trait="ProxyProvider")
    e.returns(r + ".owner", "good(%s.delegate)" % w, when="isv(%s.proxy_type, 'Owner')" % w)
    e.returns(r + ".owner.none", "none", unless="isv(%s.proxy_type, 'Owner')" % w)
    exact(ctx, r + ".owner.all", e, lambda k: k.op == "is" and k.args[1] == "Owner")
    e = ctx.entry(RT, "delegates", ty="ProxyPalletProvider", trait="ProxyProvider")
    e.returns(r + ".delegates", "coll(%s, (elem(%s).delegate, elem(%s).proxy_type))" % (O, O, O))
    e = ctx.entry(RT, "exists", ty="ProxyPalletProvider", trait="ProxyProvider")
    f = "call('pallet_proxy::find_proxy', P0, P1, P2)"
    e.returns(r + ".exists", "alt(op('good?', %s), true)" % f, unless="absent(%s)" % f)
    # the two lookups between holders and futurepasses are each other's inverse view
    for ty in ("FuturepassLookup", "DoughnutFuturepassLookup"):
        e = ctx.entry(RT, "lookup", ty=ty, trait="StaticLookup")
        e.returns("%s.%s.lookup" % (r, ty), "good(Holders[P0].q)")
        e.req("%s.%s.unknown" % (r, ty), "absent(Holders[P0])", traces=e.err)
        e = ctx.entry(RT, "unlookup", ty=ty, trait="StaticLookup", opaque=((RT, "owner"),))
        ow = "call('*::owner', P0)"
        e.returns("%s.%s.unlookup" % (r, ty), "%s.q" % ow, when="good(%s)" % ow)
        e.returns("%s.%s.unlookup" % (r, ty), "op('default', _)", when="absent(%s)" % ow)
    # a delegate may hand out nothing beyond its own type
    e = ctx.entry(RT, "is_superset", ty="ProxyType")
    e.returns(r + ".superset.same", "true", when="P0 == SELF")
    for v in ("Owner", "Any"):
        e.returns(r + ".superset", "true", when="isv(SELF, '%s')" % v)
    e.returns(r + ".superset.no", "false", unless="P0 == SELF or isv(SELF, 'Owner') or isv(SELF, 'Any')")


def exact(ctx, rule, e, ok):
    """the search the function makes has no condition but the given one"""
    n, bad = 0, []
    for t in e.ok:
        for k, v in t.facts.items():
            if k.op == "exists":
                bad += [c for conj in k.args[1] for c, w in conj if not (w and ok(c))]
                n += 1
            elif ok(k):
                n += 1
            elif k.op != "empty":
                bad.append(k)
    ctx.check(rule, e.where, n and not bad, "the search leaves out a matching element")
