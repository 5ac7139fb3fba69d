"""ERC20 peg: withdrawals, deposits, delayed payments, settings."""
from .base import *

CR = "pallet-erc20-peg"
NATIVE = "cfg.NativeAssetId"
PEG = "mc('into_account_truncating', cfg.PegPalletId)"
NOW = "call('frame_system::block_number')"
NEXT = "NextDelayedPaymentId"


def delayed(e, r, delay, pay, traces, free="no"):
    """the payment is stored under the next id, which is put on the schedule of the block `delay` from now"""
    slot = "DelayedPaymentSchedule[op('sat+', %s, %s)]" % (delay, NOW)
    st, nx, sc = "put(DelayedPayments[%s], %s)" % (NEXT, pay), "put(%s, %s + 1)" % (NEXT, NEXT), "put(%s, mut('push', %s, %s))" % (slot, slot, NEXT)
    for x in (st, nx, sc):
        e.must(r + ".recorded", x, traces=traces, unless="absent(%s + 1)" % NEXT, count=1)
        e.each(r + ".id_available", x, "good(%s + 1)" % NEXT, traces=traces)
    return [st, nx, sc]


@prop("P01")
def withdrawals(ctx):
    ADDR, PAUSED = "AssetIdToErc20[P1].q", "WithdrawalsDelayActive"
    msg = "call('ethabi::encode', op('vec', var('Address', %s), var('Uint', P2), var('Address', P3)))" % ADDR
    dl = "truth(WithdrawalsDelayActive) and good(PaymentDelay[P1]) and P2 >= PaymentDelay[P1].q.f0"
    for fn, who in (("withdraw", "SIGNER"), ("do_withdrawal", "P0")):
        e = ctx.entry(CR, fn)
        r = "P01." + fn
        if fn == "withdraw":
            e.req(r + ".signed", "origin('signer')")
        e.req(r + ".active", "truth(WithdrawalsActive)")
        e.req(r + ".mapped", "good(AssetIdToErc20[P1])")
        take = {"==": "call('MultiCurrency::transfer', P1, %s, %s, P2, _)" % (who, PEG), "!=": "call('MultiCurrency::burn_from', P1, %s, P2, var('Exact'), var('Polite'))" % who}
        send = {"==": "call('EthBridge::send_event', %s, RootPegContractAddress, %s)" % (PEG, msg), "!=": "call('EthBridge::send_event', %s, ContractAddress, %s)" % (PEG, msg)}
        e.only(r + ".calls", "call", ("MultiCurrency::*", "EthBridge::*"), [(x[c], "P1 %s %s" % (c, NATIVE)) for x in (take, send) for c in ("==", "!=")], floor=4)
        for c in ("==", "!="):
            e.must(r + ".taken", take[c], when="P1 %s %s" % (c, NATIVE), count=1)
            e.each(r + ".taken_ok", take[c], "good(%s)" % take[c])
            e.each(r + ".sent_ok", send[c], "good(%s)" % send[c])
            e.order(r + ".taken_first", take[c], send[c])
            e.each(r + ".not_delayed", send[c], "false(WithdrawalsDelayActive) or absent(PaymentDelay[P1]) or P2 < PaymentDelay[P1].q.f0")
        e.must(r + ".sent", "call('EthBridge::send_event', ...)", unless=dl, count=1)
        tr = [t for t in e.ok if any(True for _ in holds(F(dl), t.facts, {}, t))]
        ctx.check(r + ".delay_case", e.where, len(tr) >= 1, "delayed withdrawals are handled")
        pay = "var('Withdrawal', (%s, struct('WithdrawMessage', token_address=%s, amount=P2, beneficiary=P3)))" % (who, ADDR)
        w = delayed(e, r + ".delay", "PaymentDelay[P1].q.f1", pay, tr)
        e.only(r + ".writes", WRITES, "*", [(x, dl) for x in w], floor=3)
        e.must(r + ".report", "event('Erc20Withdraw', asset_id=P1, amount=P2, beneficiary=P3, source=%s)" % who, unless=dl, count=1)
        if fn == "do_withdrawal":
            e.req(r + ".evm_not_delayed", "isv(P4, 'Runtime')", traces=tr)
            e.returns(r + ".proof", "good(good(call('EthBridge::send_event', ...).q))", when="false(WithdrawalsDelayActive)")
        # nothing is executed on behalf of a withdrawal over the EVM that would have to be delayed
        te = [t for t in e.err if any(True for _ in holds(F("isv(P4, 'Evm') and " + dl), t.facts, {}, t))]
        if fn == "do_withdrawal":
            e.noeffect(r + ".evm_pure", kinds=WRITES + ("call",), traces=te)


def deposit(e, r, tok, amt, ben, traces):
    """the deposited amount of the mapped (or newly created) asset reaches the beneficiary"""
    META = "Erc20Meta[%s].q" % tok
    new = "call('MultiCurrency::create_with_metadata', %s, alt(%s.f0, op('default', _)), alt(%s.f0, op('default', _)), alt(%s.f1, 18), none)" % (PEG, META, META, META)
    mapped = "Erc20ToAssetId[%s]" % tok
    a = "alt(mc('as_u128', %s), %s)" % (amt, amt)
    gives = []
    for aid, known in ((mapped + ".q", "good(%s)" % mapped), (new + ".q", "absent(%s) and good(%s)" % (mapped, new))):
        gives.append(("call('MultiCurrency::transfer', %s, %s, %s, %s, _)" % (aid, PEG, ben, a), "%s and %s == %s" % (known, aid, NATIVE)))
        gives.append(("call('MultiCurrency::mint_into', %s, %s, %s)" % (aid, ben, a), "%s and %s != %s" % (known, aid, NATIVE)))
    e.only(r + ".calls", "call", "MultiCurrency::*", gives + [(new, "absent(%s)" % mapped)], floor=4, traces=traces)
    e.must(r + ".created", new, when="absent(%s)" % mapped, traces=traces, count=1)
    up, down = "put(Erc20ToAssetId[%s], %s.q)" % (tok, new), "put(AssetIdToErc20[%s.q], %s)" % (new, tok)
    for x in (up, down):
        e.must(r + ".mapped", x, when="absent(%s) and good(%s)" % (mapped, new), traces=traces, count=1)
        e.each(r + ".unmapped_only", x, "absent(%s) and good(%s)" % (mapped, new), traces=traces)
    e.req(r + ".given", " or ".join("(does(%s) and good(%s))" % (g, g) for g, _ in gives), traces=traces)
    return [up, down]


@prop("P02")
def deposits(ctx):
    # decoding of the event
    e = ctx.entry(CR, "on_event", trait="EthereumEventSubscriber", opaque=((CR, "do_deposit"),))
    D = "call('ethabi::decode', op('vec', var('Address'), var('Uint', 128), var('Address')), P1).q"
    ev = "struct('Erc20DepositEvent', token_address=vp(%s.f0, 'Address', 0), amount=vp(%s.f1, 'Uint', 0), beneficiary=vp(%s.f2, 'Address', 0))" % (D, D, D)
    c = "call('*do_deposit', P0, %s)" % ev
    e.must("P02.event.deposit", c, count=1)
    e.only("P02.event.once", "call", "*do_deposit", [c], floor=1)
    e.req("P02.event.checked", "good(call('*do_deposit', ...))")
    e.noeffect("P02.event.pure", kinds=WRITES, traces="all")
    e = ctx.entry(CR, "verify_source", trait="EthereumEventSubscriber")
    e.req("P02.source", "P0 == cfg.SourceAddress or P0 == ContractAddress or P0 == RootPegContractAddress")
    e = ctx.entry(CR, "get", ty="GetContractAddress")
    e.returns("P02.source_address", "ContractAddress")
    # the deposit
    tok, amt, ben = "P1.token_address", "P1.amount", "P1.beneficiary"
    M = "Erc20ToAssetId[%s]" % tok
    e = ctx.entry(CR, "do_deposit")
    r = "P02"
    e.req(r + ".active", "truth(DepositsActive)")
    e.req(r + ".bounded", amt + " < _")
    e.req(r + ".source", "absent(%s) or (%s.q == %s and P0 == RootPegContractAddress) or (%s.q != %s and P0 == ContractAddress)" % (M, M, NATIVE, M, NATIVE))
    dl = "good(%s) and truth(DepositsDelayActive) and good(PaymentDelay[%s.q]) and %s >= PaymentDelay[%s.q].q.f0" % (M, M, amt, M)
    tr = [t for t in e.ok if any(True for _ in holds(F(dl), t.facts, {}, t))]
    now = [t for t in e.ok if t not in tr]
    ctx.check(r + ".delay_case", e.where, len(tr) >= 1 and len(now) >= 2, "delayed and immediate deposits are handled")
    w = delayed(e, r + ".delay", "PaymentDelay[%s.q].q.f1" % M, "var('Deposit', P1)", tr)
    e.req(r + ".not_delayed", "absent(%s) or false(DepositsDelayActive) or absent(PaymentDelay[%s.q]) or %s < PaymentDelay[%s.q].q.f0" % (M, M, amt, M), traces=now)
    e.noeffect(r + ".delay.no_payment", kinds=("call",), names="MultiCurrency*", traces=tr)
    maps = deposit(e, r, tok, amt, ben, now)
    e.only(r + ".writes", WRITES, "*", [(x, dl) for x in w] + maps, floor=5)
    # the same for a deposit that was delayed
    e = ctx.entry(CR, "process_deposit")
    maps = deposit(e, r + ".process", "P0.token_address", "P0.amount", "P0.beneficiary", e.ok)
    e.only(r + ".process.writes", WRITES, "*", maps, floor=2)
    e.must(r + ".process.report", "event('Erc20Deposit', beneficiary=P0.beneficiary, amount=_, asset_id=_)", count=1)


@prop("P03")
def delayed_payments(ctx):
    # one payment, once
    e = ctx.entry(CR, "process_delayed_payment", opaque=((CR, "process_deposit"), (CR, "process_withdrawal")))
    r = "P03.process"
    PAY = "DelayedPayments[P0]"
    dep = "call('*process_deposit', vp(%s.q, 'Deposit', 0))" % PAY
    W = "vp(%s.q, 'Withdrawal', 0)" % PAY
    aid = "Erc20ToAssetId[%s.f1.token_address]" % W
    wd = "call('*process_withdrawal', %s.f0, %s.f1, %s.q)" % (W, W, aid)
    e.only(r + ".writes", WRITES, "*", ["rm(%s)" % PAY], floor=1)
    e.only(r + ".calls", "call", "*", [(dep, "good(%s) and isv(%s.q, 'Deposit')" % (PAY, PAY)), (wd, "good(%s) and isv(%s.q, 'Withdrawal') and good(%s)" % (PAY, PAY, aid))], floor=2)
    e.must(r + ".deposit", dep, when="isv(%s.q, 'Deposit')" % PAY, count=1)
    e.must(r + ".withdrawal", wd, when="isv(%s.q, 'Withdrawal') and good(%s)" % (PAY, aid), count=1)
    e.must(r + ".taken", "rm(%s)" % PAY, when="good(%s)" % PAY)
    for x in (dep, wd):
        e.order(r + ".taken_first", "rm(%s)" % PAY, x)
    e.must(r + ".reported", "event('DelayedErc20DepositFailed', payment_id=P0, beneficiary=vp(%s.q, 'Deposit', 0).beneficiary)" % PAY, when="absent(%s)" % dep)
    e.must(r + ".reported", "event('DelayedErc20WithdrawalFailed', asset_id=%s.q, beneficiary=%s.f1.beneficiary)" % (aid, W), when="absent(%s)" % wd)
    # the withdrawal message itself
    e = ctx.entry(CR, "process_withdrawal")
    msg = "call('ethabi::encode', op('vec', var('Address', P1.token_address), var('Uint', P1.amount), var('Address', P1.beneficiary)))"
    for c, a in (("==", "RootPegContractAddress"), ("!=", "ContractAddress")):
        s = "call('EthBridge::send_event', %s, %s, %s)" % (PEG, a, msg)
        e.must("P03.withdrawal.sent", s, when="P2 %s %s" % (c, NATIVE), count=1)
        e.each("P03.withdrawal.checked", s, "good(%s) and P2 %s %s" % (s, c, NATIVE))
    e.only("P03.withdrawal.calls", "call", ("EthBridge*", "MultiCurrency*"), ["call('EthBridge::send_event', %s, _, %s)" % (PEG, msg)], floor=2)
    e.noeffect("P03.withdrawal.pure", kinds=WRITES, traces="all")
    e.must("P03.withdrawal.report", "event('Erc20Withdraw', asset_id=P2, amount=P1.amount, beneficiary=P1.beneficiary, source=P0)", count=1)
    # recording
    e = ctx.entry(CR, "delay_payment")
    w = delayed(e, "P03.delay", "P0", "P1", e.ok)
    e.only("P03.delay.writes", WRITES, "*", w, floor=3)
    e.noeffect("P03.delay.no_payment", kinds=("call",), names="MultiCurrency*", traces="all")
    # blocks become ready when reached
    e = ctx.entry(CR, "on_initialize", trait="Hooks")
    e.only("P03.ready.writes", WRITES, "*", [("put(ReadyBlocks, mut('push', ReadyBlocks, P0))", "good(DelayedPaymentSchedule[P0])")], floor=1)
    e.must("P03.ready", "put(ReadyBlocks, mut('push', ReadyBlocks, P0))", when="good(DelayedPaymentSchedule[P0])", unless="absent(call('try_append', ...))")
    e.noeffect("P03.ready.no_calls", kinds=("call",), traces="all")
    # ready blocks are worked off within the weight limit
    e = ctx.entry(CR, "on_idle", trait="Hooks", opaque=((CR, "process_delayed_payment"),))
    r = "P03.idle"
    V = "DelayedPaymentSchedule[elem(ReadyBlocks)]"
    n = "both(same('n', _), sub(has(P1), op('phi', 0, _)))"
    done, rest = "mut('split_off', %s, %s)" % (V, n), "mres('split_off', %s, %s)" % (V, n)
    p0, p1 = "call('*process_delayed_payment', elem(%s))" % V, "call('*process_delayed_payment', elem(%s))" % done
    keep = "put(%s, %s)" % (V, rest)
    e.only(r + ".calls", "call", "*", [p0, p1], floor=2)
    e.each(r + ".whole", p0, "not does(%s)" % keep)
    e.must(r + ".rest_kept", keep, when="does(%s)" % p1, partial=True)
    e.must(r + ".processed", p1, when="does(%s)" % keep, unless="empty(mut('split_off', %s, _))" % V, partial=True)
    e.must(r + ".processed", p0, when="does(rm(%s)) and nonempty(%s)" % (V, V), unless="does(%s)" % keep, partial=True)
    e.req(r + ".limit", "does(%s) or empty(ReadyBlocks) or not does(rm(%s)) or len(%s) <= _" % (keep, V, V))
    q, q1 = "put(ReadyBlocks, op('slice', ReadyBlocks, op('range', op('phi', 0, _), none)))", "put(ReadyBlocks, op('slice', ReadyBlocks, op('range', 1 + op('phi', 0, _), none)))"
    q0 = "put(ReadyBlocks, ReadyBlocks)"
    e.only(r + ".writes", WRITES, "*", ["rm(%s)" % V, keep, (q, "does(%s)" % keep), (q1, "not does(%s)" % keep), (q0, "empty(ReadyBlocks)")], floor=4)
    e.must(r + ".block_done", "put(ReadyBlocks, op('slice', ReadyBlocks, op('range', 1 + op('phi', 0, _), none)))", when="does(rm(%s))" % V, unless="does(%s)" % keep)
    # root can execute a scheduled payment early, which takes it off the schedule
    e = ctx.entry(CR, "claim_delayed_payment", opaque=((CR, "process_delayed_payment"),))
    r = "P03.claim"
    S = "DelayedPaymentSchedule[P1]"
    e.req(r + ".root", "origin('root')")
    e.must(r + ".process", "call('*process_delayed_payment', P2)", count=1)
    e.only(r + ".calls", "call", "*", ["call('*process_delayed_payment', P2)"], floor=1)
    un = "alt(mut('remove', %s, op('pos', %s, _)), mut('retain', %s, _), op('filter', %s, _))" % (S, S, S, S)
    e.must(r + ".unscheduled", "put(%s, %s)" % (S, un), count=1)
    e.req(r + ".scheduled", "op('wit', %s, _) == P2 or truth(op('contains', %s, P2))" % (S, S))
    e.only(r + ".writes", WRITES, "*", ["put(%s, %s)" % (S, un)], floor=1)
    pay = {"withdraw", "EthereumEventSubscriber::on_event"}
    run = {"Hooks::on_idle", "claim_delayed_payment"}
    writer_table(ctx, "P03.writers", CR, {"DelayedPayments": pay | run, "DelayedPaymentSchedule": pay | run, "NextDelayedPaymentId": pay, "ReadyBlocks": {"Hooks::on_initialize", "Hooks::on_idle"}})


@prop("P04")
def settings(ctx):
    for fn, w in (("activate_deposits", "put(DepositsActive, P1)"), ("activate_withdrawals", "put(WithdrawalsActive, P1)"),
                  ("activate_deposits_delay", "put(DepositsDelayActive, P1)"), ("activate_withdrawals_delay", "put(WithdrawalsDelayActive, P1)"),
                  ("set_erc20_peg_address", "put(ContractAddress, P1)"), ("set_root_peg_address", "put(RootPegContractAddress, P1)"),
                  ("set_payment_delay", "put(PaymentDelay[P1], (P2, P3))")):
        e = ctx.entry(CR, fn)
        e.req("P04.%s.root" % fn, "origin('root')")
        e.must("P04.%s.set" % fn, w, count=1)
        e.only("P04.%s.writes" % fn, WRITES, "*", [w], floor=1)
    e = ctx.entry(CR, "set_erc20_meta")
    w = "put(Erc20Meta[elem(P1).f0], (elem(P1).f1, elem(P1).f2))"
    e.req("P04.meta.root", "origin('root')")
    e.must("P04.meta.set", w, when="nonempty(P1)")
    e.only("P04.meta.writes", WRITES, "*", [w], floor=1)
    e = ctx.entry(CR, "set_erc20_asset_map")
    e.req("P04.map.root", "origin('root')")
    w = ["put(Erc20ToAssetId[P2], P1)", "put(AssetIdToErc20[P1], P2)"]
    for x in w:
        e.must("P04.map.set", x, count=1)
    e.only("P04.map.writes", WRITES, "*", w, floor=2)
    dep = {"EthereumEventSubscriber::on_event", "Hooks::on_idle", "claim_delayed_payment", "set_erc20_asset_map"}
    writer_table(ctx, "P04.writers", CR, {
        "DepositsActive": {"activate_deposits"}, "WithdrawalsActive": {"activate_withdrawals"}, "DepositsDelayActive": {"activate_deposits_delay"},
        "WithdrawalsDelayActive": {"activate_withdrawals_delay"}, "ContractAddress": {"set_erc20_peg_address"}, "RootPegContractAddress": {"set_root_peg_address"},
        "PaymentDelay": {"set_payment_delay"}, "Erc20Meta": {"set_erc20_meta"}, "Erc20ToAssetId": dep, "AssetIdToErc20": dep})
