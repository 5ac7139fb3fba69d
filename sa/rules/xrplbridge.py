"""XRPL bridge: relayed deposits, withdrawals, tickets, pruning, administration."""
from .base import *

CR = "pallet-xrpl-bridge"
MAIN = "var('Main')"
NFTD = "var('NFT')"
WIN = "sub(HighestSettledLedgerIndex, SubmissionWindowWidth)"
PID = "mc('into_account_truncating', cfg.PalletId)"
PB = "cfg.ChallengePeriod + call('frame_system::block_number')"


@prop("X01")
def relay(ctx):
    e = ctx.entry(CR, "submit_transaction")
    r = "X01.submit"
    e.req(r + ".relayer", "origin('signer')")
    e.req(r + ".relayer", "truth(Relayer[SIGNER].q)")
    e.req(r + ".mapped", "good(XRPLToAssetId[vp(P3, 'CurrencyPayment', 'currency')])", when="isv(P3, 'CurrencyPayment')")
    e.req(r + ".window", "P1 >= %s" % WIN)
    e.req(r + ".replay", "absent(ProcessXRPTransactionDetails[P2])")
    e.must(r + ".details", "put(ProcessXRPTransactionDetails[P2], (P1, struct('XrpTransaction', transaction_hash=P2, transaction=P3, timestamp=P4), SIGNER))", count=1)
    e.must(r + ".queued", "put(ProcessXRPTransaction[%s], mut('push', has(ProcessXRPTransaction[%s]), P2))" % (PB, PB), count=1)
    e.only(r + ".writes", WRITES, "*", ["put(ProcessXRPTransactionDetails[P2], _)", "put(ProcessXRPTransaction[_], _)"], floor=2)
    e = ctx.entry(CR, "submit_challenge")
    e.req("X01.challenge", "origin('signer')")
    e.must("X01.challenge", "put(ChallengeXRPTransactionList[P1], SIGNER)", count=1)
    e.only("X01.challenge", WRITES, "*", ["put(ChallengeXRPTransactionList[P1], SIGNER)"])
    # settlement
    e = ctx.entry(CR, "on_initialize", trait="Hooks")
    r = "X01.settle"
    h = "elem(ProcessXRPTransaction[P0].q)"
    d = "ProcessXRPTransactionDetails[%s]" % h
    for c in ("call('MultiCurrency::*', ...)", "call('Xls20Ext::deposit_xls20_token', ...)"):
        e.each(r + ".unchallenged", c, "absent(ChallengeXRPTransactionList[%s]) and good(%s)" % (h, d))
    tx = d + ".q.f1.transaction"
    pay, cur, xls = "vp(%s, 'Payment', '%%s')" % tx, "vp(%s, 'CurrencyPayment', '%%s')" % tx, "vp(%s, 'Xls20', '%%s')" % tx
    asset = "XRPLToAssetId[%s].q" % (cur % "currency")
    al = []
    for a, v, ad, am in (("cfg.XrpAssetId", "Payment", pay % "address", pay % "amount"), (asset, "CurrencyPayment", cur % "address", cur % "amount")):
        al.append(("call('MultiCurrency::transfer', %s, %s, %s, %s, _)" % (a, PID, ad, am), "isv(%s, '%s') and %s == cfg.NativeAssetId" % (tx, v, a)))
        al.append(("call('MultiCurrency::mint_into', %s, %s, %s)" % (a, ad, am), "isv(%s, '%s') and %s != cfg.NativeAssetId" % (tx, v, a)))
    e.only(r + ".credit", "call", "MultiCurrency::*", al, floor=4)
    e.only(r + ".nft", "call", "Xls20Ext::*", [("call('Xls20Ext::deposit_xls20_token', %s, %s)" % (xls % "address", xls % "token_id"), "isv(%s, 'Xls20')" % tx)], floor=1)
    ok = "event('ProcessingOk', %s.q.f0, %s)" % (d, h)
    e.each(r + ".ok", ok, "does(call('MultiCurrency::transfer', ...)) or does(call('MultiCurrency::mint_into', ...)) or does(call('Xls20Ext::deposit_xls20_token', ...))")
    e.each(r + ".ok_good", ok, "good(call('MultiCurrency::transfer', ...)) or good(call('MultiCurrency::mint_into', ...)) or good(call('Xls20Ext::deposit_xls20_token', ...))")
    e.each(r + ".recorded", ok, "does(put(SettledXRPTransactionDetails[%s.q.f0], mut('push', _, %s)))" % (d, h))
    e.each(r + ".recorded_ok", "put(SettledXRPTransactionDetails[_], _)", "does(%s)" % ok)
    # every queued, unchallenged transaction with details is settled or reported as failed
    e.req(r + ".all", "empty(ProcessXRPTransaction[P0].q) or absent(ProcessXRPTransaction[P0]) or good(ChallengeXRPTransactionList[%s]) or absent(%s) or does(%s) or does(event('ProcessingFailed', %s.q.f0, %s, _))" % (h, d, ok, d, h))
    e.must(r + ".once", "rm(ProcessXRPTransaction[P0])", count=1)
    # the settled index only grows, and reaches every settled ledger
    e.only(r + ".highest", "put", "HighestSettledLedgerIndex", [
        "put(HighestSettledLedgerIndex, HighestSettledLedgerIndex)",
        "put(HighestSettledLedgerIndex, op('phi', HighestSettledLedgerIndex, _))",
        ("put(HighestSettledLedgerIndex, %s.q.f0)" % d, "%s.q.f0 > op('phi', HighestSettledLedgerIndex, _)" % d),
        "put(HighestSettledLedgerIndex, max(op('phi', HighestSettledLedgerIndex, _), %s.q.f0))" % d], floor=1)
    e.each(r + ".reached", ok, "%s.q.f0 <= op('phi', HighestSettledLedgerIndex, _) or does(put(HighestSettledLedgerIndex, has(%s.q.f0)))" % (d, d))
    writer_table(ctx, "X01.writers", CR, {
        "ProcessXRPTransaction": {"Hooks::on_initialize", "submit_transaction"},
        "ProcessXRPTransactionDetails": {"Hooks::on_idle", "prune_settled_ledger_index", "reset_settled_xrpl_tx_data", "submit_transaction"},
        "SettledXRPTransactionDetails": {"Hooks::on_idle", "Hooks::on_initialize", "prune_settled_ledger_index", "reset_settled_xrpl_tx_data"},
        "ChallengeXRPTransactionList": {"submit_challenge"}, "HighestSettledLedgerIndex": {"Hooks::on_initialize", "reset_settled_xrpl_tx_data"}})


FEE = "DoorTxFee[%s]" % MAIN


@prop("X02")
def withdrawals(ctx):
    for fn, asset, amt, dest in (("withdraw_xrp", "cfg.XrpAssetId", "P1", "P2"), ("withdraw_xrp_with_destination_tag", "cfg.XrpAssetId", "P1", "P2"), ("withdraw", "P1", "P2", "P3")):
        e = ctx.entry(CR, fn)
        r = "X02." + fn
        e.req(r + ".signed", "origin('signer')")
        e.req(r + ".nonzero", "%s != 0" % amt)
        e.req(r + ".door", "good(DoorAddress[%s])" % MAIN)
        # XRP: amount and fee are burned together
        xb = "call('MultiCurrency::burn_from', cfg.XrpAssetId, SIGNER, %s + %s, var('Exact'), _)" % (amt, FEE)
        fb = "call('MultiCurrency::burn_from', cfg.XrpAssetId, SIGNER, %s, var('Exact'), _)" % FEE
        if fn != "withdraw":
            e.must(r + ".burn", xb, count=1)
            e.req(r + ".burned", "good(%s)" % xb)
            e.only(r + ".money", "call", "MultiCurrency::*", [xb])
            e.each(r + ".queued", xb, "does(call('EthyAdapter::sign_xrpl_transaction', has(%s))) or does(put(DelayedPayments[NextDelayedPaymentId], struct('DelayedWithdrawal', sender=SIGNER, withdraw_tx=var('XRP', struct('XrpWithdrawTransaction', amount=%s, destination=%s, tx_fee=%s)))))" % (amt, amt, dest, FEE))
        else:
            ab = "call('MultiCurrency::burn_from', P1, SIGNER, a, var('Exact'), _)"
            rt = "call('MultiCurrency::transfer', cfg.NativeAssetId, SIGNER, %s, a, _)" % PID
            xrp = "P1 == cfg.XrpAssetId"
            e.only(r + ".money", "call", ("MultiCurrency::*burn*", "MultiCurrency::*transfer*", "MultiCurrency::*mint*"), [
                (xb, xrp),
                (fb, "P1 != cfg.XrpAssetId"),
                (rt, "P1 != cfg.XrpAssetId and P1 == cfg.NativeAssetId and good(AssetIdToXRPL[cfg.NativeAssetId])"),
                (ab, "P1 != cfg.XrpAssetId and P1 != cfg.NativeAssetId and good(AssetIdToXRPL[P1])")], floor=4)
            e.must(r + ".burn_xrp", xb, when=xrp, count=1)
            e.must(r + ".fee", fb, when="P1 != cfg.XrpAssetId", count=1)
            e.must(r + ".root", "call('MultiCurrency::transfer', cfg.NativeAssetId, SIGNER, %s, _, _)" % PID, when="P1 != cfg.XrpAssetId and P1 == cfg.NativeAssetId", count=1)
            e.must(r + ".asset", "call('MultiCurrency::burn_from', P1, SIGNER, _, var('Exact'), _)", when="P1 != cfg.XrpAssetId and P1 != cfg.NativeAssetId", count=1)
            for c, cur in ((ab, "P1"), (rt, "cfg.NativeAssetId")):
                e.each(r + ".exact", c,
                       "does(call('EthyAdapter::sign_xrpl_transaction', both(has(a), has(%s), has(AssetIdToXRPL[%s].q.symbol), has(AssetIdToXRPL[%s].q.issuer)))) or "
                       "does(put(DelayedPayments[NextDelayedPaymentId], struct('DelayedWithdrawal', sender=SIGNER, withdraw_tx=var('Asset', struct('AssetWithdrawTransaction', amount=a, destination=%s, asset_id=%s, tx_fee=%s, currency=AssetIdToXRPL[%s].q.symbol, issuer=AssetIdToXRPL[%s].q.issuer)))))"
                       % (dest, cur, cur, dest, cur, FEE, cur, cur))
                # the burned amount is the requested one, or its value rounded down by less than one unit
                e.each(r + ".rounding", c, "m_(a, P2) or P2 - a < op('**', 10, _)")
        e.each(r + ".destination", "call('EthyAdapter::sign_xrpl_transaction', x)", "m_(x, has(%s)) and m_(x, has(DoorAddress[%s].q)) and m_(x, has(%s))" % (dest, MAIN, FEE))
        e.each(r + ".report", "event('WithdrawRequest', sender=s, asset_id=i, destination=d)", "m_(s, SIGNER) and m_(i, %s) and m_(d, %s)" % (asset, dest))
        # the tag, when there is one
        # delays: at or above the threshold the payment waits, below it is sent at once
        thr, dl = "PaymentDelay[%s].q.f0" % asset, "PaymentDelay[%s].q.f1" % asset
        e.each(r + ".delay", "put(DelayedPayments[NextDelayedPaymentId], struct('DelayedWithdrawal', withdraw_tx=has(struct('*WithdrawTransaction', amount=a))))", "good(PaymentDelay[%s]) and a >= %s" % (asset, thr))
        e.each(r + ".nodelay", "event('WithdrawRequest', amount=a)", "absent(PaymentDelay[%s]) or a < %s" % (asset, thr))
        pb = "%s + call('frame_system::block_number')" % dl
        e.each(r + ".schedule", "put(DelayedPayments[NextDelayedPaymentId], _)", "does(put(DelayedPaymentSchedule[%s], mut('push', has(DelayedPaymentSchedule[%s]), NextDelayedPaymentId))) and does(put(NextDelayedPaymentId, NextDelayedPaymentId + 1))" % (pb, pb))
        e.only(r + ".onelane", "put", "DelayedPayments", ["put(DelayedPayments[NextDelayedPaymentId], _)"], floor=1)
        e.req(r + ".oneof", "does(event('WithdrawRequest', sender=_)) or does(put(DelayedPayments[_], _))")
        e.noeffect(r + ".oneof", kinds=("call",), names="EthyAdapter::*", traces=[t for t in e.ok if any(x.kind == "put" and x.name == "DelayedPayments" for x in t.fx)])
    # the tag is carried
    e = ctx.entry(CR, "withdraw_xrp_with_destination_tag")
    e.req("X02.tag", "does(call('EthyAdapter::sign_xrpl_transaction', has(P3))) or does(put(DelayedPayments[_], struct('DelayedWithdrawal', destination_tag=good(P3))))")
    e = ctx.entry(CR, "withdraw")
    e.req("X02.tag", "does(call('EthyAdapter::sign_xrpl_transaction', has(P4.q))) or does(put(DelayedPayments[_], struct('DelayedWithdrawal', destination_tag=P4)))", when="good(P4)")
    # release of delayed payments: what is taken out of the schedule is what is signed
    e = ctx.entry(CR, "process_delayed_payments")
    r = "X02.release"
    ident = "alt(op('idx', DelayedPaymentSchedule[same('b', _)].q, elem(_)), elem(has(DelayedPaymentSchedule[same('b', _)].q)))"
    p = "DelayedPayments[same('k', %s)].q" % ident
    e.each(r + ".taken", "call('EthyAdapter::sign_xrpl_transaction', has(%s))" % p, "does(rm(DelayedPayments[k]))")
    e.each(r + ".only", "call('EthyAdapter::sign_xrpl_transaction', x)", "m_(x, has(%s.withdraw_tx)) or m_(x, has(vp(%s.withdraw_tx, 'XRP', 0))) or m_(x, has(vp(%s.withdraw_tx, 'Asset', 0)))" % (p, p, p))
    e.each(r + ".due", "rm(DelayedPayments[_])", "_ >= op('phi', NextDelayProcessBlock, _) or min(P0, _) >= op('phi', NextDelayProcessBlock, _)")
    e.each(r + ".block", "rm(DelayedPayments[%s])" % ident, "b <= min(P0, _) or b <= P0")
    e.each(r + ".cleared", "rm(DelayedPaymentSchedule[b])", "len(DelayedPaymentSchedule[b].q) <= _")
    e.each(r + ".rest", "put(DelayedPaymentSchedule[b], after(DelayedPaymentSchedule[b].q, same('n', _)))", "n < len(DelayedPaymentSchedule[b].q)")
    e.each(r + ".rest_taken", "put(DelayedPaymentSchedule[b], after(same('v', _), same('n', _)))", "n == 0 or empty(heads(v, n)) or does(rm(DelayedPayments[firsts(v, n)]))")
    e.each(r + ".all_taken", "rm(DelayedPaymentSchedule[b])", "_ == 0 or empty(DelayedPaymentSchedule[b].q) or does(rm(DelayedPayments[%s]))" % ident)
    s = ctx.entry(CR, "process_delayed_payments", split=True)
    s.each(r + ".contiguous", "write(DelayedPaymentSchedule[_])", "does(carry(op('phi', NextDelayProcessBlock, _) + 1)) or does(kind('leave'))", traces="loop")
    e.only(r + ".writes", WRITES, "*", ["rm(DelayedPayments[%s])" % ident, "rm(DelayedPaymentSchedule[_])", "put(DelayedPaymentSchedule[same('b', _)], both(has(DelayedPaymentSchedule[b].q), nota(DelayedPaymentSchedule[b].q)))",
                                        ("put(NextDelayProcessBlock, n)", "n > NextDelayProcessBlock")], floor=4)
    writer_table(ctx, "X02.writers", CR, {
        "DelayedPayments": {"Hooks::on_idle", "withdraw", "withdraw_xrp", "withdraw_xrp_with_destination_tag"},
        "DelayedPaymentSchedule": {"Hooks::on_idle", "withdraw", "withdraw_xrp", "withdraw_xrp_with_destination_tag"},
        "NextDelayedPaymentId": {"withdraw", "withdraw_xrp", "withdraw_xrp_with_destination_tag"}, "NextDelayProcessBlock": {"Hooks::on_idle"}})


@prop("X03")
def tickets(ctx):
    e = ctx.entry(CR, "get_door_ticket_sequence")
    r = "X03.take"
    cur, par, nxt = "DoorTicketSequence[P0]", "DoorTicketSequenceParams[P0]", "DoorTicketSequenceParamsNext[P0]"
    end = "%s.start_sequence + %s.bucket_size" % (par, par)
    inb, out = "%s < %s" % (cur, end), "%s >= %s" % (cur, end)
    e.returns(r + ".returns", "good(%s)" % cur, when=inb)
    e.must(r + ".advance", "put(%s, %s + 1)" % (cur, cur), when=inb, count=1)
    e.returns(r + ".returns_next", "good(%s.start_sequence)" % nxt, when=out)
    e.must(r + ".advance_next", "put(%s, %s.start_sequence + 1)" % (cur, nxt), when=out, count=1)
    e.must(r + ".switch", "put(%s, %s)" % (par, nxt), when=out, count=1)
    e.must(r + ".consumed", "rm(%s)" % nxt, when=out, count=1)
    e.req(r + ".set", "%s != op('default', ...)" % nxt, when=out)
    e.req(r + ".fresh", "%s.start_sequence != %s.start_sequence" % (nxt, par), when=out)
    e.only(r + ".writes", WRITES, ("DoorTicket*",), ["put(%s, _)" % cur, ("put(%s, %s)" % (par, nxt), out), ("rm(%s)" % nxt, out)], floor=3)
    e.each(r + ".notice", "event('TicketSequenceThresholdReached', ...)", "false(TicketSequenceThresholdReachedEmitted[P0]) and does(put(TicketSequenceThresholdReachedEmitted[P0], TRUE))")
    e.must(r + ".rearm", "rm(TicketSequenceThresholdReachedEmitted[P0])", when=out)
    # allocations
    e = ctx.entry(CR, "set_ticket_sequence_next_allocation")
    r = "X03.next"
    e.req(r + ".relayer", "origin('signer')")
    e.req(r + ".relayer", "truth(Relayer[SIGNER].q)")
    e.req(r + ".forward", "P2 >= DoorTicketSequence[P1]")
    e.req(r + ".forward", "P2 >= DoorTicketSequenceParams[P1].start_sequence")
    e.req(r + ".size", "P3 != 0")
    e.only(r + ".writes", WRITES, "*", ["put(DoorTicketSequenceParamsNext[P1], struct('XrplTicketSequenceParams', start_sequence=P2, bucket_size=P3))"], floor=1)
    e = ctx.entry(CR, "set_ticket_sequence_current_allocation")
    r = "X03.current"
    e.req(r + ".root", "origin('root')")
    e.req(r + ".forward", "P2 >= DoorTicketSequence[P1]")
    e.req(r + ".forward", "P3 >= DoorTicketSequenceParams[P1].start_sequence")
    e.req(r + ".size", "P4 != 0")
    e.must(r + ".seq", "put(DoorTicketSequence[P1], P2)", count=1)
    e.must(r + ".params", "put(DoorTicketSequenceParams[P1], struct('XrplTicketSequenceParams', start_sequence=P3, bucket_size=P4))", count=1)
    e.must(r + ".rearm", "rm(TicketSequenceThresholdReachedEmitted[P1])", count=1)
    e.only(r + ".writes", WRITES, "*", ["put(DoorTicketSequence[P1], _)", "put(DoorTicketSequenceParams[P1], _)", "rm(TicketSequenceThresholdReachedEmitted[P1])"])
    # every signed transaction carries the ticket that was taken for its own door
    tk = lambda d: "alt(DoorTicketSequence[%s], DoorTicketSequenceParamsNext[%s].start_sequence)" % (d, d)
    for fn, d in (("withdraw_xrp", MAIN), ("withdraw_xrp_with_destination_tag", MAIN), ("withdraw", MAIN), ("withdraw_nft", NFTD), ("generate_nft_accept_offer", NFTD)):
        e = ctx.entry(CR, fn)
        e.each("X03.%s.ticket" % fn, "call('EthyAdapter::sign_xrpl_transaction', has(same('t', %s)))" % tk(d), "does(put(DoorTicketSequence[%s], t + 1))" % d)
        e.only("X03.%s.ticket" % fn, "call", "EthyAdapter::*", ["call('EthyAdapter::sign_xrpl_transaction', has(%s))" % tk(d)], floor=1)
        e.req("X03.%s.taken" % fn, "does(put(DoorTicketSequence[%s], _))" % d)
    e = ctx.entry(CR, "submit_signer_list_set_request", trait="EthyToXrplBridgeAdapter")
    for d in (MAIN, NFTD):
        e.each("X03.signers.ticket", "call('EthyAdapter::sign_xrpl_transaction', both(has(DoorAddress[%s].q), has(same('t', %s)), has(DoorTxFee[%s])))" % (d, tk(d), d), "does(put(DoorTicketSequence[%s], t + 1))" % d)
        e.must("X03.signers.door", "call('EthyAdapter::sign_xrpl_transaction', both(has(DoorAddress[%s].q), has(%s), has(P0)))" % (d, tk(d)), count=1)
    ws = {"EthyToXrplBridgeAdapter::submit_signer_list_set_request", "generate_nft_accept_offer", "withdraw", "withdraw_nft", "withdraw_xrp", "withdraw_xrp_with_destination_tag"}
    writer_table(ctx, "X03.writers", CR, {
        "DoorTicketSequence": ws | {"set_ticket_sequence_current_allocation"}, "DoorTicketSequenceParams": ws | {"set_ticket_sequence_current_allocation"},
        "DoorTicketSequenceParamsNext": ws | {"set_ticket_sequence_next_allocation"}})


@prop("X04")
def pruning(ctx):
    e = ctx.entry(CR, "clear_storages")
    r = "X04.idle"
    li = "both(elem(op('range', HighestPrunedLedgerIndex, same('end', _))), same('i', _))"
    e.each(r + ".window", "write(SettledXRPTransactionDetails[%s])" % li, "end <= %s" % WIN)
    e.each(r + ".forgotten", "put(SettledXRPTransactionDetails[i], after(same('v', _), same('n', _)))", "n == 0 or empty(heads(v, n)) or does(rm(ProcessXRPTransactionDetails[firsts(v, n)]))")
    e.each(r + ".forgotten_all", "rm(SettledXRPTransactionDetails[i])", "_ == 0 or empty(SettledXRPTransactionDetails[i].q) or does(rm(ProcessXRPTransactionDetails[alt(op('idx', SettledXRPTransactionDetails[i].q, elem(_)), elem(has(SettledXRPTransactionDetails[i].q)))]))")
    e.only(r + ".details", WRITES, "ProcessXRPTransactionDetails", ["rm(ProcessXRPTransactionDetails[alt(op('idx', SettledXRPTransactionDetails[%s].q, elem(_)), elem(has(SettledXRPTransactionDetails[i].q)))])" % li], floor=1)
    e.each(r + ".removed", "rm(SettledXRPTransactionDetails[i])", "len(SettledXRPTransactionDetails[i].q) <= same('n', _)")
    e.each(r + ".rest", "put(SettledXRPTransactionDetails[i], after(SettledXRPTransactionDetails[i].q, same('n', _)))", "n < len(SettledXRPTransactionDetails[i].q)")
    e.only(r + ".writes", WRITES, "*", ["rm(ProcessXRPTransactionDetails[_])", "rm(SettledXRPTransactionDetails[%s])" % li, "put(SettledXRPTransactionDetails[%s], _)" % li,
                                        ("put(HighestPrunedLedgerIndex, n)", "n > HighestPrunedLedgerIndex")], floor=4)
    # the pruned marker advances only past a ledger that has been cleared completely
    e.only(r + ".marker", "put", "HighestPrunedLedgerIndex", [
        "put(HighestPrunedLedgerIndex, op('phi', HighestPrunedLedgerIndex, _))",
        ("put(HighestPrunedLedgerIndex, op('phi', HighestPrunedLedgerIndex, _) + 1)", "does(rm(SettledXRPTransactionDetails[_])) or absent(SettledXRPTransactionDetails[_])")], floor=2)
    e.each(r + ".stop", "put(SettledXRPTransactionDetails[i], _)", "does(put(HighestPrunedLedgerIndex, op('phi', HighestPrunedLedgerIndex, _))) or op('phi', HighestPrunedLedgerIndex, _) <= HighestPrunedLedgerIndex")
    s = ctx.entry(CR, "clear_storages", split=True)
    s.each(r + ".contiguous", "write(SettledXRPTransactionDetails[_])", "does(carry(op('phi', HighestPrunedLedgerIndex, _) + 1)) or does(kind('leave'))", traces="loop")
    e = ctx.entry(CR, "prune_settled_ledger_index")
    r = "X04.manual"
    e.req(r + ".root", "origin('root')")
    e.req(r + ".window", "P1 < %s" % WIN)
    e.req(r + ".exists", "good(SettledXRPTransactionDetails[P1])")
    e.must(r + ".removed", "rm(SettledXRPTransactionDetails[P1])", count=1)
    e.must(r + ".details", "rm(ProcessXRPTransactionDetails[elem(SettledXRPTransactionDetails[P1].q)])", unless="empty(SettledXRPTransactionDetails[P1].q)")
    e.only(r + ".writes", WRITES, "*", ["rm(SettledXRPTransactionDetails[P1])", "rm(ProcessXRPTransactionDetails[elem(SettledXRPTransactionDetails[P1].q)])"], floor=2)
    e = ctx.entry(CR, "on_idle", trait="Hooks", opaque=((CR, "process_delayed_payments"), (CR, "clear_storages")))
    pay = "call('*process_delayed_payments', P0, P1)"
    prune = "call('*clear_storages', alt(op('sat-', P1, %s), mc('saturating_sub', P1, %s)))" % (pay, pay)
    e.must("X04.idle.payments", pay, count=1)
    e.must("X04.idle.prune", prune, count=1)
    e.order("X04.idle.order", pay, prune)
    e.returns("X04.idle.used", "alt(op('sat+', %s, %s), %s + %s)" % (pay, prune, pay, prune))
    e = ctx.entry(CR, "reset_settled_xrpl_tx_data")
    r = "X04.reset"
    e.req(r + ".root", "origin('root')")
    e.req(r + ".pruned_below_window", "P3.q <= sub(P1, P2)", when="good(P3)")
    e.must(r + ".pruned", "put(HighestPrunedLedgerIndex, P3.q)", when="good(P3)", count=1)
    e.must(r + ".highest", "put(HighestSettledLedgerIndex, P1)", count=1)
    e.must(r + ".width", "put(SubmissionWindowWidth, P2)", count=1)
    x = "elem(P4.q)"
    e.must(r + ".details", "put(ProcessXRPTransactionDetails[%s.f0], (%s.f1, %s.f2, %s.f3))" % (x, x, x, x), when="good(P4) and nonempty(P4.q)")
    e.must(r + ".settled", "put(SettledXRPTransactionDetails[%s.f1], mut('push', has(SettledXRPTransactionDetails[%s.f1]), %s.f0))" % (x, x, x), when="good(P4) and nonempty(P4.q)")
    writer_table(ctx, "X04.writers", CR, {"HighestPrunedLedgerIndex": {"Hooks::on_idle", "reset_settled_xrpl_tx_data"}, "SubmissionWindowWidth": {"reset_settled_xrpl_tx_data"}})


@prop("X05")
def admin(ctx):
    def one(fn, origin, *writes):
        e = ctx.entry(CR, fn)
        e.req("X05.%s.origin" % fn, "origin('%s')" % origin)
        e.only("X05.%s.writes" % fn, WRITES, "*", list(writes), floor=1)
        return e
    e = one("add_relayer", "origin:ApproveOrigin", "put(Relayer[P1], TRUE)")
    e.must("X05.add_relayer.effect", "put(Relayer[P1], TRUE)", count=1)
    e = one("remove_relayer", "origin:ApproveOrigin", "rm(Relayer[P1])")
    e.must("X05.remove_relayer.effect", "rm(Relayer[P1])", count=1)
    e.req("X05.remove_relayer.exists", "op('exists', Relayer, ...) == _ or truth(op('exists', ...)) or good(Relayer[P1])")
    e = ctx.entry(CR, "set_door_address")
    e.req("X05.set_door_address.origin", "origin('origin:ApproveOrigin')")
    e.must("X05.set_door_address.set", "put(DoorAddress[P1], alt(P2, P2.q))", unless="absent(P2)")
    e.only("X05.set_door_address.writes", WRITES, "*", ["put(DoorAddress[P1], alt(P2, P2.q))", ("rm(DoorAddress[P1])", "absent(P2)")], floor=1)
    one("set_door_tx_fee", "root", "put(DoorTxFee[P1], P2)").must("X05.set_door_tx_fee.effect", "put(DoorTxFee[P1], P2)", count=1)
    one("set_xrp_source_tag", "root", "put(SourceTag, P1)").must("X05.set_xrp_source_tag.effect", "put(SourceTag, P1)", count=1)
    e = one("set_payment_delay", "root", ("put(PaymentDelay[P1], alt(P2.q, (P2.q.f0, P2.q.f1)))", "good(P2)"), ("rm(PaymentDelay[P1])", "absent(P2)"))
    e.must("X05.set_payment_delay.set", "put(PaymentDelay[P1], alt(P2.q, (P2.q.f0, P2.q.f1)))", when="good(P2)", count=1)
    e.must("X05.set_payment_delay.rm", "rm(PaymentDelay[P1])", when="absent(P2)", count=1)
    e = ctx.entry(CR, "set_xrpl_asset_map")
    r = "X05.set_xrpl_asset_map"
    e.req(r + ".root", "origin('root')")
    e.req(r + ".valid", "truth(mc('is_valid', P2.q.symbol))", when="good(P2)")
    for cond, ws in (("good(P2)", ("put(AssetIdToXRPL[P1], P2.q)", "put(XRPLToAssetId[P2.q], P1)")), ("absent(P2)", ("rm(AssetIdToXRPL[P1])", "rm(XRPLToAssetId[AssetIdToXRPL[P1].q])"))):
        for w in ws:
            e.must(r + ".both", w, when=cond, count=1)
    e.only(r + ".writes", WRITES, "*", ["put(AssetIdToXRPL[P1], P2.q)", "put(XRPLToAssetId[P2.q], P1)", ("rm(AssetIdToXRPL[P1])", "absent(P2)"), ("rm(XRPLToAssetId[AssetIdToXRPL[P1].q])", "absent(P2)")], floor=4)
    writer_table(ctx, "X05.writers", CR, {"Relayer": {"add_relayer", "remove_relayer"}, "AssetIdToXRPL": {"set_xrpl_asset_map"}, "XRPLToAssetId": {"set_xrpl_asset_map"},
                                          "SourceTag": {"set_xrp_source_tag"}, "PaymentDelay": {"set_payment_delay"}, "DoorTxFee": {"set_door_tx_fee"}, "DoorAddress": {"set_door_address"}})


@prop("X06")
def nfts(ctx):
    e = ctx.entry(CR, "withdraw_nft")
    r = "X06.withdraw"
    tok = "Xls20Ext::get_xls20_token_id"
    e.req(r + ".signed", "origin('signer')")
    e.req(r + ".compatible", "truth(call('NFTExt::get_cross_chain_compatibility', P1.f0).q.xrpl)")
    e.must(r + ".burn", "call('NFTExt::do_burn', SIGNER, P1.f0, P1.f1)", count=1)
    e.req(r + ".burned", "good(call('NFTExt::do_burn', SIGNER, P1.f0, P1.f1))")
    t = "call('%s', alt(P1, (P1.f0, P1.f1))).q" % tok
    e.each(r + ".offer", "call('EthyAdapter::sign_xrpl_transaction', both(has(call('NFTokenCreateOffer::new', alt(DoorAddress[%s].q, DoorAddress[var('NFT')].q.f0), alt(P2, P2.f0), %s, 0, 0, _, DoorTxFee[%s], SourceTag, NONE)), has(%s)))" % (NFTD, t, NFTD, t))
    e.only(r + ".calls", "call", ("NFTExt::*", "EthyAdapter::*"), ["call('NFTExt::do_burn', SIGNER, P1.f0, P1.f1)", "call('NFTExt::get_cross_chain_compatibility', P1.f0)", "call('EthyAdapter::sign_xrpl_transaction', has(%s))" % t], floor=2)
    e = ctx.entry(CR, "generate_nft_accept_offer")
    r = "X06.accept"
    e.req(r + ".relayer", "origin('signer')")
    e.req(r + ".relayer", "truth(Relayer[SIGNER].q)")
    e.each(r + ".offer", "call('EthyAdapter::sign_xrpl_transaction', has(call('NFTokenAcceptOffer::new', alt(DoorAddress[%s].q, DoorAddress[var('NFT')].q.f0), P1, 0, _, DoorTxFee[%s], SourceTag, NONE)))" % (NFTD, NFTD))
    e.req(r + ".door", "good(DoorAddress[%s])" % NFTD)
