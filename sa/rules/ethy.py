"""Ethereum bridge: event relay, challenges, bonds, notarization, event proofs, authority changes."""
from .base import *

CR = "pallet-ethy"
HOLD = "cfg.BridgePalletId"
ROOT = "cfg.NativeAssetId"
OPQ = (("seed-primitives", "verify"), ("pallet-ethy", "handle_authorities_change"))


@prop("E01")
def event_relay(ctx):
    # only the current relayer reports events; an id is accepted at most once
    for fn in ("submit_event", "submit_missing_event"):
        e = ctx.entry(CR, fn)
        r = "E01." + fn
        e.req(r + ".signed", "origin('signer')")
        e.req(r + ".relayer", "Relayer.q == SIGNER or Relayer == SIGNER")
        e.each(r + ".pending", "put(PendingEventClaims[same('k', _)], _)", "absent(PendingEventClaims[k])")
        e.must(r + ".claim", "put(PendingEventClaims[same('k', _)], struct('EventClaim', tx_hash=P1))", count=1)
        e.each(r + ".decoded", "put(PendingEventClaims[same('k', _)], struct('EventClaim', tx_hash=P1, source=same('s', _), destination=same('d', _)))", "k == vp(call('ethabi::decode', _, P2).q.f0, 'Uint', 0) and s == vp(call('ethabi::decode', _, P2).q.f1, 'Address', 0) and d == vp(call('ethabi::decode', _, P2).q.f2, 'Address', 0)")
        e.each(r + ".status", "put(PendingEventClaims[same('k', _)], _)", "does(put(PendingClaimStatus[k], var('Pending')))")
        e.each(r + ".scheduled", "put(PendingEventClaims[same('k', _)], _)", "does(put(MessagesValidAt[ChallengePeriod + call('frame_system::block_number')], mut('push', _, k)))")
        e.only(r + ".writes", WRITES, "*", ["put(PendingEventClaims[_], _)", "put(PendingClaimStatus[_], var('Pending'))", "put(MessagesValidAt[_], _)"])
    e = ctx.entry(CR, "submit_event")
    pid = "ProcessedMessageIds"
    e.each("E01.submit_event.replay", "put(PendingEventClaims[same('k', _)], _)",
           "empty(%s) or (not good(mc('binary_search', %s, k)) and op('idx', %s, 0) < k)" % (pid, pid, pid))
    e = ctx.entry(CR, "submit_missing_event")
    e.each("E01.submit_missing.missed", "put(PendingEventClaims[same('k', _)], _)", "good(mc('binary_search', MissedMessageIds, k)) or k in MissedMessageIds")
    # execution: only at the scheduled block, never while challenged, and the id is marked
    e = ctx.entry(CR, "on_initialize", split=True, opaque=OPQ)
    r = "E01.execute"
    k = "elem(MessagesValidAt[P0])"
    e.each(r + ".scheduled", "call('EventRouter::route', ...)", "does(rm(MessagesValidAt[P0])) and does(rm(PendingEventClaims[%s]))" % k, traces="loop")
    e.only(r + ".form", "call", "EventRouter::*", ["call('EventRouter::route', PendingEventClaims[%s].q.source, PendingEventClaims[%s].q.destination, PendingEventClaims[%s].q.data)" % (k, k, k)], traces="loop", floor=1)
    e.each(r + ".unchallenged", "call('EventRouter::route', ...)", "notv(PendingClaimStatus[%s].q, 'Challenged') or absent(PendingClaimStatus[%s])" % (k, k), traces="loop")
    e.each(r + ".extended", "put(MessagesValidAt[P0 + ChallengePeriod], has(mut('push', _, %s)))" % k, "isv(PendingClaimStatus[%s].q, 'Challenged')" % k, traces="loop")
    e.must(r + ".keep", "put(MessagesValidAt[P0 + ChallengePeriod], has(mut('push', _, %s)))" % k, when="isv(PendingClaimStatus[%s].q, 'Challenged')" % k, traces="loop", count=1)
    e.each(r + ".cleared", "rm(PendingEventClaims[%s])" % k, "does(rm(PendingClaimStatus[%s])) and (absent(PendingClaimStatus[%s]) or notv(PendingClaimStatus[%s].q, 'Challenged'))" % (k, k, k), traces="loop")
    # every id that leaves the queue is marked as processed (or taken off the missed list)
    e.must(r + ".marked", "rm(PendingClaimStatus[%s])" % k,
           traces="loop", when="notv(PendingClaimStatus[%s].q, 'Challenged')" % k)
    ids = "op('phi', ProcessedMessageIds, _)"
    e.each(r + ".marked", "rm(PendingClaimStatus[%s])" % k,
           "does(carry(mut('insert', %s, _, %s))) or good(mc('binary_search', %s, %s)) or %s < alt(op('get', %s, 0).q, op('default', _))" % (ids, k, ids, k, k, ids), traces="loop")
    e.must(r + ".kept", "put(ProcessedMessageIds, has(%s))" % ids, when="(truth(op('phi', FALSE, _)) or 0 < op('phi', 0, _)) and nonempty(%s)" % ids)
    # pruning: ids are only forgotten when everything below them is processed, or they are recorded as missed
    e.only(r + ".prune", "put", "ProcessedMessageIds", [
        "put(ProcessedMessageIds, %s)" % ids,
        "put(ProcessedMessageIds, mut('drain', same('rest', mut('drain', %s, op('range', _, sub(len(%s), cfg.MaxProcessedMessageIds)))), op('range', _, op('pos', _, same('w', _)) - 1)))" % (ids, ids),
        "put(ProcessedMessageIds, mut('drain', same('rest', mut('drain', %s, op('range', _, sub(len(%s), cfg.MaxProcessedMessageIds)))), op('range', _, len(rest) - 1)))" % (ids, ids)], floor=2)
    miss = "op('phi', MissedMessageIds, _)"
    gap = "elem(op('range', op('idx', op('slice', _, _), 0), op('idx', mut('drain', ...), 0)))"
    e.each(r + ".missed", "carry(mut('insert', %s, _, %s))" % (miss, gap), "false(op('contains', op('slice', _, _), %s))" % gap, traces="loop")
    e.only(r + ".missed_only", "carry", "*", ["carry(%s)" % miss, "carry(mut('insert', %s, _, %s))" % (miss, gap), "carry(nota(has(MissedMessageIds)))"], traces="loop", floor=1)
    writer_table(ctx, "E01.writers", CR, {
        "ProcessedMessageIds": {"Hooks::on_initialize"},
        "MissedMessageIds": {"Hooks::on_initialize", "remove_missing_event_id"},
        "MessagesValidAt": {"Hooks::on_initialize", "submit_event", "submit_missing_event"},
        "PendingEventClaims": {"Hooks::on_initialize", "submit_event", "submit_missing_event", "submit_notarization"},
        "PendingClaimStatus": {"Hooks::on_initialize", "submit_event", "submit_missing_event", "submit_notarization", "submit_challenge"}})


@prop("E02")
def bonds(ctx):
    e = ctx.entry(CR, "deposit_relayer_bond")
    r = "E02.deposit"
    e.req(r + ".signed", "origin('signer')")
    e.req(r + ".once", "RelayerPaidBond[SIGNER] == 0")
    e.req(r + ".held", "good(call('MultiCurrency::place_hold', ...))")
    e.must(r + ".hold", "call('MultiCurrency::place_hold', %s, SIGNER, %s, cfg.RelayerBond)" % (HOLD, ROOT), count=1)
    e.only(r + ".record", WRITES, "*", ["put(RelayerPaidBond[SIGNER], cfg.RelayerBond)"], floor=1)
    e = ctx.entry(CR, "withdraw_relayer_bond")
    r = "E02.withdraw"
    e.req(r + ".signed", "origin('signer')")
    e.req(r + ".inactive", "absent(Relayer) or Relayer.q != SIGNER")
    e.req(r + ".some", "RelayerPaidBond[SIGNER] != 0")
    e.req(r + ".released", "good(call('MultiCurrency::release_hold', ...))")
    e.must(r + ".release", "call('MultiCurrency::release_hold', %s, SIGNER, %s, RelayerPaidBond[SIGNER])" % (HOLD, ROOT), count=1)
    e.must(r + ".record", "rm(RelayerPaidBond[SIGNER])", count=1)
    e.only(r + ".only", WRITES, "*", ["rm(RelayerPaidBond[SIGNER])"], floor=1)
    e = ctx.entry(CR, "set_relayer")
    e.req("E02.set_relayer.root", "origin('root')")
    e.req("E02.set_relayer.bonded", "RelayerPaidBond[P1] >= cfg.RelayerBond")
    e.only("E02.set_relayer.effect", WRITES, "*", ["put(Relayer, P1)"], floor=1)
    e = ctx.entry(CR, "submit_challenge")
    r = "E02.challenge"
    e.req(r + ".signed", "origin('signer')")
    e.req(r + ".exists", "good(PendingEventClaims[P1])")
    e.req(r + ".once", "isv(PendingClaimStatus[P1].q, 'Pending')")
    e.req(r + ".held", "good(call('MultiCurrency::place_hold', ...))")
    e.must(r + ".hold", "call('MultiCurrency::place_hold', %s, SIGNER, %s, cfg.ChallengeBond)" % (HOLD, ROOT), count=1)
    e.must(r + ".who", "put(ChallengerAccount[P1], (SIGNER, cfg.ChallengeBond))", count=1)
    e.must(r + ".queue", "put(PendingClaimChallenges, has(mut('push', _, P1)))", count=1)
    e.must(r + ".status", "put(PendingClaimStatus[P1], var('Challenged'))", count=1)
    # verdicts: the loser's bond goes to the winner, exactly once
    e = ctx.entry(CR, "submit_notarization")
    r = "E02.verdict"
    c = "ChallengerAccount[same('k', _)].q"
    ch = "ChallengerAccount[k].q"
    inv = "event('Invalid', event_claim_id=same('k', _))"
    val = "event('Verified', event_claim_id=same('k', _))"
    e.only(r + ".money", "call", "MultiCurrency::*", [
        ("call('MultiCurrency::release_hold', %s, %s.f0, %s, %s.f1)" % (HOLD, c, ROOT, ch), "does(event('Invalid', event_claim_id=k)) and does(rm(ChallengerAccount[k]))"),
        ("call('MultiCurrency::spend_hold', %s, Relayer.q, %s, op('vec', (%s.f0, RelayerPaidBond[Relayer.q])))" % (HOLD, ROOT, c), "does(event('Invalid', event_claim_id=k)) and does(rm(RelayerPaidBond[Relayer.q])) and does(rm(Relayer))"),
        ("call('MultiCurrency::spend_hold', %s, %s.f0, %s, op('vec', (Relayer.q, %s.f1)))" % (HOLD, c, ROOT, ch), "does(event('Verified', event_claim_id=k)) and does(rm(ChallengerAccount[k]))")], floor=3)
    e.each(r + ".invalid.removed", inv, "does(rm(PendingEventClaims[k]))")
    e.each(r + ".invalid.status", inv, "does(rm(PendingClaimStatus[k])) or absent(ChallengerAccount[k])")
    e.each(r + ".invalid.released", inv, "absent(ChallengerAccount[k]) or does(call('MultiCurrency::release_hold', %s, %s.f0, %s, %s.f1))" % (HOLD, ch, ROOT, ch))
    e.each(r + ".invalid.slashed", inv, "absent(ChallengerAccount[k]) or absent(Relayer) or does(call('MultiCurrency::spend_hold', %s, Relayer.q, %s, op('vec', (%s.f0, RelayerPaidBond[Relayer.q]))))" % (HOLD, ROOT, ch))
    e.each(r + ".invalid.relayer", inv, "absent(ChallengerAccount[k]) or absent(Relayer) or (does(rm(Relayer)) and does(rm(RelayerPaidBond[Relayer.q])))")
    e.each(r + ".valid.paid", val, "absent(ChallengerAccount[k]) or does(call('MultiCurrency::spend_hold', %s, %s.f0, %s, op('vec', (Relayer.q, %s.f1))))" % (HOLD, ch, ROOT, ch))
    e.each(r + ".valid.status", val, "does(put(PendingClaimStatus[k], var('ProvenValid')))")
    e.each(r + ".good", "call('MultiCurrency::spend_hold', ...)", "good(call('MultiCurrency::spend_hold', ...))")
    e.each(r + ".good", "call('MultiCurrency::release_hold', ...)", "good(call('MultiCurrency::release_hold', ...))")
    for ev in (inv, val):
        e.each(r + ".dequeued", ev, "does(put(PendingClaimChallenges, has(mut('remove', _, ...)))) or does(put(PendingClaimChallenges, mut('retain', PendingClaimChallenges, op('not', alt(op('eq', k, elem(PendingClaimChallenges)), op('eq', elem(PendingClaimChallenges), k)))))) or false(op('exists', PendingClaimChallenges, ...)) or empty(PendingClaimChallenges)")
        e.each(r + ".votes_cleared", ev, "does(rm(EventNotarizations[k]))")
    writer_table(ctx, "E02.writers", CR, {
        "Relayer": {"set_relayer", "submit_notarization"}, "RelayerPaidBond": {"deposit_relayer_bond", "withdraw_relayer_bond", "submit_notarization"},
        "ChallengerAccount": {"submit_challenge", "submit_notarization"}, "PendingClaimChallenges": {"submit_challenge", "submit_notarization"}})


@prop("E03")
def notarization(ctx):
    e = ctx.entry(CR, "submit_notarization")
    r = "E03.submit"
    e.req(r + ".unsigned", "origin('none_origin')")
    n = "op('get', NotaryKeys, alt(vp(P1, 'Event', 'authority_index'), vp(P1, 'Call', 'authority_index'))).q"
    ev, call = "vp(P1, 'Event', 'event_claim_id')", "vp(P1, 'Call', 'call_id')"
    e.must(r + ".vote", "put(EventNotarizations[%s, %s], vp(P1, 'Event', 'result'))" % (ev, n), when="isv(P1, 'Event')", count=1)
    e.must(r + ".vote", "put(EthCallNotarizations[%s, %s], vp(P1, 'Call', 'result'))" % (call, n), when="isv(P1, 'Call')", count=1)
    e.only(r + ".votes", "put", ("EventNotarizations", "EthCallNotarizations"), ["put(EventNotarizations[%s, %s], vp(P1, 'Event', 'result'))" % (ev, n), "put(EthCallNotarizations[%s, %s], vp(P1, 'Call', 'result'))" % (call, n)], floor=2)
    e.req(r + ".challenged", "isv(PendingClaimStatus[%s].q, 'Challenged')" % ev, when="isv(P1, 'Event')")
    e.req(r + ".active", "good(EthCallRequestInfo[%s])" % call, when="isv(P1, 'Call')")
    # verdict thresholds over the whole validator set
    N = "has(len(call('AuthoritySet::validators')))"
    T = "cfg.NotarizationThreshold"
    votes = "_"
    e.each(r + ".invalid", "event('Invalid', event_claim_id=_)", "call('Percent::from_parts', 100 - mc('deconstruct', %s)) < call('Percent::from_rational', same('nay', _), %s)" % (T, N))
    e.each(r + ".valid", "event('Verified', event_claim_id=_)", "%s <= call('Percent::from_rational', same('yay', _), %s)" % (T, N))
    # votes are counted once each, valid and other verdicts separately
    es = "op('entries', 'EventNotarizations', ...)"
    e2 = ctx.entry(CR, "handle_event_notarization", split=True) if ctx.fn(CR, "handle_event_notarization") else ctx.entry(CR, "submit_notarization", split=True)
    v = "elem(%s).f1" % es
    # exactly one of the tallies grows with each vote, by one
    e2.each(r + ".count", "carry(1 + op('phi', 0, _)) ", None, traces="loop")
    t = [x for x in e2.loops if any(f.kind == "carry" for f in x.fx)]
    n_yay = n_nay = 0
    for tr in t:
        incs = [f for f in tr.fx if f.kind == "carry" and any(True for _ in match(P("1 + op('phi', 0, loop)"), f.args[0], {}))]
        oth = [f for f in tr.fx if f.kind == "carry" and f not in incs]
        yes = any(True for _ in holds(F("isv(%s, 'Valid')" % v), tr.facts, {}, tr))
        no = any(True for _ in holds(F("notv(%s, 'Valid')" % v), tr.facts, {}, tr))
        if not (yes or no):
            continue
        n_yay += yes
        n_nay += no
        ctx.check(r + ".tally", e2.where, len(incs) == 1 and all(any(True for _ in match(P("op('phi', 0, loop)"), f.args[0], {})) for f in oth), "every recorded vote raises exactly one tally by one")
    names = lambda val: {f.name for tr in t for f in tr.fx if f.kind == "carry" and any(True for _ in match(P("1 + op('phi', 0, loop)"), f.args[0], {})) and any(True for _ in holds(F(val), tr.facts, {}, tr))}
    y, nn = names("isv(%s, 'Valid')" % v), names("notv(%s, 'Valid')" % v)
    ctx.check(r + ".tally", e2.where, len(y) == 1 and len(nn) == 1 and y != nn, "valid votes and other votes are tallied separately")
    ctx.check(r + ".tally", e2.where, n_yay > 0 and n_nay > 0, "the vote tally is found")
    # the tally of valid votes decides validity, the other one invalidity
    votes_ = "op('entries', 'EventNotarizations', ...)"
    for tr in e.ok:
        for f in tr.fx:
            for evn, want in (("Invalid", "notv"), ("Verified", "isv")):
                if f.kind == "event" and f.name == evn:
                    # on the class where the (only) vote seen in the abstract iteration is of the other kind, the deciding count is the un-incremented one
                    pass
    e.each(r + ".which", "event('Verified', event_claim_id=_)",
           "empty(%s) or (isv(%s, 'Valid') and %s <= call('Percent::from_rational', 1 + op('phi', 0, _), _)) or (notv(%s, 'Valid') and %s <= call('Percent::from_rational', op('phi', 0, _), _))" % (es, v, T, v, T))
    e.each(r + ".which", "event('Invalid', event_claim_id=_)",
           "empty(%s) or (notv(%s, 'Valid') and _ < call('Percent::from_rational', 1 + op('phi', 0, _), _)) or (isv(%s, 'Valid') and _ < call('Percent::from_rational', op('phi', 0, _), _))" % (es, v, v))
    # eth_call results
    agg = "EthCallNotarizationsAggregated[%s]" % call
    e.each(r + ".call.callback", "call('EthCallSubscribers::*', same('k', _), ...)", "does(rm(EthCallRequestInfo[k])) and does(rm(EthCallNotarizations[k])) and does(rm(EthCallNotarizationsAggregated[k]))")
    e.each(r + ".call.ok", "call('EthCallSubscribers::on_eth_call_complete', %s, ...)" % call,
           "%s <= call('Percent::from_rational', _, %s) or %s == _ or false(op('exists', ...))" % (T, N, N))
    res = "vp(P1, 'Call', 'result')"
    now = "alt(op('idx', _, %s), op('get', _, %s).q)" % (res, res)
    add = "put(%s, alt(op('updelem', _, %s, 1 + %s), mut('insert', _, %s, 1 + %s)))" % (agg, now, now, res, now)
    new = "put(%s, mut('insert', _, %s, 1))" % (agg, res)
    e.must(r + ".call.count", add, when="isv(P1, 'Call')", unless="does(call('EthCallSubscribers::*', ...)) or absent(op('get', _, %s)) and does(%s)" % (res, new))
    # a vote enters the block only when it is authentic and new
    e = ctx.entry(CR, "validate_unsigned", trait="ValidateUnsigned", opaque=OPQ)
    r = "E03.unsigned"
    pl = "vp(P1, 'submit_notarization', 'payload')"
    ok = e.ok
    e.req(r + ".only", "isv(P1, 'submit_notarization')", traces=ok)
    for var, idf, sto in (("Event", "event_claim_id", "EventNotarizations"), ("Call", "call_id", "EthCallNotarizations")):
        ky = "op('get', NotaryKeys, vp(%s, '%s', 'authority_index')).q" % (pl, var)
        w = "isv(%s, '%s')" % (pl, var)
        e.req(r + ".member", "good(op('get', NotaryKeys, vp(%s, '%s', 'authority_index')))" % (pl, var), when=w, traces=ok)
        e.req(r + ".fresh", "absent(%s[vp(%s, '%s', '%s'), %s])" % (sto, pl, var, idf, ky), when=w, traces=ok)
        e.req(r + ".signature", "truth(mc('verify', %s, has(%s), vp(P1, 'submit_notarization', 'signature')))" % (ky, pl), when=w, traces=ok)
    e.each(r + ".provides", "call('and_provides', _, op('vec', _, has(_), has(alt(vp(%s,'Event','event_claim_id'), vp(%s,'Call','call_id'))), has(alt(vp(%s,'Event','authority_index'), vp(%s,'Call','authority_index')))))" % (pl, pl, pl, pl), None, traces=ok)
    ctx.check(r, e.where, len(ok) >= 2, "accepting outcomes of the unsigned transaction validation are found")


@prop("E04")
def event_proofs(ctx):
    for fn, tr, rq in (("send_event", "EthereumBridge", "var('Ethereum', struct('EthereumEventInfo', source=P0, destination=P1, message=P2, validator_set_id=NotarySetId, event_proof_id=NextEventProofId))"),
                       ("sign_xrpl_transaction", "XrplBridgeToEthyAdapter", "var('XrplTx', P0)")):
        e = ctx.entry(CR, fn, trait=tr)
        r = "E04." + fn
        e.must(r + ".id", "put(NextEventProofId, alt(NextEventProofId + 1, op('wrap+', NextEventProofId, 1)))", count=1)
        e.returns(r + ".returns", "good(NextEventProofId)")
        e.must(r + ".delayed", "put(PendingEventProofs[NextEventProofId], %s)" % rq, when="truth(BridgePaused.manual_pause)", count=1)
        e.must(r + ".delayed", "put(PendingEventProofs[NextEventProofId], %s)" % rq, when="truth(BridgePaused.authorities_change)", count=1)
        e.each(r + ".paused", "call('frame_system::deposit_log', ...)", "false(BridgePaused.manual_pause) and false(BridgePaused.authorities_change)")
        e.must(r + ".signed", "call('frame_system::deposit_log', has(varst('OpaqueSigningRequest', event_proof_id=NextEventProofId)))", when="false(BridgePaused.manual_pause) and false(BridgePaused.authorities_change)", count=1)
    e = ctx.entry(CR, "send_event", trait="EthereumBridge")
    e.each("E04.send_event.payload", "call('frame_system::deposit_log', has(varst('OpaqueSigningRequest', data=call('hashing::keccak_256', call('ethabi::encode', op('vec', has(P0), has(P1), has(P2), has(NotarySetId), has(NextEventProofId)))))))")
    e = ctx.entry(CR, "sign_xrpl_transaction", trait="XrplBridgeToEthyAdapter")
    e.each("E04.sign_xrpl.payload", "call('frame_system::deposit_log', has(varst('OpaqueSigningRequest', chain_id=var('Xrpl'), data=P0)))")
    # delayed proofs: re-signed with the current validator set
    e = ctx.entry(CR, "do_request_event_proof")
    info = "vp(P1, 'Ethereum', 0)"
    e.only("E04.request.payload", "call", "*deposit_log", [
        ("call('frame_system::deposit_log', has(varst('OpaqueSigningRequest', chain_id=var('Ethereum'), event_proof_id=P0, data=call('hashing::keccak_256', call('ethabi::encode', op('vec', has(%s.source), has(%s.destination), has(%s.message), has(NotarySetId), has(%s.event_proof_id)))))))" % (info, info, info, info), "isv(P1,'Ethereum')"),
        ("call('frame_system::deposit_log', has(varst('OpaqueSigningRequest', chain_id=var('Ethereum'), event_proof_id=P0, data=call('hashing::keccak_256', call('ethabi::encode', op('vec', has(%s.source), has(%s.destination), has(%s.message), has(%s.validator_set_id), has(%s.event_proof_id)))))))" % (info, info, info, info, info), "isv(P1,'Ethereum') and not %s.validator_set_id < NotarySetId" % info),
        ("call('frame_system::deposit_log', has(varst('OpaqueSigningRequest', chain_id=var('Ethereum'), event_proof_id=P0, data=call('hashing::keccak_256', call('ethabi::encode', op('vec', has(%s.source), has(%s.destination), has(%s.message), var('Uint', alt(op('max', NotarySetId, %s.validator_set_id), op('max', %s.validator_set_id, NotarySetId))), has(%s.event_proof_id)))))))" % (info, info, info, info, info, info), "isv(P1,'Ethereum')"),
        ("call('frame_system::deposit_log', has(varst('OpaqueSigningRequest', chain_id=var('Xrpl'), event_proof_id=P0, data=vp(P1, 'XrplTx', 0))))", "isv(P1,'XrplTx')")], floor=2)
    e = ctx.entry(CR, "on_idle")
    r = "E04.idle"
    e.each(r + ".unpaused", "write(PendingEventProofs[_])", "false(BridgePaused.manual_pause) and false(BridgePaused.authorities_change)", traces="all")
    e.each(r + ".sent", "call('frame_system::deposit_log', has(varst('OpaqueSigningRequest', event_proof_id=has(op('entries', 'PendingEventProofs', ...)))))", "does(rm(PendingEventProofs[_]))", traces="all")
    # authority change
    e = ctx.entry(CR, "handle_authorities_change")
    r = "E04.change"
    e.must(r + ".pause", "put(BridgePaused, upd(BridgePaused, authorities_change=TRUE))", count=1)
    e.must(r + ".once", "rm(NextAuthorityChange)", count=1)
    e.each(r + ".event", "put(AuthoritiesChangedThisEra, TRUE)", "does(put(NotarySetProofId, NextEventProofId))")
    e.each(r + ".event", "put(NotarySetProofId, _)", "does(put(AuthoritiesChangedThisEra, TRUE))")
    e.each(r + ".message", "event('AuthoritySetChange', event_proof_id=NextEventProofId, validator_set_id=alt(NotarySetId + 1, op('wrap+', NotarySetId, 1)))")
    paused = E("put(BridgePaused, upd(BridgePaused, authorities_change=TRUE))")
    for t in e.ok:
        seen = False
        for x in t.fx:
            seen = seen or any(True for _ in match_eff(paused, x, {}))
            ctx.check(r + ".proof_first", e.where, not (seen and (x.kind == "put" and x.name == "NextEventProofId" or x.kind == "call" and x.name.startswith("XrplBridgeAdapter::submit"))), "the change is announced before the bridge is paused for it")
    e = ctx.entry(CR, "do_finalise_authorities_change")
    r = "E04.finalise"
    e.must(r + ".unpause", "put(BridgePaused, upd(BridgePaused, authorities_change=FALSE))", count=1)
    e.must(r + ".keys", "put(NotaryKeys, P0)", count=1)
    e.must(r + ".xrpl", "put(NotaryXrplKeys, has(op('coll', ...)))", count=1)
    e.must(r + ".xrpl", "put(NotaryXrplKeys, both(has(XrplDoorSigners[_]), both(has(P0), has(cfg.MaxXrplKeys))))", count=1)
    e.must(r + ".set_id", "put(NotarySetId, alt(NotarySetId + 1, op('wrap+', NotarySetId, 1)))", count=1)
    e.must(r + ".flag", "rm(AuthoritiesChangedThisEra)", count=1)
    e.must(r + ".log", "call('frame_system::deposit_log', has(struct('ValidatorSet', validators=P0, id=alt(NotarySetId + 1, op('wrap+', NotarySetId, 1)), proof_threshold=mc('mul_ceil', cfg.NotarizationThreshold, has(len(P0))))))", count=1)
    e = ctx.entry(CR, "finalise_authorities_change")
    e.req("E04.finalise.origin", "origin('none_origin')")
    e.must("E04.finalise.keys", "put(NotaryKeys, P1)", count=1)
    e = ctx.entry(CR, "on_before_session_ending", opaque=OPQ)
    r = "E04.session"
    fin = "truth(call('FinalSessionTracker::is_active_session_final'))"
    e.must(r + ".late", "call('Pallet::handle_authorities_change')", when=fin + " and false(AuthoritiesChangedThisEra)", count=1)
    e.must(r + ".late_schedule", "call('Scheduler::schedule', var('At', cfg.AuthorityChangeDelay + call('frame_system::block_number')), _, _, _, varst('finalise_authorities_change', next_notary_keys=NextNotaryKeys))", when=fin + " and false(AuthoritiesChangedThisEra)", count=1)
    e.must(r + ".on_time", "put(NotaryKeys, NextNotaryKeys)", when=fin + " and truth(AuthoritiesChangedThisEra)", count=1)
    e.only(r + ".only", WRITES, "*", [("put(NotaryKeys, NextNotaryKeys)", fin), ("kind('put')", fin), ("kind('del')", fin)])
    e = ctx.entry(CR, "on_initialize", split=True, opaque=OPQ)
    e.must("E04.change.when", "call('Pallet::handle_authorities_change')", when="NextAuthorityChange.q == P0", count=1)
    e.each("E04.change.when", "call('Pallet::handle_authorities_change')", "NextAuthorityChange.q == P0")
    e = ctx.entry(CR, "validator_set")
    e.returns("E04.validator_set", "struct('ValidatorSet', validators=NotaryKeys, id=NotarySetId, proof_threshold=mc('mul_ceil', cfg.NotarizationThreshold, has(len(NotaryKeys))))")
    writer_table(ctx, "E04.writers", CR, {
        "NextEventProofId": {"EthereumBridge::send_event", "XrplBridgeToEthyAdapter::sign_xrpl_transaction", "Hooks::on_initialize", "OneSessionHandler::on_before_session_ending"},
        "NotarySetId": {"OneSessionHandler::on_before_session_ending", "finalise_authorities_change"},
        "NotaryKeys": {"OneSessionHandler::on_before_session_ending", "OneSessionHandler::on_genesis_session", "finalise_authorities_change"},
        "BridgePaused": {"Hooks::on_initialize", "OneSessionHandler::on_before_session_ending", "finalise_authorities_change", "set_bridge_paused"}})


@prop("E05")
def offchain_verification(ctx):
    e = ctx.entry(CR, "offchain_try_notarize_event")
    r = "E05.event"
    rc = "call('EthereumRpcClient::get_transaction_receipt', P1.tx_hash)"
    valid = [t for t in e.ok if any(True for _ in match(P("has(var('Valid'))"), t.val, {}))]
    rcq = rc + ".q.q"
    e.req(r + ".receipt", "good(%s) and good(%s.q)" % (rc, rc), traces=valid)
    e.req(r + ".status", "%s.status.q != 0 and good(%s.status)" % (rcq, rcq), traces=valid)
    e.req(r + ".source", "good(%s.to) and %s.to.q == P1.source" % (rcq, rcq), traces=valid)
    lg = "has(%s.logs)" % rcq
    e.req(r + ".log", "truth(op('exists', %s.logs, has(P1.tx_hash)))" % rcq, traces=valid)
    e.req(r + ".data", "%s.data == call('ethabi::encode', op('vec', has(P0), has(P1.source), has(P1.destination), has(P1.data)))" % lg, traces=valid)
    e.req(r + ".contract", "%s.address == ContractAddress" % lg, traces=valid)
    lb = "call('EthereumRpcClient::get_block_by_number', _).q.q.number"
    e.req(r + ".confirmations", "sub(has(%s), has(%s.block_number)) >= EventBlockConfirmations or (absent(%s) and sub(_, has(%s.block_number)) >= EventBlockConfirmations)" % (lb, rcq, lb, rcq), traces=valid)
    ctx.check(r, e.where, len(valid) > 0, "the positive verdict is found")
    # the worker votes only for challenged, still pending claims it has not voted on
    e = ctx.entry(CR, "do_event_notarization_ocw", opaque=(("pallet-ethy", "offchain_try_notarize_event"), ("pallet-ethy", "offchain_send_notarization")))
    r = "E05.vote"
    k = "elem(has(PendingClaimChallenges))"
    e.each(r + ".pending", "call('*offchain_send_notarization', P0, varst('Event', event_claim_id=%s, authority_index=P1))" % k,
           "good(PendingEventClaims[%s]) and absent(EventNotarizations[%s, P0]) and false(BridgePaused.manual_pause) and false(BridgePaused.authorities_change)" % (k, k), traces="all")
    e.each(r + ".result", "call('*offchain_send_notarization', P0, varst('Event', result=call('*offchain_try_notarize_event', %s, PendingEventClaims[%s].q)))" % (k, k), None, traces="all")
    e = ctx.entry(CR, "offchain_send_notarization")
    e.req("E05.send.signed", "good(mc('sign', P0, has(P1)))")
    # calls
    e = ctx.entry(CR, "offchain_try_eth_call")
    r = "E05.call"
    okc = [t for t in e.ok if any(True for _ in match(P("has(var('Ok', _, _, _))"), t.val, {}))]
    ctx.check(r, e.where, len(okc) > 0, "the positive result is found")
    blk = "call('EthereumRpcClient::get_block_by_number', _).q.q"
    e.req(r + ".timestamp", "not has(%s.timestamp) < P0.timestamp" % blk, traces=okc)
    e.req(r + ".nonempty", "nonempty(call('EthereumRpcClient::eth_call', P0.target, P0.input, _).q)", traces=okc)
    e.each(r + ".block", "call('EthereumRpcClient::eth_call', P0.target, P0.input, has(P0.try_block_number))",
           "P0.try_block_number < has(%s.number) and not P0.try_block_number < sub(sub(_, P0.max_block_look_behind), _)" % blk, traces=okc)


@prop("E06")
def administration(ctx):
    for fn, eff in (("set_event_block_confirmations", "put(EventBlockConfirmations, P1)"), ("set_delayed_event_proofs_per_block", "put(DelayedEventProofsPerBlock, P1)"),
                    ("set_challenge_period", "put(ChallengePeriod, P1)"), ("set_contract_address", "put(ContractAddress, P1)"),
                    ("set_bridge_paused", "put(BridgePaused, upd(BridgePaused, manual_pause=P1))")):
        e = ctx.entry(CR, fn)
        e.req("E06.%s.root" % fn, "origin('root')")
        e.only("E06.%s.effect" % fn, WRITES, "*", [eff], floor=1)
        e.must("E06.%s.effect" % fn, eff, count=1)
    e = ctx.entry(CR, "set_xrpl_door_signers")
    e.req("E06.door.root", "origin('root')")
    e.req("E06.door.bound", "has(len(P1)) < cfg.MaxNewSigners or has(len(P1)) <= cfg.MaxNewSigners")
    e.must("E06.door.signers", "put(XrplDoorSigners[elem(P1).f0], elem(P1).f1)", unless="empty(P1)")
    e.must("E06.door.keys", "put(NotaryXrplKeys, both(has(NotaryKeys), has(XrplDoorSigners[_])))", count=1)
    e = ctx.entry(CR, "remove_missing_event_id")
    e.req("E06.missing.root", "origin('root')")
    m = "elem(MissedMessageIds)"
    e.only("E06.missing.range", WRITES, "*", ["put(MissedMessageIds, _)"], floor=1)

    def outside(a):
        for i, q in enumerate(("op('lt', %s, P1.f0)" % m, "op('lt', P1.f1, %s)" % m)):
            if any(True for _ in match(P(q), a, {})):
                return i, True
    for t in e.ok:
        for x in t.fx:
            if x.kind == "put" and x.name == "MissedMessageIds":
                k = keeps(x.args[1])
                ctx.check("E06.missing.range", e.where, k is not None and any(True for _ in match(P("MissedMessageIds"), k[0], {})) and truth_table(k[1], 2, outside) == [False, True, True, True],
                          "exactly the ids outside the range stay on the missed list")
    writer_table(ctx, "E06.writers", CR, {
        "EventBlockConfirmations": {"set_event_block_confirmations"}, "DelayedEventProofsPerBlock": {"set_delayed_event_proofs_per_block"}, "ChallengePeriod": {"set_challenge_period"},
        "ContractAddress": {"set_contract_address"}, "XrplDoorSigners": {"set_xrpl_door_signers"},
        "NotaryXrplKeys": {"OneSessionHandler::on_before_session_ending", "OneSessionHandler::on_genesis_session", "finalise_authorities_change", "set_xrpl_door_signers"}})


@prop("E07")
def ethereum_rpc(ctx):
    r = "E07"
    X = "EthereumRpcClient"
    OP = ((CR, "query_eth_client"),)
    ID = "call('u32::from_be_bytes', heads(call('offchain::random_seed'), 4))"
    num = "vp(P0, 'Number', 0)"
    block = "struct('GetBlockRequest', id=_, json_rpc='2.0', method='eth_getBlockByNumber', params=tup(%s, false))"
    reqs = {"eth_call": [("struct('EthCallRpcRequest', id=_, json_rpc='2.0', method='eth_call', params=tup(struct('EthCallRpcParams', data=struct('Bytes', f0=P1), to=P0), P2))", None)],
            "get_block_by_number": [(block % "var('Latest')", "isv(P0, 'Latest')"), (block % "alt(P0, var('Number', %s))" % num, "isv(P0, 'Number')")],
            "get_transaction_receipt": [("struct('GetTxReceiptRequest', id=_, json_rpc='2.0', method='eth_getTransactionReceipt', params=op('vec', P0))", None)]}
    for fn, forms in reqs.items():
        e = ctx.entry(CR, fn, ty=X, opaque=OP)
        calls = []
        for q, when in forms:
            c = "call('*query_eth_client', has(%s))" % q
            calls.append(c.replace("call(", "read(", 1))
            res = "call('serde_json::from_slice', %s.q)" % c
            e.must(r + "." + fn, calls[-1], when=when, count=1)
            e.req(r + "." + fn + ".answered", "good(%s) and good(%s)" % (c, res), when=when)
            if fn == "eth_call":
                e.returns(r + "." + fn + ".data", "good(%s.q.result.q.f0)" % res, when="good(%s.q.result)" % res)
                e.returns(r + "." + fn + ".none", "good(op('default', ...))", when="absent(%s.q.result)" % res)
            else:
                e.returns(r + "." + fn + ".data", "good(%s.q.result)" % res, when=when)
        e.only(r + "." + fn + ".once", "read", "*query_eth_client", calls, floor=1)
    # the request itself
    e = ctx.entry(CR, "query_eth_client", ty=X)
    uri = "call('offchain::local_storage_get', op('const', 'StorageKind::PERSISTENT'), b'ETH_HTTP')"
    body = "call('serde_json::to_string', P0)"
    post = "call('Request::post', call('*from_utf8', %s.q).q, op('vec', %s.q))" % (uri, body)
    t = "(call('Duration::from_millis', 1500) + call('offchain::timestamp'))"
    typed = "mc('add_header', mc('add_header', %s, 'Content-Type', 'application/json'), 'Content-Length', op('len', %s.q))" % (post, body)
    sent = "mc('send', mc('deadline', %s, %s))" % (typed, t)
    got = "mc('try_wait', %s.q, %s)" % (sent, t)
    e.returns(r + ".response", "good(mc('body', %s.q.q, ...))" % got)
    e.req(r + ".response.ok", "good(%s) and good(%s) and good(%s) and good(%s.q) and %s.q.q.code == 200" % (uri, sent, got, got, got))
    off = e.on("absent(%s)" % uri, "all")
    ctx.check(r + ".unconfigured", e.where, off and not [t for t in off if t in e.ok], "an unconfigured endpoint is not refused")
    e.noeffect(r + ".unconfigured", kinds=("mcall",), names="send", traces=off)
    # the parameters on the wire
    tup = "mc('serialize_tuple', P1, 2).q"
    for fn, i, other in (("serialize_params", 0, 1), ("serialize_params_eth_call", 1, 0)):
        e = ctx.entry(CR, fn, ty=None)
        n = "vp(P0.f%d, 'Number', 0)" % i
        last = "mc('serialize_element', %s, 'latest')" % tup
        hexa = "mc('serialize_element', %s, has(mut('write', _, '{:#x}', %s)))" % (tup, n)
        oth = "mc('serialize_element', %s, P0.f%d)" % (tup, other)
        e.must(r + "." + fn + ".latest", last, when="isv(P0.f%d, 'Latest')" % i, count=1)
        e.must(r + "." + fn + ".number", hexa, when="isv(P0.f%d, 'Number')" % i, count=1)
        e.must(r + "." + fn + ".other", oth, count=1)
        both = "%s or %s" % (last, hexa)
        e.order(r + "." + fn + ".order", both if i == 0 else oth, oth if i == 0 else both)
        e.only(r + "." + fn + ".only", "mcall", "serialize_element", [last, hexa, oth], floor=1)
        e.returns(r + "." + fn + ".end", "good(_)")
        e.req(r + "." + fn + ".ended", "good(mc('end', %s))" % tup)


@prop("E08")
def session_keys(ctx):
    OP = ((CR, "update_xrpl_notary_keys"),)
    r = "E08.new_session"
    e = ctx.entry(CR, "on_new_session", ty="Pallet", opaque=OP)
    fin = "truth(call('FinalSessionTracker::is_active_session_final'))"
    when = "alt({0}, {1})".format(*(o % "op('sat-', cfg.EpochDuration, cfg.AuthorityChangeDelay)" for o in (
        "op('sat+', call('frame_system::block_number'), %s)", "call('frame_system::block_number') + %s")))
    e.must(r + ".next_keys", "put(NextNotaryKeys, op('coll', P2, elem(P2).f1))", count=1)
    e.must(r + ".timed", "put(NextAuthorityChange, %s)" % when, when=fin, count=1)
    e.only(r + ".only", WRITES, "*", ["put(NextNotaryKeys, _)", ("put(NextAuthorityChange, _)", fin)], floor=2)
    e.noeffect(r + ".now", ("call",), "*")
    r = "E08.genesis"
    e = ctx.entry(CR, "on_genesis_session", ty="Pallet", opaque=OP)
    keys = "op('coll', P0, elem(P0).f1)"
    some = "nonempty(%s)" % keys
    e.must(r + ".keys", "put(NotaryKeys, %s)" % keys, when=some, count=1)
    e.must(r + ".xrpl", "call('Pallet::update_xrpl_notary_keys', %s)" % keys, when=some, count=1)
    e.each(r + ".once", "put(NotaryKeys, _)", "none(op('declen', NotaryKeys))")
    e.order(r + ".order", "put(NotaryKeys, _)", "call('Pallet::update_xrpl_notary_keys', _)")
    e.only(r + ".only", WRITES, "*", [("put(NotaryKeys, %s)" % keys, some)], floor=1)
