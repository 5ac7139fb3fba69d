"""Token approvals, the echo pallet, migrations, chain id and id allocation."""
from .base import *

AP = "pallet-token-approvals"
APPROVALS = ("ERC721Approvals", "ERC721ApprovalsForAll", "ERC20Approvals", "ERC1155ApprovalsForAll")


@prop("O01")
def approvals(ctx):
    r = "O01"
    OWNER = "call('NFTExt::get_token_owner', %s)"
    none = "origin('none_origin')"
    # one token
    e = ctx.entry(AP, "erc721_approval")
    ow = OWNER % "P3"
    e.req(r + ".token.origin", none)
    e.req(r + ".token.by", "P1 != P2 and good(%s) and (P1 == %s.q or truth(ERC721ApprovalsForAll[%s.q, (P3.f0, P1)]) or truth(ERC721ApprovalsForAll[%s.q, (P3.f0, P1)].q))" % (ow, ow, ow, ow))
    al = "ERC721ApprovalsForAll[%s.q, (P3.f0, P1)]" % ow
    e.req(r + ".token.refused", "refused('none_origin') or P1 == P2 or absent(%s) or (P1 != %s.q and (absent(%s) or false(%s) or false(%s.q)))" % (ow, ow, al, al, al), traces=e.err)
    e.must(r + ".token", "put(ERC721Approvals[P3], P2)", count=1)
    e.only(r + ".token.only", WRITES, "*", ["put(ERC721Approvals[P3], P2)"], floor=1)
    e = ctx.entry(AP, "erc721_remove_approval")
    ow = OWNER % "P1"
    e.req(r + ".token.remove", "origin('signer') and (good(%s) and SIGNER == %s.q or %s == good(SIGNER))" % (ow, ow, ow))
    e.must(r + ".token.remove", "rm(ERC721Approvals[P1])", count=1)
    e.only(r + ".token.remove.only", WRITES, "*", ["rm(ERC721Approvals[P1])"], floor=1)
    # amounts
    e = ctx.entry(AP, "erc20_approval")
    e.req(r + ".amount", none + " and P1 != P2")
    e.must(r + ".amount", "put(ERC20Approvals[(P1, P3), P2], P4)", count=1)
    e.only(r + ".amount.only", WRITES, "*", ["put(ERC20Approvals[(P1, P3), P2], P4)"], floor=1)
    e = ctx.entry(AP, "erc20_update_approval")
    old = "ERC20Approvals[(P1, P3), P2]"
    e.req(r + ".spend", "%s and good(%s) and P4 <= %s.q" % (none, old, old))
    left = old + ".q - P4"
    put, rm = "put(ERC20Approvals[(P1, P3), P2], %s)" % left, "rm(ERC20Approvals[(P1, P3), P2])"
    e.must(r + ".spend", put, unless="%s == 0 or %s.q == P4 or P4 == %s.q" % (left, old, old), count=1)
    e.must(r + ".spend", "%s or %s" % (put, rm), count=1)
    e.only(r + ".spend.only", WRITES, "*", [put, (rm, "%s == 0 or %s.q == P4" % (left, old))], floor=1)
    # whole collections
    for fn, sto in (("erc721_approval_for_all", "ERC721ApprovalsForAll"), ("erc1155_approval_for_all", "ERC1155ApprovalsForAll")):
        e = ctx.entry(AP, fn)
        e.req(r + ".all." + fn, none + " and P1 != P2")
        put, rm = "put(%s[P1, (P3, P2)], true)" % sto, "rm(%s[P1, (P3, P2)])" % sto
        e.must(r + ".all." + fn, put, when="truth(P4)", count=1)
        e.must(r + ".all." + fn, rm, when="false(P4)", count=1)
        e.only(r + ".all." + fn + ".only", WRITES, "*", [(put, "truth(P4)"), (rm, "false(P4)")], floor=2)
    # a moved token loses its approval
    e = ctx.entry(AP, "on_nft_transfer", trait="OnTransferSubscriber")
    e.must(r + ".transfer", "rm(ERC721Approvals[P0])", count=1)
    e.only(r + ".transfer.only", WRITES, "*", ["rm(ERC721Approvals[P0])"], floor=1)
    # who may move a token
    e = ctx.entry(AP, "is_approved_or_owner")
    ow = OWNER % "P0"
    al = "ERC721ApprovalsForAll[%s.q, (P0.f0, P1)]" % ow
    own = "good(%s) and (P1 == %s.q or truth(%s) or truth(%s.q))" % (ow, ow, al, al)
    single = "(P1 == ERC721Approvals[P0].q or ERC721Approvals[P0] == good(P1))"
    tr = e.giving("true")
    e.req(r + ".spender", "(%s) or %s" % (own, single), traces=tr)
    e.returns(r + ".spender.token", "alt(op('eq', ERC721Approvals[P0], good(P1)), op('eq', ERC721Approvals[P0].q, P1), true, false)", unless=own)
    no = e.giving("false")
    if no:
        e.req(r + ".spender.refused", "bad(ERC721Approvals[P0]) or P1 != ERC721Approvals[P0].q or ERC721Approvals[P0] != good(P1)", traces=no)
    e.returns(r + ".spender.owner", "true", when="good(%s) and P1 == %s.q" % (ow, ow))
    e.returns(r + ".spender.operator", "true", when="good(%s) and truth(%s.q)" % (ow, al))
    writer_table(ctx, r + ".writers", AP, {
        "ERC721Approvals": {"erc721_approval", "erc721_remove_approval", "OnTransferSubscriber::on_nft_transfer"},
        "ERC721ApprovalsForAll": {"erc721_approval_for_all"}, "ERC20Approvals": {"erc20_approval", "erc20_update_approval"}, "ERC1155ApprovalsForAll": {"erc1155_approval_for_all"}})
    # the approval calls carry no signature: no transaction may bring them in from outside
    un = [f.qual for f in ctx.m.crates[AP].allfns() if f.name in ("validate_unsigned", "pre_dispatch", "create_inherent")] if hasattr(ctx.m.crates[AP], "allfns") else [f.qual for l in ctx.m.crates[AP].methods.values() for fs in l.values() for f in fs if f.name in ("validate_unsigned", "pre_dispatch", "create_inherent")]
    ctx.check(r + ".unsigned", AP, not un, "unsigned transactions of the approvals pallet are accepted: %s" % un)


EC = "pallet-echo"


@prop("O02")
def echo(ctx):
    r = "O02"
    e = ctx.entry(EC, "ping")
    sid = "NextSessionId"
    msg = "call('ethabi::encode', vec(var('Uint', %s), var('Uint', %s), var('Address', P1)))" % ("0", sid)
    send = "call('*::send_event', SIGNER, P1, has(%s))" % msg
    e.req(r + ".ping", "origin('signer') and good(%s + 1) and good(%s)" % (sid, send))
    e.must(r + ".ping", send, count=1)
    e.only(r + ".ping.only", "call", "*send_event", [send], floor=1)
    e.must(r + ".ping.session", "put(NextSessionId, %s + 1)" % sid, count=1)
    e.must(r + ".ping.event", "event('PingSent', session_id=%s, source=SIGNER, destination=P1, event_proof_id=%s.q)" % (sid, send), count=1)
    e = ctx.entry(EC, "on_event", trait="EthereumEventSubscriber")
    dec = "call('ethabi::decode', vec(var('Uint', 64), var('Uint', 64), var('Address')), P1)"
    kind, s, d = ("vp(op('idx', %s.q, %d), '%s', 0)" % (dec, i, v) for i, v in ((0, "Uint"), (1, "Uint"), (2, "Address")))
    kind, s, d = ("vp(alt(op('idx', %s.q, %d), %s.q.f%d), '%s', 0)" % (dec, i, dec, i, v) for i, v in ((0, "Uint"), (1, "Uint"), (2, "Address")))
    e.req(r + ".decodes", "good(%s)" % dec)
    reply = "call('*::send_event', P0, %s, has(call('ethabi::encode', vec(var('Uint', 1), var('Uint', %s), var('Address', %s)))))" % (d, s, d)
    e.must(r + ".reply", reply, when="%s == 1" % kind, count=1)
    e.only(r + ".reply.only", "call", "*send_event", [(reply, "%s == 1" % kind)], floor=1)
    e.must(r + ".received", "event('PingReceived', session_id=%s, source=P0, data=P1)" % s, when="%s == 1" % kind, count=1)
    e.must(r + ".sent", "event('PongSent', session_id=%s, source=P0, destination=%s, event_proof_id=%s.q)" % (s, d, reply), when="%s == 1" % kind, count=1)
    e.must(r + ".pong", "event('PongReceived', session_id=%s, source=P0, data=P1)" % s, when="%s == 0" % kind, count=1)
    e.only(r + ".events", "event", "*", [("event('PongReceived')", "%s == 0" % kind), ("event('PingReceived')", "%s == 1" % kind), ("event('PongSent')", "%s == 1 and good(%s)" % (kind, reply))], floor=3)
    e.req(r + ".kind", "%s == 0 or %s == 1" % (kind, kind), traces=[t for t in e.ok if t.events()] if hasattr(e.ok[0], "events") else [t for t in e.ok if any(x.kind == "event" for x in t.fx)])
    writer_table(ctx, r + ".writers", EC, {"NextSessionId": {"ping"}})


MG = "pallet-migration"


@prop("O03")
def migration(ctx):
    r = "O03"
    for fn, ok in (("enable_migration", "put(MigrationEnabled, P1)"), ("set_block_limit", "put(BlockLimit, P1)"), ("set_block_delay", "put(BlockDelay, P1.q) or rm(BlockDelay)")):
        e = ctx.entry(MG, fn)
        e.req(r + "." + fn, "origin('root')")
        e.must(r + "." + fn, ok, count=1)
    e = ctx.entry(MG, "set_block_limit")
    e.req(r + ".limit", "P1 > 0")
    e = ctx.entry(MG, "set_block_delay")
    e.only(r + ".delay", WRITES, "BlockDelay", [("put(BlockDelay, P1.q)", "good(P1) and P1.q > 1"), ("rm(BlockDelay)", "absent(P1)")], floor=2)
    # an upgrade starts a migration only when none is running
    e = ctx.entry(MG, "on_runtime_upgrade", trait="Hooks")
    done = "truth(call('*version_check'))"
    e.only(r + ".upgrade", WRITES, "*", [("put(Status, var('NoMigrationInProgress'))", done), ("put(Status, varst('InProgress', steps_done=0))", "not (%s) and notv(Status, 'InProgress')" % done)], floor=2)
    e.must(r + ".upgrade.starts", "put(Status, varst('InProgress', steps_done=0))", unless="%s or isv(Status, 'InProgress')" % done, count=1)
    e.must(r + ".upgrade.none", "put(Status, var('NoMigrationInProgress'))", when=done, count=1)
    # blocks of a running migration
    e = ctx.entry(MG, "migrate")
    key = "op('phi', LastKey, _)"
    step = "call('CurrentMigration::step', %s)" % key
    prev = "vp(Status, 'InProgress', 'steps_done')"
    can = "isv(Status, 'InProgress') and truth(MigrationEnabled) and (absent(BlockDelay) or op('%', P0, BlockDelay.q) == 0)"
    lim = "min(P1, cfg.MaxMigrationWeight)"
    e.each(r + ".step", step, can, traces="all")
    e.only(r + ".step.only", "call", "CurrentMigration::step", [step], floor=1, traces="all")
    e.each(r + ".step.limits", step, "op('phi', 0, _) < BlockLimit or has(op('phi', 0, _)) < BlockLimit", traces="all")
    e.each(r + ".step.weight", step, "truth(mc('all_lt', op('phi', call('WeightInfo::migrate'), _), %s))" % lim, traces="all")
    sp = ctx.entry(MG, "migrate", split=True)
    w = "(%s.weight_consumed + op('phi', call('WeightInfo::migrate'), _))" % step
    sp.must(r + ".continues", "carry(%s.last_key)" % step, traces="loop", count=1)
    sp.must(r + ".counts", "carry(op('phi', 0, _) + 1)", traces="loop", unless="absent(op('phi', 0, _) + 1)", count=1)
    sp.must(r + ".weighs", "carry(%s)" % w, traces="loop", count=1)
    total = "%s + op('phi', 0, _) + 1" % prev
    fin = "truth(%s.is_finished)" % step
    e.only(r + ".writes", WRITES, "*", [
        ("put(Status, var('Completed'))", fin),
        ("put(Status, varst('InProgress', steps_done=alt(%s, %s + op('phi', 0, _), %s)))" % (total, prev, prev), can),
        ("rm(LastKey)", "(%s) or absent(LastKey) or absent(%s.last_key)" % (fin, step)),
        ("put(LastKey, alt(LastKey.q, %s.last_key.q, op('phi', LastKey, _).q))" % step, can)], floor=4, traces="all")
    F_ = e.on(fin)
    ctx.check(r + ".finish", e.where, F_, "a finished migration is not recognised")
    for eff in ("put(Status, var('Completed'))", "rm(LastKey)", "call('CurrentMigration::on_complete')", "event('MigrationComplete', items_migrated=%s)" % total):
        e.must(r + ".finish", eff, count=1, traces=F_)
    e.only(r + ".finish.only", WRITES, "*", ["put(Status, var('Completed'))", "rm(LastKey)"], floor=2, traces=F_)
    st = [t for t in e.on(can) if t not in F_ and t.kind == "ok"]
    e.must(r + ".progress", "put(Status, varst('InProgress', steps_done=_))", when="does(%s)" % step, traces=st, count=1)
    e.must(r + ".progress.key", "put(LastKey, %s.last_key.q)" % step, when="does(%s) and good(%s.last_key)" % (step, step), traces=st, count=1)
    e = ctx.entry(MG, "on_idle", trait="Hooks", opaque=((MG, "migrate"),))
    e.returns(r + ".on_idle", "call('*migrate', P0, P1)")
    e = ctx.entry(MG, "ensure_migrated", trait="Migrator")
    e.req(r + ".guard", "notv(Status, 'InProgress')")
    e.req(r + ".guard.err", "isv(Status, 'InProgress')", traces=e.err)
    writer_table(ctx, r + ".writers", MG, {"MigrationEnabled": {"enable_migration"}, "BlockLimit": {"set_block_limit"}, "BlockDelay": {"set_block_delay"},
                                           "Status": {"Hooks::on_runtime_upgrade", "Hooks::on_idle", "migrate"}, "LastKey": {"Hooks::on_idle", "migrate"}}, ignore=())


@prop("O04")
def ids(ctx):
    r = "O04"
    e = ctx.entry("seed-pallet-common", "next_asset_uuid", ty=None)
    ok, no = e.giving("good(_)"), e.giving("none")
    ctx.check(r + ".uuid", e.where, len(ok) + len(no) == len(e.ok) and ok and no, "neither an id nor none")
    e.req(r + ".uuid.fits", "P0 + 1 <= 4194303 and P1 <= 1023", traces=ok)
    e.returns(r + ".uuid", "good(alt(op('|', op('<<', P0, 10), P1), op('|', P1, op('<<', P0, 10))))", when="P0 + 1 <= 4194303 and P1 <= 1023")
    e.returns(r + ".uuid.none", "none", when="P0 + 1 > 4194303 or P1 > 1023")
    CI = "pallet-evm-chain-id"
    e = ctx.entry(CI, "set_chain_id")
    e.req(r + ".chain_id", "origin('origin:ApproveOrigin')")
    e.must(r + ".chain_id", "put(ChainId, P1)", count=1)
    e.must(r + ".chain_id.event", "event('ChainIdSet', f0=P1)", count=1)
    e = ctx.entry(CI, "get", trait="Get")
    e.returns(r + ".chain_id.get", "ChainId")
    writer_table(ctx, r + ".writers", CI, {"ChainId": {"set_chain_id"}})


DEFAULTS = {
    "pallet-xrpl-bridge": {"HighestPrunedLedgerIndex": "42900000", "SubmissionWindowWidth": "288000", "DoorTicketSequence": "0", "DoorTxFee": "1000000"},
    "pallet-fee-control": {"Data": "struct('FeeControlFeeConfig', evm_base_fee_per_gas=call('FeeConfig::evm_base_fee_per_gas'), weight_multiplier=call('FeeConfig::weight_multiplier'), length_multiplier=call('FeeConfig::length_multiplier'))"},
    "pallet-marketplace": {"FeeTo": "FEE"}, "pallet-dex": {"FeeTo": "FEE"},
    "pallet-erc20-peg": {"DepositsDelayActive": "true", "WithdrawalsDelayActive": "true"},
    "pallet-ethy": {"ChallengePeriod": "150", "EventBlockConfirmations": "3", "DelayedEventProofsPerBlock": "5"},
    "pallet-futurepass": {"NextFuturepassId": "1"},
    "pallet-migration": {"BlockLimit": "100"},
    "pallet-evm-chain-id": {"ChainId": "cfg.DefaultChainId"},
}


@prop("T20")
def defaults(ctx):
    r = "T20"
    n = 0
    for c in ctx.m.crates.values():
        want = DEFAULTS.get(c.name, {})
        for s in want:
            if s not in c.storages:
                ctx.violation("anchor", "%s::%s" % (c.name, s), "storage item not found")
        for s in c.storages.values():
            if s.query != "ValueQuery":
                continue
            n += 1
            d = s.default["p"][-1]["n"] if s.default and s.default.get("p") else None
            w = want.get(s.name)
            where = "%s::%s" % (c.name, s.name)
            if w is None:
                ctx.check(r + ".empty", where, d in (None, "GetDefault"), "the item has the default %s instead of the empty one" % d)
                continue
            f = d and (c.fns.get(d) or [None])[0]
            if not ctx.check(r + "." + s.name, where, bool(f), "the item has no default of its own, %s expected" % w):
                continue
            e = ctx.analyse(f)
            if w == "FEE":
                e.returns(r + "." + s.name, "good(has(cfg.DefaultFeeTo))", when="good(cfg.DefaultFeeTo)")
                e.returns(r + "." + s.name, "none", unless="good(cfg.DefaultFeeTo)")
            else:
                e.returns(r + "." + s.name, w)
    ctx.check(r + ".items", "pallets", n >= 60, "only %d storage items with a default found" % n)
