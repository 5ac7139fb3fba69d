"""NFT peg: deposits from Ethereum, withdrawals, blocked tokens."""
from .base import *

CR = "pallet-nft-peg"


@prop("Q01")
def deposits(ctx):
    # the message
    e = ctx.entry(CR, "on_event", trait="EthereumEventSubscriber", opaque=((CR, "do_deposit"),))
    r = "Q01.event"
    KIND = "call('ethabi::decode', op('vec', var('Uint', 32)), has(P1)).q.f0"
    D = "call('ethabi::decode', op('vec', var('Uint', 32), var('Array', var('Address')), var('Array', var('Array', var('Uint', 32))), var('Address')), P1).q"
    to = "vp(%s.f3, 'Address', 0)" % D
    adr, ids = "vp(%s.f1, 'Array', 0)" % D, "vp(%s.f2, 'Array', 0)" % D
    dec = "op('coll', %s, vp(elem(%s), 'Address', 0), _)" % (adr, adr)
    tok = "op('coll', vp(elem(%s), 'Array', 0), vp(elem(vp(elem(%s), 'Array', 0)), 'Uint', 0), _)" % (ids, ids)
    all_ids = "alt(op('vec'), mut('push', _, %s), op('coll', %s, %s, ...))" % (tok, ids, tok)
    toks = "op('coll', same('ids', %s), struct('TokenInfo', token_address=elem(%s), token_ids=elem(same('ids', _))), ...)" % (all_ids, dec)
    dep = "call('*do_deposit', struct('GroupedTokenInfo', destination=%s, tokens=%s), %s)"
    c = dep % (to, "alt(op('vec'), %s)" % toks, to)
    e.must(r + ".deposit", c, count=1)
    e.must(r + ".deposit.all", dep % (to, toks, to), unless="empty(%s)" % ids)
    e.only(r + ".once", "call", "*", [c], floor=1)
    e.req(r + ".checked", "good(call('*do_deposit', ...))")
    e.req(r + ".kind", "vp(%s, 'Uint', 0) == 1" % KIND)
    e.req(r + ".lengths", "len(%s) == len(_) or empty(%s)" % (dec, ids))
    e.noeffect(r + ".pure", kinds=WRITES, traces="all")
    e = ctx.entry(CR, "get", ty="GetContractAddress")
    e.returns("Q01.source_address", "ContractAddress")
    # minting
    e = ctx.entry(CR, "do_deposit", opaque=(("pallet-nft", "do_create_collection"),))
    r = "Q01"
    TOK = "elem(P0.tokens)"
    M = "EthToRootNft[%s.token_address]" % TOK
    new = "call('pallet_nft::do_create_collection', mc('into_account_truncating', cfg.PalletId), _, 0, none, good(P1), has(mut('write', op('default', _), 'ethereum://{:?}/', %s.token_address)), none, var('Ethereum'), op('default', _))" % TOK
    mint = lambda c: "call('NFTMinter::mint_bridged_nft', P1, %s, %s.token_ids)" % (c, TOK)
    m1, m2 = mint(M + ".q"), mint(new + ".q")
    maps = ["put(EthToRootNft[%s.token_address], %s.q)" % (TOK, new), "put(RootNftToErc721[%s.q], %s.token_address)" % (new, TOK)]
    NB = "NextBlockedMintId"
    blk = lambda c: "put(BlockedTokens[%s], struct('BlockedTokenInfo', collection_id=%s, serial_numbers=%s.token_ids, destination_address=P1))" % (NB, c, TOK)
    nxt = "put(%s, %s + 1)" % (NB, NB)
    fail = "(does(%s) and absent(%s)) or (does(%s) and absent(%s))" % (m1, m1, m2, m2)
    for tr, nm in ((e.ok, "ok"), (e.err, "err")):
        e.only(r + ".calls", "call", ("NFTMinter*", "pallet_nft*"), [(m1, "good(%s)" % M), (m2, "absent(%s) and good(%s)" % (M, new)), (new, "absent(%s)" % M)], floor=2, traces=tr)
        e.only(r + ".writes", WRITES, "*", [(x, "absent(%s) and good(%s)" % (M, new)) for x in maps] + [(blk(M + ".q"), fail), (blk(new + ".q"), fail), (nxt, fail)], floor=2, traces=tr)
    for x in maps:
        e.must(r + ".mapped", x, when="absent(%s) and good(%s)" % (M, new), traces=e.ok, count=1)
    e.req(r + ".minted", "empty(P0.tokens) or (does(%s) and good(%s)) or (does(%s) and good(%s))" % (m1, m1, m2, m2))
    e.must(r + ".blocked", blk(M + ".q"), when="good(%s) and absent(%s)" % (M, m1), traces=e.err, unless="absent(%s.token_ids)" % TOK)
    e.must(r + ".blocked", blk(new + ".q"), when="absent(%s) and absent(%s)" % (M, m2), traces=e.err, unless="absent(%s.token_ids) or absent(%s)" % (TOK, new))
    e.must(r + ".blocked_id", nxt, when="does(put(BlockedTokens[_], _))", traces="all", count=1)
    e.must(r + ".blocked_report", "event('ERC721Blocked', blocked_mint_id=%s, collection_id=_, serial_numbers=%s.token_ids, destination_address=P1)" % (NB, TOK), when="does(put(BlockedTokens[_], _))", traces="all")
    dep = {"EthereumEventSubscriber::on_event"}
    writer_table(ctx, "Q01.writers", CR, {"EthToRootNft": dep, "RootNftToErc721": dep, "NextBlockedMintId": dep, "BlockedTokens": dep | {"reclaim_blocked_nfts", "withdraw"}, "ContractAddress": {"set_contract_address"}})


@prop("Q02")
def withdrawals(ctx):
    e = ctx.entry(CR, "do_withdrawal", opaque=(("pallet-nft", "do_burn"),))
    r = "Q02"
    C, S = "elem(P1)", "elem(op('idx', P2, op('pos', P1)))"
    burn = "call('pallet_nft::do_burn', P0, %s, %s)" % (C, S)
    push = "mut('push', _, %s)"
    serials = lambda x: "alt(op('vec'), %s, op('coll', %s, var('Uint', elem(%s)), ...))" % (push % ("var('Uint', elem(%s))" % x), x, x)
    lst = serials("op('idx', P2, op('pos', P1))")
    lstb = serials("BlockedTokens[P4.q].q.serial_numbers")
    msg = lambda l: "call('ethabi::encode', op('vec', var('Array', %s), var('Array', %s), var('Address', P3)))" % (push % ("var('Address', RootNftToErc721[%s].q)" % C), push % ("var('Array', %s)" % l))
    send = lambda l: "call('EthBridge::send_event', mc('into_account_truncating', cfg.PalletId), ContractAddress, %s)" % msg(l)
    none = "call('EthBridge::send_event', mc('into_account_truncating', cfg.PalletId), ContractAddress, call('ethabi::encode', op('vec', var('Array', op('vec')), var('Array', op('vec')), var('Address', P3))))"
    e.only(r + ".calls", "call", ("EthBridge*", "pallet_nft*"), [(burn, "absent(P4)"), (send(lst), "absent(P4) and nonempty(P1)"), (send(lstb), "good(P4) and nonempty(P1)"), (none, "empty(P1)")], floor=4)
    e.must(r + ".sent", "call('EthBridge::send_event', ...)", count=1)
    e.req(r + ".sent_ok", "good(call('EthBridge::send_event', ...))")
    e.must(r + ".burned", burn, when="absent(P4) and nonempty(P1)", unless="empty(op('idx', P2, op('pos', P1)))")
    e.each(r + ".burned_ok", burn, "good(%s)" % burn)
    e.order(r + ".burned_first", burn, "call('EthBridge::send_event', ...)", traces=[t for t in e.ok if any(True for _ in holds(F("does(%s)" % burn), t.facts, {}, t))])
    e.req(r + ".lengths", "len(P1) == len(P2)")
    e.req(r + ".ethereum_only", "isv(CollectionInfo[%s].q.origin_chain, 'Ethereum') or CollectionInfo[%s].q.origin_chain == var('Ethereum')" % (C, C), when="nonempty(P1)")
    e.only(r + ".writes", WRITES, "*", [("rm(BlockedTokens[P4.q])", "good(P4)")], floor=1)
    e.must(r + ".unblocked", "rm(BlockedTokens[P4.q])", when="good(P4) and nonempty(P1)")
    e.must(r + ".report", "event('Erc721Withdraw', origin=P0, collection_ids=P1, serial_numbers=P2, destination=P3)", count=1)
    e.returns(r + ".proof", "good(call('EthBridge::send_event', ...).q)")
    # entries
    e = ctx.entry(CR, "withdraw", opaque=((CR, "do_withdrawal"),))
    c = "call('*do_withdrawal', SIGNER, P1, P2, P3, none)"
    e.must(r + ".entry", c, count=1)
    e.only(r + ".entry.only", "call", "*", [c], floor=1)
    e.req(r + ".entry.ok", "good(%s)" % c)
    for fn, who in (("reclaim_blocked_nfts", "SIGNER"), ("do_reclaim_blocked_nfts", "P0")):
        e = ctx.entry(CR, fn, opaque=((CR, "do_withdrawal"),))
        B = "BlockedTokens[P1]"
        c = "call('*do_withdrawal', %s, op('vec', %s.q.collection_id), op('vec', %s.q.serial_numbers), P2, good(P1))" % (who, B, B)
        e.must("%s.%s" % (r, fn), c, count=1)
        e.only("%s.%s.only" % (r, fn), "call", "*", [c], floor=1)
        e.req("%s.%s.ok" % (r, fn), "good(%s)" % c)
        e.req("%s.%s.owner" % (r, fn), "%s.q.destination_address == %s" % (B, who))
    e = ctx.entry(CR, "set_contract_address")
    e.req(r + ".address.root", "origin('root')")
    e.must(r + ".address.set", "put(ContractAddress, P1)", count=1)
    e.only(r + ".address.writes", WRITES, "*", ["put(ContractAddress, P1)"], floor=1)
