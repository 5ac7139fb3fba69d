"""NFT pallet: ownership, supply, administration, locks, public mint."""
from .base import *
from ..terms import T, isT, subterms

CR = "pallet-nft"
OWNED = "contains_owner"


def owner_fact(cid, who, serial):
    """the token is recorded under `who` in the collection's ownership table"""
    return "one(CollectionInfo[%s].q.owned_tokens).owner == %s and %s in one(CollectionInfo[%s].q.owned_tokens).owned_serials" % (cid, who, serial, cid)


@prop("N01")
def tokens_move_only_by_owner(ctx):
    # transfer: origin, flag, ownership and lock status of every serial
    for name, tr, who, cid, sers, new in (("transfer", None, "SIGNER", "P1", "P2", "P3"), ("do_transfer", None, "P2", "P0", "P1", "P3")):
        e = ctx.entry(CR, name)
        r = "N01.transfer"
        if name == "transfer":
            e.req(r + ".signed", "origin('signer')")
        e.each(r + ".owner", "write(CollectionInfo[%s])" % cid, "empty(%s) or (%s)" % (sers, owner_fact(cid, who, "one(%s)" % sers)))
        e.each(r + ".lock", "write(CollectionInfo[%s])" % cid, "empty(%s) or absent(TokenLocks[(%s, one(%s))])" % (sers, cid, sers))
        e.each(r + ".flag", "write(CollectionInfo[%s])" % cid, "truth(UtilityFlags[%s].transferable)" % cid)
        e.req(r + ".self", "%s != %s" % (new, who))
        e.only(r + ".writes", WRITES, "*", ["put(CollectionInfo[%s], upd(CollectionInfo[%s].q, owned_tokens=_))" % (cid, cid)])
        # removal from the previous owner and credit to the new one
        col = "CollectionInfo[%s].q.owned_tokens" % cid
        e.must(r + ".remove", "put(CollectionInfo[%s], upd(CollectionInfo[%s].q, owned_tokens=has(mut('retain',alt(elem(%s),elem(_),op('wit', %s, _)).owned_serials,...))))" % (cid, cid, col, col),
               when="elem(%s).owner == %s and nonempty(%s) or truth(op('exists', %s, both(has(%s), nota(has(op('contains', ...))))))" % (col, who, col, col, who))
        e.must(r + ".credit", "put(CollectionInfo[%s], _)" % cid, unless="empty(%s)" % sers)
        e.must(r + ".approvals", "call('OnTransferSubscription::on_nft_transfer', (%s, elem(%s)))" % (cid, sers), unless="empty(%s)" % sers)
    e = ctx.entry(CR, "do_burn")
    r = "N01.burn"
    col = "CollectionInfo[P1].q.owned_tokens"
    for name, who, cid, ser in (("burn", "SIGNER", "P1.f0", "P1.f1"), ("do_burn", "P0", "P1", "P2")):
        e = ctx.entry(CR, name)
        col = "CollectionInfo[%s].q.owned_tokens" % cid
        if name == "burn":
            e.req(r + ".signed", "origin('signer')")
        e.req(r + ".owner", owner_fact(cid, who, ser))
        e.req(r + ".lock", "absent(TokenLocks[(%s, %s)])" % (cid, ser))
        e.req(r + ".flag", "truth(UtilityFlags[%s].burnable)" % cid)
        e.must(r + ".issuance", "put(CollectionInfo[%s], upd(CollectionInfo[%s].q, collection_issuance=alt(op('sat-', CollectionInfo[%s].q.collection_issuance, 1), CollectionInfo[%s].q.collection_issuance - 1), owned_tokens=_))" % (cid, cid, cid, cid))
        e.must(r + ".remove", "put(CollectionInfo[%s], upd(_, collection_issuance=_, owned_tokens=has(mut('retain',elem(%s).owned_serials,...))))" % (cid, col),
               when="elem(%s).owner == %s" % (col, who))
        e.must(r + ".approvals", "call('OnTransferSubscription::on_nft_transfer', (%s, %s))" % (cid, ser))
        e.must(r + ".nfi", "call('NFIRequest::on_burn', (%s, %s))" % (cid, ser))
        e.only(r + ".writes", WRITES, "*", ["put(CollectionInfo[%s], _)" % cid])


RNG = "op('range', CollectionInfo[P1].q.next_serial_number, P2 + CollectionInfo[P1].q.next_serial_number)"


@prop("N02")
def supply(ctx):
    r = "N02.mint"
    e = ctx.entry(CR, "mint")
    e.req(r + ".signed", "origin('signer')")
    e.req(r + ".authority", "CollectionInfo[P1].q.owner == SIGNER or truth(PublicMintInfo[P1].q.enabled)")
    e.req(r + ".flag", "truth(UtilityFlags[P1].mintable)")
    e.req(r + ".limit", "P2 <= cfg.MintLimit and P2 != 0")
    e.req(r + ".origin_chain", "isv(CollectionInfo[P1].q.origin_chain, 'Root')")
    e.req(r + ".cap", "CollectionInfo[P1].q.collection_issuance + P2 < cfg.MaxTokensPerCollection or CollectionInfo[P1].q.collection_issuance + P2 <= cfg.MaxTokensPerCollection or CollectionInfo[P1].q.collection_issuance + len(%s) <= cfg.MaxTokensPerCollection" % RNG)
    e.req(r + ".max_issuance", "absent(CollectionInfo[P1].q.max_issuance) or CollectionInfo[P1].q.next_serial_number + P2 <= CollectionInfo[P1].q.max_issuance.q")
    e.must(r + ".record", "put(CollectionInfo[P1], upd(CollectionInfo[P1].q, collection_issuance=alt(CollectionInfo[P1].q.collection_issuance + len(%s), CollectionInfo[P1].q.collection_issuance + P2), next_serial_number=CollectionInfo[P1].q.next_serial_number + P2, owned_tokens=_))" % RNG, count=1, unless="empty(%s)" % RNG)
    e.only(r + ".writes", WRITES, "*", ["put(CollectionInfo[P1], _)"])
    own = "CollectionInfo[P1].q.owned_tokens"
    for who, cond in (("P3.q", "good(P3)"), ("SIGNER", "absent(P3)")):
        # a holder without an entry gets one holding exactly the minted serials; an existing entry is extended
        e.must(r + ".credit.new", "put(CollectionInfo[P1], upd(_, collection_issuance=_, next_serial_number=_, owned_tokens=mut('push', %s, struct('TokenOwnership', owner=%s, owned_serials=has(%s)))))" % (own, who, RNG),
               when="%s and (false(op('exists', %s, has(%s))) or empty(%s))" % (cond, own, who, own))
        e.must(r + ".credit.extend", "put(CollectionInfo[P1], upd(_, collection_issuance=_, next_serial_number=_, owned_tokens=both(nota(mut('push', _, ...)), nota(%s))))" % own,
               when="%s and truth(op('exists', %s, has(%s)))" % (cond, own, who), unless="empty(%s)" % RNG)
    e.must(r + ".xls20", "call('Xls20MintRequest::request_xls20_mint', SIGNER, P1, %s, CollectionInfo[P1].q.metadata_scheme)" % RNG, when="truth(CollectionInfo[P1].q.cross_chain_compatibility.xrpl)")
    e.must(r + ".nfi", "call('NFIRequest::request', SIGNER, P1, %s)" % RNG)
    # bridged mint: only serials nobody owns yet
    r = "N02.bridged"
    e = ctx.entry(CR, "mint_bridged_token")
    fresh = "same('s', op('coll', has(P2), _, has(op('exists', CollectionInfo[P1].q.owned_tokens, has(op('contains', has(elem(CollectionInfo[P1].q.owned_tokens)), _))))))"
    e.only(r + ".writes", WRITES, "*", ["put(CollectionInfo[P1], upd(CollectionInfo[P1].q, collection_issuance=CollectionInfo[P1].q.collection_issuance + len(%s), owned_tokens=has(s)))" % fresh,
                                        "put(CollectionInfo[P1], upd(CollectionInfo[P1].q, collection_issuance=CollectionInfo[P1].q.collection_issuance + len(%s), owned_tokens=_))" % fresh], floor=1)
    e.only(r + ".dedup", WRITES, "CollectionInfo", ["put(CollectionInfo[P1], upd(_, collection_issuance=_ + len(has(mut('dedup', has(P2)))), owned_tokens=_))"], floor=1)
    e.each(r + ".cap", "put(CollectionInfo[P1], upd(_, collection_issuance=same('i', _), owned_tokens=_))", "i <= cfg.MaxTokensPerCollection")
    # creation: initial issuance respects the caps and serial numbering starts after it
    r = "N02.create"
    e = ctx.entry(CR, "do_create_collection")
    e.must(r + ".record", "put(CollectionInfo[_], struct('CollectionInformation', owner=P0, collection_issuance=P2, next_serial_number=P2, max_issuance=P3, royalties_schedule=P6, origin_chain=P7))", count=1)
    e.req(r + ".cap", "absent(P3) or (P3.q != 0 and P3.q >= P2 and P3.q <= cfg.MaxTokensPerCollection)")
    e.req(r + ".limit", "P2 <= cfg.MintLimit or P2 == 0")
    e.must(r + ".id", "put(NextCollectionId, NextCollectionId + 1)", count=1)


ADMIN = {
    "set_owner": "upd(CollectionInfo[P1].q, owner=P2)",
    "set_max_issuance": "upd(CollectionInfo[P1].q, max_issuance=good(P2))",
    "set_base_uri": "upd(CollectionInfo[P1].q, metadata_scheme=_)",
    "set_name": "upd(CollectionInfo[P1].q, name=P2)",
    "set_royalties_schedule": "upd(CollectionInfo[P1].q, royalties_schedule=good(P2))",
}


@prop("N03")
def administration(ctx):
    for fn, val in ADMIN.items():
        e = ctx.entry(CR, fn)
        r = "N03." + fn
        e.req(r + ".signed", "origin('signer')")
        e.req(r + ".owner", "CollectionInfo[P1].q.owner == SIGNER")
        e.only(r + ".writes", WRITES, "*", ["put(CollectionInfo[P1], %s)" % val], floor=1)
        e.must(r + ".effect", "put(CollectionInfo[P1], %s)" % val)
    e = ctx.entry(CR, "set_max_issuance")
    e.req("N03.cap.once", "absent(CollectionInfo[P1].q.max_issuance)")
    e.req("N03.cap.range", "P2 != 0 and P2 >= CollectionInfo[P1].q.collection_issuance")
    e = ctx.entry(CR, "set_royalties_schedule")
    e.req("N03.royalties.bound", "len(P2.entitlements) <= 6 or empty(P2.entitlements)")
    e.req("N03.royalties.total", "op('agg','sum',has(P2.entitlements)) <= _ or empty(P2.entitlements)")
    e = ctx.entry(CR, "set_name")
    e.req("N03.name", "nonempty(P2)")
    for fn, key, tgt in (("toggle_public_mint", "P1", "PublicMintInfo"), ("set_mint_fee", "P1", "PublicMintInfo"), ("set_utility_flags", "P1", "UtilityFlags")):
        e = ctx.entry(CR, fn)
        r = "N03." + fn
        e.req(r + ".signed", "origin('signer')")
        e.req(r + ".owner", "CollectionInfo[P1].q.owner == SIGNER")
        e.only(r + ".writes", WRITES, "*", ["write(%s[P1])" % tgt], floor=1)
    e = ctx.entry(CR, "claim_unowned_collection")
    e.req("N03.claim.root", "origin('root')")
    e.req("N03.claim.unowned", "CollectionInfo[P1].q.owner == mc('into_account_truncating', cfg.PalletId)")
    e.only("N03.claim.writes", WRITES, "*", ["put(CollectionInfo[P1], upd(CollectionInfo[P1].q, owner=P2))"], floor=1)
    # no other function of the pallet changes collection records
    writer_table(ctx, "N03.writers", CR, {
        "CollectionInfo": {"NFTExt::do_burn", "NFTExt::do_create_collection", "NFTExt::do_transfer", "NFTExt::enable_xls20_compatibility", "NFTExt::transfer_collection_ownership", "NFTMinter::mint_bridged_nft",
                           "burn", "claim_unowned_collection", "create_collection", "mint", "set_base_uri", "set_max_issuance", "set_name", "set_owner", "set_royalties_schedule", "transfer"},
        "PublicMintInfo": {"set_mint_fee", "toggle_public_mint"},
        "UtilityFlags": {"set_utility_flags"},
        "NextCollectionId": {"NFTExt::do_create_collection", "NFTExt::increment_collection_uuid", "create_collection"},
    })


@prop("N04")
def locks(ctx):
    e = ctx.entry(CR, "set_token_lock")
    e.req("N04.set.free", "absent(TokenLocks[P0])")
    e.req("N04.set.owner", "one(CollectionInfo[P0.f0].q.owned_tokens).owner == P2 and P0.f1 in one(CollectionInfo[P0.f0].q.owned_tokens).owned_serials")
    e.must("N04.set.effect", "put(TokenLocks[P0], P1)", count=1)
    e = ctx.entry(CR, "remove_token_lock")
    e.must("N04.remove.effect", "rm(TokenLocks[P0])", count=1)
    e.only("N04.remove.only", WRITES, "*", ["rm(TokenLocks[P0])"])
    writer_table(ctx, "N04.writers", CR, {"TokenLocks": {"NFTExt::set_token_lock", "NFTExt::remove_token_lock"}})
    # a locked token leaves its owner through no path
    for fn, key in (("do_transfer", "(P0, one(P1))"), ("transfer", "(P1, one(P2))")):
        e = ctx.entry(CR, fn)
        s = key.split("one(")[1].split(")")[0]
        e.each("N04.transfer", "write(CollectionInfo[_])", "empty(%s) or absent(TokenLocks[%s])" % (s, key))
    e = ctx.entry(CR, "do_burn")
    e.each("N04.burn", "write(CollectionInfo[_])", "absent(TokenLocks[(P1, P2)])")


@prop("N05")
def mint_fee(ctx):
    e = ctx.entry(CR, "mint")
    r = "N05.fee"
    pr = "PublicMintInfo[P1].q.pricing_details.q"
    e.only(r + ".form", "call", "*MultiCurrency::*", [("call('MultiCurrency::transfer', %s.f0, SIGNER, CollectionInfo[P1].q.owner, %s.f1 * P2, _)" % (pr, pr),
                                                      "good(call('MultiCurrency::transfer', ...)) and CollectionInfo[P1].q.owner != SIGNER and truth(PublicMintInfo[P1].q.enabled)")], floor=1)
    e.must(r + ".charged", "call('MultiCurrency::transfer', %s.f0, SIGNER, CollectionInfo[P1].q.owner, %s.f1 * P2, _)" % (pr, pr),
           when="CollectionInfo[P1].q.owner != SIGNER and truth(PublicMintInfo[P1].q.enabled) and good(PublicMintInfo[P1].q.pricing_details)", count=1)
    e.must(r + ".event", "event('MintFeePaid', who=SIGNER, collection_id=P1, payment_asset=%s.f0, payment_amount=%s.f1 * P2, token_count=P2)" % (pr, pr), when="does(call('MultiCurrency::transfer', ...))")
    e = ctx.entry(CR, "set_mint_fee")
    e.only("N05.set", WRITES, "*", ["put(PublicMintInfo[P1], upd(_, pricing_details=P2))", "rm(PublicMintInfo[P1])"], floor=1)
    e.each("N05.unset", "rm(PublicMintInfo[P1])", "truth(_) or upd(_, pricing_details=P2) == _")
    e = ctx.entry(CR, "toggle_public_mint")
    e.only("N05.toggle", WRITES, "*", ["put(PublicMintInfo[P1], upd(_, enabled=P2))", "rm(PublicMintInfo[P1])"], floor=1)
    e.each("N05.unset", "rm(PublicMintInfo[P1])", "upd(_, enabled=P2) == _")


@prop("N06")
def queries(ctx):
    r = "N06"
    L = "CollectionInfo[%s].q.owned_tokens"
    own = lambda c: "alt(op('wit', %s, ...), op('elem', %s))" % (L % c, L % c)

    # how many tokens an account owns
    e = ctx.entry(CR, "token_balance_of")
    n = "op('len', %s.owned_serials)" % own("P1")
    yes = e.giving(n)
    ctx.check(r + ".balance", e.where, yes, "the number of tokens of an owner is never reported")
    e.req(r + ".balance.owner", "op('wit', %s, ...).owner == P0 or op('elem', %s).owner == P0" % (L % "P1", L % "P1"), traces=yes)
    no = [t for t in e.all if t not in yes]
    e.returns(r + ".balance.none", "alt(0, op('len', op('default', ...)))", traces=no)
    e.req(r + ".balance.none", "absent(CollectionInfo[P1]) or false(op('exists', %s, ...))" % (L % "P1"), traces=no)

    # the pages of an owner's tokens
    e = ctx.entry(CR, "owned_tokens")
    has_ = "(op('wit', %s, ...).owner == P1 or op('elem', %s).owner == P1)" % (L % "P0", L % "P0")
    ts = "mut('sort', %s.owned_serials, ...)" % own("P0")
    page = "op('it', 'take', op('coll', %s, op('elem', %s), ...), min(P3, 1000))" % (ts, ts)
    end = "mc('last', %s)" % page
    last = "alt(mc('last', %s).q, op('default', ...), 0)" % ts
    e.returns(r + ".page", "tup(_, op('len', %s), %s)" % (ts, page), when="good(CollectionInfo[P0]) and " + has_)
    e.returns(r + ".page.end", "tup(0, _, _)", when=has_ + " and absent(%s)" % end)
    e.returns(r + ".page.last", "tup(0, _, _)", when=has_ + " and good(%s) and %s.q == %s" % (end, end, last))
    e.returns(r + ".page.next", "tup(%s.q + 1, _, _)" % end, when=has_ + " and good(%s) and %s.q != %s" % (end, end, last))
    e.returns(r + ".page.not_owner", "tup(0, alt(0, op('len', op('vec'))), op('vec'))", when="good(CollectionInfo[P0]) and false(op('exists', %s, ...))" % (L % "P0"))
    e.returns(r + ".page.none", "tup(alt(0, op('default', ...)), alt(0, op('default', ...)), op('default', ...))", when="absent(CollectionInfo[P0])")
    n = 0
    for t in e.all:
        for x in subterms(t.val):
            if isT(x) and x.op == "coll" and x.args[0].op == "mut" and x.args[0].args[0] == "sort":
                n += 1
                ctx.check(r + ".page.from", e.where, len(x.args) == 3 and x.args[2] == ((T("lt", x.args[1], T("param", 2)), False),), "the page is not the tokens from the cursor on")
    ctx.check(r + ".page.from", e.where, n, "no page found")

    # metadata, existence, collections
    e = ctx.entry(CR, "token_uri")
    base = "call('*from_utf8', CollectionInfo[P0.f0].q.metadata_scheme.f0)"
    e.returns(r + ".uri", "mut('write', _, '{}{}', %s.q, P0.f1)" % base, when="good(CollectionInfo[P0.f0]) and good(%s)" % base)
    e.returns(r + ".uri", "mut('write', _, '{}{}', '', P0.f1)", when="good(CollectionInfo[P0.f0]) and absent(%s)" % base)
    e.returns(r + ".uri.none", "op('default', ...)", when="absent(CollectionInfo[P0.f0])")
    e = ctx.entry(CR, "collection_exists")
    e.returns(r + ".exists", "op('good?', CollectionInfo[P0])")
    e = ctx.entry(CR, "get_collection_info")
    e.returns(r + ".info", "good(CollectionInfo[P0].q)")
    e.req(r + ".info.err", "absent(CollectionInfo[P0])", traces=e.err)
