"""Semi-fungible tokens: balances conserve, supply caps, administration, mint fees, reserves."""
from .base import *

CR = "pallet-sft"
TI = "TokenInfo[(P1, elem(P2).f0)]"


def debit(field="free_balance", amt="elem(P2).f1"):
    return "has(upd(same('b', w.f1), %s=b.%s - %s))" % (field, field, amt)


# an existing holder's entry, extended by the amount
CREDIT = "op('updelem', _, k, upd(k, f1=upd(k.f1, free_balance=k.f1.free_balance + elem(P2).f1)))"


@prop("S01")
def balances(ctx):
    # transfer
    e = ctx.entry(CR, "transfer")
    r = "S01.transfer"
    e.req(r + ".signed", "origin('signer')")
    e.req(r + ".self", "P3 != SIGNER")
    e.req(r + ".flag", "truth(UtilityFlags[P1].transferable)")
    e.each(r + ".amount", "write(TokenInfo[_])", "elem(P2).f1 != 0")
    e.each(r + ".debit", "put(%s, upd(%s.q, owned_tokens=%s))" % (TI, TI, debit()), "w.f0 == SIGNER and b.free_balance >= elem(P2).f1")
    e.only(r + ".only", WRITES, "*", ["put(%s, upd(%s.q, owned_tokens=both(%s, mut('push', _, (P3, struct('SftTokenBalance', free_balance=elem(P2).f1, reserved_balance=0))))))" % (TI, TI, debit()),
                                      ("put(%s, upd(%s.q, owned_tokens=both(%s, %s)))" % (TI, TI, debit(), CREDIT), "k.f0 == P3")], floor=1)
    # an entry is dropped only when nothing is left in it
    for fn in ("transfer", "burn"):
        e = ctx.entry(CR, fn)
        gone = "b.reserved_balance + (b.free_balance - elem(P2).f1) == 0"
        e.only("S01.%s.drop" % fn, "put", "TokenInfo", ["put(%s, nota(has(alt(mut('retain', _, ...), mut('remove', _, ...), mut('swap_remove', _, ...)))))" % TI,
                                                        ("put(%s, has(mut('retain', %s, op('not', alt(op('eq', SIGNER, _.f0), op('eq', _.f0, SIGNER))))))" % (TI, debit()), gone),
                                                        ("put(%s, has(mut('remove', %s, op('pos', _, w))))" % (TI, debit()), gone),
                                                        ("put(%s, has(mut('swap_remove', %s, op('pos', _, w))))" % (TI, debit()), gone)], floor=1)
    e = ctx.entry(CR, "burn")
    r = "S01.burn"
    e.req(r + ".signed", "origin('signer')")
    e.req(r + ".flag", "truth(UtilityFlags[P1].burnable)")
    e.each(r + ".amount", "write(TokenInfo[_])", "elem(P2).f1 != 0")
    e.only(r + ".only", WRITES, "*", ["put(%s, upd(%s.q, owned_tokens=%s, token_issuance=sub(%s.q.token_issuance, elem(P2).f1)))" % (TI, TI, debit(), TI)], floor=1)
    e.each(r + ".debit", "put(%s, upd(_, owned_tokens=%s, token_issuance=_))" % (TI, debit()), "w.f0 == SIGNER and b.free_balance >= elem(P2).f1")
    # reserve / free reserved move between the two halves of one holder's balance
    for fn, frm, to in (("reserve_balance", "free_balance", "reserved_balance"), ("free_reserved_balance", "reserved_balance", "free_balance")):
        e = ctx.entry(CR, fn, trait="SFTExt")
        r = "S01." + fn
        e.only(r, WRITES, "*", ["put(TokenInfo[P0], upd(TokenInfo[P0].q, owned_tokens=has(upd(same('b', w.f1), %s=b.%s - P1, %s=b.%s + P1))))" % (frm, frm, to, to)], floor=1)
        e.each(r + ".enough", "put(TokenInfo[P0], upd(_, owned_tokens=has(upd(same('b', w.f1), %s=_, %s=_))))" % (frm, to), "w.f0 == P2 and b.%s >= P1" % frm)
    writer_table(ctx, "S01.writers", CR, {"TokenInfo": {"SFTExt::do_transfer", "SFTExt::free_reserved_balance", "SFTExt::reserve_balance", "burn", "create_token", "mint", "set_max_issuance", "transfer"}})


@prop("S02")
def supply(ctx):
    e = ctx.entry(CR, "mint")
    r = "S02.mint"
    e.req(r + ".signed", "origin('signer')")
    e.req(r + ".flag", "truth(UtilityFlags[P1].mintable)")
    e.each(r + ".amount", "write(TokenInfo[_])", "elem(P2).f1 != 0")
    e.each(r + ".authority", "write(TokenInfo[_])", "SftCollectionInfo[P1].q.collection_owner == SIGNER or truth(PublicMintInfo[(P1, elem(P2).f0)].q.enabled)")
    e.each(r + ".cap", "write(TokenInfo[_])", "absent(%s.q.max_issuance) or %s.q.token_issuance + elem(P2).f1 <= %s.q.max_issuance.q" % (TI, TI, TI))
    for who, cond in (("P3.q", "good(P3)"), ("SIGNER", "absent(P3)")):
        e.only(r + ".credit", WRITES, "*", [
            ("put(%s, upd(%s.q, owned_tokens=mut('push', _, (%s, struct('SftTokenBalance', free_balance=elem(P2).f1, reserved_balance=0))), token_issuance=%s.q.token_issuance + elem(P2).f1))" % (TI, TI, who, TI), cond),
            ("put(%s, upd(%s.q, owned_tokens=%s, token_issuance=%s.q.token_issuance + elem(P2).f1))" % (TI, TI, CREDIT, TI), "(%s) and k.f0 == %s" % (cond, who)),
            ("write(TokenInfo[_])", "good(P3)" if who == "SIGNER" else "absent(P3)")], floor=1)
    e = ctx.entry(CR, "create_token")
    r = "S02.create"
    sn = "SftCollectionInfo[P1].q.next_serial_number"
    e.req(r + ".owner", "SftCollectionInfo[P1].q.collection_owner == SIGNER")
    e.req(r + ".cap", "absent(P4) or (P4.q != 0 and P3 <= P4.q)")
    e.must(r + ".next", "put(SftCollectionInfo[P1], upd(SftCollectionInfo[P1].q, next_serial_number=%s + 1))" % sn, count=1)
    e.must(r + ".token", "put(TokenInfo[(P1, %s)], struct('SftTokenInformation', max_issuance=P4, token_issuance=P3, token_name=P2))" % sn, count=1)
    e.must(r + ".initial", "put(TokenInfo[_], struct('SftTokenInformation', owned_tokens=op('vec', (alt(P5.q, SIGNER), struct('SftTokenBalance', free_balance=P3, reserved_balance=0)))))", when="P3 != 0")
    e = ctx.entry(CR, "set_max_issuance")
    r = "S02.set_max"
    e.req(r + ".owner", "SftCollectionInfo[P1.f0].q.collection_owner == SIGNER")
    e.req(r + ".once", "absent(TokenInfo[P1].q.max_issuance)")
    e.req(r + ".range", "P2 != 0 and P2 >= TokenInfo[P1].q.token_issuance")
    e.must(r + ".effect", "put(TokenInfo[P1], upd(TokenInfo[P1].q, max_issuance=good(P2)))", count=1)


@prop("S03")
def administration(ctx):
    for fn, val in {"set_owner": "upd(SftCollectionInfo[P1].q, collection_owner=P2)", "set_base_uri": "upd(SftCollectionInfo[P1].q, metadata_scheme=P2)",
                    "set_name": "upd(SftCollectionInfo[P1].q, collection_name=P2)", "set_royalties_schedule": "upd(SftCollectionInfo[P1].q, royalties_schedule=good(P2))"}.items():
        e = ctx.entry(CR, fn)
        r = "S03." + fn
        e.req(r + ".signed", "origin('signer')")
        e.req(r + ".owner", "SftCollectionInfo[P1].q.collection_owner == SIGNER")
        e.only(r + ".writes", WRITES, "*", ["put(SftCollectionInfo[P1], %s)" % val], floor=1)
        e.must(r + ".effect", "put(SftCollectionInfo[P1], %s)" % val)
    for fn, own, tgt in (("toggle_public_mint", "SftCollectionInfo[P1.f0]", "PublicMintInfo"), ("set_mint_fee", "SftCollectionInfo[P1.f0]", "PublicMintInfo"), ("set_utility_flags", "SftCollectionInfo[P1]", "UtilityFlags")):
        e = ctx.entry(CR, fn)
        r = "S03." + fn
        e.req(r + ".signed", "origin('signer')")
        e.req(r + ".owner", "%s.q.collection_owner == SIGNER" % own)
        e.only(r + ".writes", WRITES, "*", ["write(%s[P1])" % tgt], floor=1)
    e = ctx.entry(CR, "set_name")
    e.req("S03.name", "nonempty(P2)")
    e = ctx.entry(CR, "set_royalties_schedule")
    e.req("S03.royalties.bound", "len(P2.entitlements) <= 6 or empty(P2.entitlements)")
    e.req("S03.royalties.total", "op('agg','sum',has(P2.entitlements)) <= _ or empty(P2.entitlements)")
    e = ctx.entry(CR, "create_collection")
    e.must("S03.create", "put(SftCollectionInfo[call('NFTExt::next_collection_uuid').q], struct('SftCollectionInformation', collection_owner=alt(P2.q, SIGNER), collection_name=P1, next_serial_number=0))", count=1)
    e.must("S03.create.id", "call('NFTExt::increment_collection_uuid')", count=1)
    writer_table(ctx, "S03.writers", CR, {
        "SftCollectionInfo": {"create_collection", "create_token", "set_base_uri", "set_name", "set_owner", "set_royalties_schedule"},
        "PublicMintInfo": {"set_mint_fee", "toggle_public_mint"}, "UtilityFlags": {"set_utility_flags"}})


@prop("S04")
def mint_fee(ctx):
    e = ctx.entry(CR, "mint")
    pm = "PublicMintInfo[(P1, elem(P2).f0)].q"
    fee = "call('MultiCurrency::transfer', %s.pricing_details.q.f0, SIGNER, SftCollectionInfo[P1].q.collection_owner, %s.pricing_details.q.f1 * elem(P2).f1, _)" % (pm, pm)
    e.only("S04.form", "call", "*MultiCurrency::*", [(fee, "good(call('MultiCurrency::transfer', ...)) and SftCollectionInfo[P1].q.collection_owner != SIGNER and truth(%s.enabled)" % pm)], floor=1)
    e.must("S04.charged", fee, when="SftCollectionInfo[P1].q.collection_owner != SIGNER and truth(%s.enabled) and good(%s.pricing_details)" % (pm, pm), count=1)
    e.must("S04.event", "event('MintFeePaid', who=SIGNER, payment_asset=%s.pricing_details.q.f0, payment_amount=%s.pricing_details.q.f1 * elem(P2).f1, token_count=elem(P2).f1)" % (pm, pm), when="does(call('MultiCurrency::transfer', ...))")


@prop("S05")
def queries(ctx):
    r = "S05"
    L = "TokenInfo[P1].q.owned_tokens"
    e = ctx.entry(CR, "balance_of")
    yes = e.giving("alt(op('wit', %s, ...), op('elem', %s)).f1.free_balance" % (L, L))
    ctx.check(r + ".balance", e.where, yes, "the balance of an owner is never reported")
    e.req(r + ".balance.owner", "op('wit', %s, ...).f0 == P0 or op('elem', %s).f0 == P0" % (L, L), traces=yes)
    no = [t for t in e.all if t not in yes]
    e.returns(r + ".balance.none", "alt(0, op('default', ...))", traces=no)
    e.req(r + ".balance.none", "absent(TokenInfo[P1]) or false(op('exists', %s, ...))" % L, traces=no)
    e = ctx.entry(CR, "total_supply")
    e.returns(r + ".supply", "TokenInfo[P0].q.token_issuance", when="good(TokenInfo[P0])")
    e.returns(r + ".supply.none", "0", when="absent(TokenInfo[P0])")
    e = ctx.entry(CR, "token_uri")
    base = "call('*from_utf8', SftCollectionInfo[P0.f0].q.metadata_scheme.f0)"
    e.returns(r + ".uri", "mut('write', _, '{}{}', %s.q, P0.f1)" % base, when="good(SftCollectionInfo[P0.f0]) and good(%s)" % base)
    e.returns(r + ".uri", "mut('write', _, '{}{}', '', P0.f1)", when="good(SftCollectionInfo[P0.f0]) and absent(%s)" % base)
    e.returns(r + ".uri.none", "op('default', ...)", when="absent(SftCollectionInfo[P0.f0])")
    e = ctx.entry(CR, "collection_exists")
    e.returns(r + ".exists", "op('good?', SftCollectionInfo[P0])")
    e = ctx.entry(CR, "token_exists")
    e.returns(r + ".token_exists", "op('good?', TokenInfo[P0])")
    e = ctx.entry(CR, "get_collection_owner")
    e.returns(r + ".owner", "good(SftCollectionInfo[P0].q.collection_owner)", when="good(SftCollectionInfo[P0])")
    e.returns(r + ".owner", "none", when="absent(SftCollectionInfo[P0])")
