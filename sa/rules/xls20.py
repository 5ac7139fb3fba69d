"""XLS-20: fees, mint requests, token mappings, tokens bridged from the XRPL."""
from .base import *

CR = "pallet-xls20"
MIG = "good(call('Migrator::ensure_migrated'))"


@prop("L01")
def requests(ctx):
    e = ctx.entry(CR, "pay_xls20_fee")
    pay = "call('MultiCurrency::transfer', cfg.Xls20PaymentAsset, P0, Relayer.q, wide(Xls20MintFee * P1), var('Expendable'))"
    e.must("L01.fee.paid", pay, when="good(Relayer)", unless="Xls20MintFee == 0", count=1)
    e.only("L01.fee.only", "call", "*", [pay], floor=1)
    e.each("L01.fee.ok", pay, "good(%s)" % pay)
    e.noeffect("L01.fee.pure", kinds=WRITES, traces="all")
    # a request lists every token with its uri
    e = ctx.entry(CR, "request_xls20_mint", trait="Xls20MintRequest", opaque=((CR, "pay_xls20_fee"), (CR, "send_xls20_requests")))
    fee, snd = "call('*pay_xls20_fee', P0, len(P2))", "call('*send_xls20_requests', P1, P2, P3)"
    e.must("L01.mint.fee", fee, count=1)
    e.req("L01.mint.fee_ok", "good(%s)" % fee)
    e.must("L01.mint.sent", snd, count=1)
    e.only("L01.mint.only", "call", "*", [fee, snd], floor=2)
    e = ctx.entry(CR, "send_xls20_requests")
    e.must("L01.send", "event('Xls20MintRequest', collection_id=P0, serial_numbers=P1, token_uris=alt(op('vec'), mut('push', _, mut('write', op('default', _), '{}{}', _, elem(P1))), op('coll', P1, each(mut('write', op('default', _), '{}{}', _, elem(P1))), ...)))", count=1)
    # requesting again
    e = ctx.entry(CR, "re_request_xls20_mint", opaque=((CR, "pay_xls20_fee"), (CR, "send_xls20_requests")))
    r = "L01.again"
    INFO = "call('NFTCollectionInfo::get_collection_info', P1).q"
    e.req(r + ".signed", "origin('signer')")
    e.req(r + ".migrated", MIG)
    e.req(r + ".nonempty", "nonempty(P2) or len(P2) != 0")
    e.req(r + ".owner", "%s.owner == SIGNER or truth(mc('is_collection_owner', %s, SIGNER))" % (INFO, INFO))
    e.req(r + ".compatible", "truth(%s.cross_chain_compatibility.xrpl)" % INFO)
    tr = [t for t in e.ok if any(True for _ in holds(F("nonempty(P2)"), t.facts, {}, t))]
    e.req(r + ".exists", "truth(mc('token_exists', %s, elem(P2)))" % INFO, traces=tr)
    e.req(r + ".unmapped", "absent(Xls20TokenMap[P1, elem(P2)])", traces=tr)
    fee, snd = "call('*pay_xls20_fee', SIGNER, len(P2))", "call('*send_xls20_requests', P1, P2, %s.metadata_scheme)" % INFO
    e.must(r + ".fee", fee, count=1)
    e.req(r + ".fee_ok", "good(%s)" % fee)
    e.must(r + ".sent", snd, count=1)
    e.order(r + ".paid_first", fee, snd)
    e.noeffect(r + ".pure", kinds=WRITES, traces="all")
    e = ctx.entry(CR, "enable_xls20_compatibility")
    c = "call('NFTExt::enable_xls20_compatibility', SIGNER, P1)"
    e.must("L01.enable", c, count=1)
    e.req("L01.enable.ok", "good(%s)" % c)
    e.only("L01.enable.only", "call", "*", [c], floor=1)
    for fn, w in (("set_relayer", "put(Relayer, P1)"), ("set_xls20_fee", "put(Xls20MintFee, P1)")):
        e = ctx.entry(CR, fn)
        e.req("L01.%s.root" % fn, "origin('root')")
        e.must("L01.%s.set" % fn, w, count=1)
        e.only("L01.%s.writes" % fn, WRITES, "*", [w], floor=1)
    writer_table(ctx, "L01.writers", CR, {"Relayer": {"set_relayer"}, "Xls20MintFee": {"set_xls20_fee"}})


@prop("L02")
def mappings(ctx):
    e = ctx.entry(CR, "fulfill_xls20_mint")
    r = "L02.fulfil"
    INFO = "call('NFTCollectionInfo::get_collection_info', P1).q"
    T_ = "elem(P2)"
    w = "put(Xls20TokenMap[P1, %s.f0], %s.f1)" % (T_, T_)
    e.req(r + ".signed", "origin('signer')")
    e.req(r + ".migrated", MIG)
    e.req(r + ".relayer", "Relayer.q == SIGNER")
    e.req(r + ".nonempty", "nonempty(P2)")
    e.only(r + ".writes", WRITES, "*", [w], floor=1)
    e.must(r + ".mapped", w)
    e.each(r + ".exists", w, "truth(mc('token_exists', %s, %s.f0))" % (INFO, T_))
    e.each(r + ".unmapped", w, "absent(Xls20TokenMap[P1, %s.f0])" % T_)
    e.req(r + ".exists", "truth(mc('token_exists', %s, %s.f0))" % (INFO, T_))
    # tokens bridged from the XRPL
    e = ctx.entry(CR, "deposit_xls20_token", trait="Xls20Ext")
    r = "L02.bridge"
    cut = lambda a, b: "op('slice', P1, op('range', %s, %s))" % (a, b)
    be = lambda t, x: "call('%s::from_be_bytes', %s)" % (t, x)
    FL, SEQ, TAX = be("u16", cut(0, 2)), be("u32", cut(28, "_")), be("u32", cut(24, 28))
    SC = "op('%', op('%', 384160001 * " + SEQ + ", 4294967296) + 2459, 4294967296)"
    scr = "alt(op('^', %s, %s), op('^', %s, %s))" % (SC, TAX, TAX, SC)
    COL = "struct('Xls20Collection', issuer_address=call('H160::from_slice', %s), taxon=%s)" % (cut(4, 24), scr)
    M = "CollectionMapping[%s]" % COL
    new = "call('NFTExt::do_create_collection', mc('into_account_truncating', cfg.PalletId), _, 0, none, none, _, none, var('XRPL'), struct('CrossChainCompatibility', xrpl=true))"
    mint = lambda c: "call('NFTMinter::mint_bridged_nft', P0, %s.q, op('vec', %s))" % (c, SEQ)
    put = lambda c: "put(Xls20TokenMap[%s.q, %s], P1)" % (c, SEQ)
    e.req(r + ".migrated", MIG)
    e.req(r + ".not_burnable", "op('&', 1, %s) != 1 or op('&', 1, %s) == 0" % (FL, FL))
    known, fresh = "good(%s)" % M, "absent(%s)" % M
    e.only(r + ".calls", "call", ("NFT*",), [(new, fresh), (mint(M), known), (mint(new), fresh)], floor=3)
    e.only(r + ".writes", WRITES, "*", [(put(M), known), (put(new), fresh), ("put(%s, %s.q)" % (M, new), fresh)], floor=3)
    e.must(r + ".created", new, when=fresh, count=1)
    e.must(r + ".collection_mapped", "put(%s, %s.q)" % (M, new), when=fresh, count=1)
    for c, w in ((M, known), (new, fresh)):
        e.must(r + ".minted", mint(c), when=w, count=1)
        e.must(r + ".mapped", put(c), when=w, count=1)
        e.each(r + ".minted_ok", put(c), "good(%s)" % mint(c))
    # nothing is written for a token that is refused
    e.only(r + ".err_writes", WRITES, "*", ["put(%s, %s.q)" % (M, new)], traces=e.err)
    e = ctx.entry(CR, "get_xls20_token_id", trait="Xls20Ext")
    e.returns("L02.lookup", "alt(Xls20TokenMap[P0.f0, P0.f1], good(Xls20TokenMap[P0.f0, P0.f1].q), none)", when=MIG)
    e.returns("L02.lookup_migrating", "none", when="absent(call('Migrator::ensure_migrated'))")
    e = ctx.entry(CR, "set_collection_mappings")
    w = "put(CollectionMapping[elem(P1).f1], elem(P1).f0)"
    e.req("L02.set.root", "origin('root')")
    e.only("L02.set.writes", WRITES, "*", [w], floor=1)
    e.must("L02.set", w, when="nonempty(P1)")
    writer_table(ctx, "L02.writers", CR, {"Xls20TokenMap": {"fulfill_xls20_mint", "Xls20Ext::deposit_xls20_token", "Xls20Ext::set_xls20_token_id"}, "CollectionMapping": {"set_collection_mappings", "Xls20Ext::deposit_xls20_token"}})
