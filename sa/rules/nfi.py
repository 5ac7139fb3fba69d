"""NFI: paid data requests, data submission, data removal."""
from .base import *

CR = "pallet-nfi"
CH = "cfg.ChainId"


def fee(e, r, who, n, sub):
    """the configured fee for n tokens is paid by `who`, split between the network and the receiver"""
    M = "MintFee[%s]" % sub
    total = "%s.q.amount" % M if n == "1" else "%s.q.amount * %s" % (M, n)
    net = "cfg.NetworkFeePercentage * (%s)" % total
    pay = lambda to, amt: "call('MultiCurrency::transfer', %s.q.asset_id, %s, %s, %s, var('Expendable'))" % (M, who, to, amt)
    full, part, pot = pay(M + ".q.receiver", total), pay(M + ".q.receiver", "sub(%s, %s)" % (total, net)), pay("FeeTo.q", net)
    e.only(r + ".transfers", "call", "MultiCurrency*", [(full, "good(%s) and absent(FeeTo)" % M), (part, "good(%s) and good(FeeTo)" % M), (pot, "good(%s) and good(FeeTo)" % M)], floor=3)
    return M, full, part, pot


@prop("F01")
def requests(ctx):
    # the fee
    e = ctx.entry(CR, "pay_mint_fee")
    M, full, part, pot = fee(e, "F01.fee", "P0", "P1", "P2")
    for x, c in ((full, "absent(FeeTo)"), (part, "good(FeeTo)"), (pot, "good(FeeTo)")):
        e.must("F01.fee.paid", x, when="good(%s) and %s" % (M, c), count=1)
        e.each("F01.fee.paid_ok", x, "good(%s)" % x)
    e.noeffect("F01.fee.pure", kinds=WRITES, traces="all")
    # requests by hand
    e = ctx.entry(CR, "manual_data_request", opaque=((CR, "pay_mint_fee"),))
    r = "F01.manual"
    e.req(r + ".signed", "origin('signer')")
    c = "call('*pay_mint_fee', SIGNER, 1, P2)"
    e.must(r + ".fee", c, count=1)
    e.only(r + ".calls", "call", "*", [c], floor=1)
    e.req(r + ".fee_ok", "good(%s)" % c)
    here = "P1.chain_id == %s" % CH
    C, S = "vp(P1.collection_id, 'U32', 0)", "vp(P1.serial_number, 'U32', 0)"
    tok = "(%s, %s)" % (C, S)
    e.req(r + ".enabled", "truth(NfiEnabled[(%s, P1.collection_id), P2]) or P1.chain_id != %s" % (CH, CH))
    e.req(r + ".format", "(isv(P1.collection_id, 'U32') and isv(P1.serial_number, 'U32')) or P1.chain_id != %s" % CH)
    e.req(r + ".owner", "P1.chain_id != %s or call('NFTExt::get_token_owner', %s).q == SIGNER or (call('NFTExt::get_collection_owner', %s).q == SIGNER and good(call('NFTExt::get_token_owner', %s))) or call('SFTExt::get_collection_owner', %s).q == SIGNER" % (CH, tok, C, tok, C))
    e.must(r + ".report", "event('DataRequestExisting', caller=SIGNER, sub_type=P2, token_id=P1)", when="good(NfiData[P1, P2])", count=1)
    e.must(r + ".report", "event('DataRequestNew', caller=SIGNER, sub_type=P2, token_id=P1)", when="absent(NfiData[P1, P2])", count=1)
    e.noeffect(r + ".pure", kinds=WRITES, traces="all")
    # requests made by a mint
    e = ctx.entry(CR, "request", trait="NFIRequest", opaque=((CR, "pay_mint_fee"),))
    r = "F01.mint"
    NFI = "var('NFI')"
    EN = "truth(NfiEnabled[(%s, var('U32', P1)), %s])" % (CH, NFI)
    c = "call('*pay_mint_fee', P0, len(P2), %s)" % NFI
    e.must(r + ".fee", c, when=EN, count=1)
    e.only(r + ".calls", "call", "*", [(c, EN)], floor=1)
    e.req(r + ".fee_ok", "good(%s)" % c, when=EN)
    t = "struct('MultiChainTokenId', chain_id=%s, collection_id=var('U32', P1), serial_number=var('U32', elem(P2)))" % CH
    e.must(r + ".report", "event('DataRequestExisting', caller=P0, sub_type=%s, token_id=%s)" % (NFI, t), when="%s and nonempty(P2) and good(NfiData[%s, %s])" % (EN, t, NFI))
    e.must(r + ".report", "event('DataRequestNew', caller=P0, sub_type=%s, token_id=%s)" % (NFI, t), when="%s and nonempty(P2) and absent(NfiData[%s, %s])" % (EN, t, NFI))
    e.noeffect(r + ".pure", kinds=WRITES, traces="all")


@prop("F02")
def data(ctx):
    e = ctx.entry(CR, "submit_nfi_data")
    r = "F02.submit"
    C, S = "vp(P1.collection_id, 'U32', 0)", "vp(P1.serial_number, 'U32', 0)"
    tok = "(%s, %s)" % (C, S)
    sub = "alt(var('NFI'), vp(P2, _, _))"
    e.req(r + ".relayer", "Relayer.q == SIGNER")
    e.req(r + ".enabled", "P1.chain_id != %s or truth(NfiEnabled[(%s, P1.collection_id), var('NFI')])" % (CH, CH))
    e.req(r + ".exists", "P1.chain_id != %s or good(call('NFTExt::get_token_owner', %s)) or truth(call('SFTExt::token_exists', %s))" % (CH, tok, tok))
    e.req(r + ".format", "(isv(P1.collection_id, 'U32') and isv(P1.serial_number, 'U32')) or P1.chain_id != %s" % CH)
    w = "put(NfiData[P1, var('NFI')], P2)"
    e.must(r + ".stored", w, when="isv(P2, 'NFI')", count=1)
    e.only(r + ".writes", WRITES, "*", [w], floor=1)
    # the data goes with the token
    e = ctx.entry(CR, "on_burn", trait="NFIRequest")
    t = "struct('MultiChainTokenId', chain_id=%s, collection_id=var('U32', P0.f0), serial_number=var('U32', P0.f1))" % CH
    e.must("F02.burn.removed", "rm(NfiData[%s])" % t, count=1)
    e.only("F02.burn.writes", WRITES, "*", ["rm(NfiData[%s])" % t], floor=1)
    # enabling and settings
    e = ctx.entry(CR, "enable_nfi_for_trn_collection")
    e.req("F02.enable.owner", "call('NFTExt::get_collection_owner', P1).q == SIGNER or (call('SFTExt::get_collection_owner', P1).q == SIGNER and absent(call('NFTExt::get_collection_owner', P1)))")
    w = "put(NfiEnabled[(%s, var('U32', P1)), P2], true)" % CH
    e.must("F02.enable.set", w, count=1)
    e.only("F02.enable.writes", WRITES, "*", [w], floor=1)
    for fn, ws, more in (("set_relayer", ["put(Relayer, P1)"], None), ("set_fee_to", [("put(FeeTo, P1.q)", "good(P1)"), ("rm(FeeTo)", "absent(P1)")], None),
                         ("set_fee_details", [("put(MintFee[P1], P2.q)", "good(P2) and P2.q.amount > 0"), ("rm(MintFee[P1])", "absent(P2)")], None)):
        e = ctx.entry(CR, fn)
        e.req("F02.%s.root" % fn, "origin('root')")
        e.only("F02.%s.writes" % fn, WRITES, "*", ws, floor=len(ws))
        for w in ws:
            e.must("F02.%s.set" % fn, w if isinstance(w, str) else w[0], when=None if isinstance(w, str) else w[1].split(" and ")[0], count=1)
    writer_table(ctx, "F02.writers", CR, {"NfiData": {"submit_nfi_data", "NFIRequest::on_burn"}, "NfiEnabled": {"enable_nfi_for_trn_collection"}, "Relayer": {"set_relayer"}, "FeeTo": {"set_fee_to"}, "MintFee": {"set_fee_details"}})
