"""Vortex distribution: life cycle, rewards, redemption."""
from .base import *

CR = "pallet-vortex-distribution"
WHO = "op('origin_ok', 'signed_or_root')"
ADMIN = "origin('root') or (origin('signed_or_root') and (absent(%s) or AdminAccount.q == %s.q))" % (WHO, WHO)
ST = "VtxDistStatuses[P1]"
VAULT, ROOT, FEE = ("mc('into_account_truncating', cfg.%s)" % n for n in ("VtxDistPotId", "RootPotId", "TxFeePotId"))
BAL = "call('MultiCurrency::balance', %s, %s)"
TR = "call('MultiCurrency::transfer', %s, %s, %s, %s, var('Expendable'))"


@prop("V01")
def lifecycle(ctx):
    e = ctx.entry(CR, "set_admin")
    e.req("V01.set_admin", "origin('root')")
    w = "put(AdminAccount, alt(P1, call('*lookup', P1).q))"
    e.only("V01.set_admin", WRITES, "*", [w], floor=1)
    e.must("V01.set_admin", w, count=1)
    e.must("V01.set_admin.event", "event('AdminAccountChanged', old_key=AdminAccount)", count=1)
    e = ctx.entry(CR, "create_vtx_dist")
    e.req("V01.create", ADMIN)
    new, nid = "put(VtxDistStatuses[NextVortexId], var('Enabled'))", "put(NextVortexId, 1 + NextVortexId)"
    e.only("V01.create", WRITES, "*", [new, nid], floor=2)
    e.must("V01.create", new, count=1)
    e.must("V01.create.id_used", nid, count=1)
    e.req("V01.create.no_overflow", "good(1 + NextVortexId)")
    for fn, state, to in (("disable_vtx_dist", None, "Disabled"), ("start_vtx_dist", "Triggered", "Paying"), ("trigger_vtx_distribution", "Enabled", "Triggered")):
        e = ctx.entry(CR, fn)
        e.req("V01.%s.admin" % fn, ADMIN)
        e.req("V01.%s.state" % fn, "isv(%s, '%s')" % (ST, state) if state else "notv(%s, 'Disabled')" % ST)
        w = "put(%s, var('%s'))" % (ST, to)
        e.must("V01.%s.next" % fn, w, count=1)
        e.only("V01.%s.next" % fn, WRITES, "*", [w] + (["rm(TotalVortex[P1])"] if fn == "start_vtx_dist" else []), floor=1)
    e = ctx.entry(CR, "pay_unsigned")
    w = "put(%s, var('Done'))" % ST
    e.only("V01.pay.done", WRITES, "VtxDistStatuses", [(w, "isv(%s, 'Paying')" % ST)], floor=1)
    writer_table(ctx, "V01.writers", CR, {"VtxDistStatuses": {"create_vtx_dist", "disable_vtx_dist", "start_vtx_dist", "trigger_vtx_distribution", "pay_unsigned"},
                                          "AdminAccount": {"set_admin"}, "NextVortexId": {"create_vtx_dist"}, "VtxDistEras": {"set_vtx_dist_eras"}, "AssetPrices": {"set_asset_prices"}})
    e = ctx.entry(CR, "set_vtx_dist_eras")
    e.req("V01.eras.admin", ADMIN)
    e.req("V01.eras.range", "P2 <= P3")
    e.must("V01.eras", "put(VtxDistEras[P1], (P2, P3))", count=1)
    e.only("V01.eras", WRITES, "*", ["put(VtxDistEras[P1], (P2, P3))"], floor=1)
    e = ctx.entry(CR, "set_asset_prices")
    e.req("V01.prices.admin", ADMIN)
    A = "elem(P1)"
    w = "put(AssetPrices[P2, %s.f0], %s.f1)" % (A, A)
    e.must("V01.prices", w, when="nonempty(P1)")
    e.each("V01.prices.not_vortex", w, "%s.f0 != cfg.VtxAssetId" % A)
    e.only("V01.prices", WRITES, "*", [w], floor=1)


@prop("V02")
def rewards(ctx):
    e = ctx.entry(CR, "register_rewards")
    r = "V02.register"
    e.req(r + ".admin", ADMIN)
    e.req(r + ".enabled", "isv(%s, 'Enabled')" % ST)
    R, BOOK = "elem(P2)", "VtxDistOrderbook[P1, elem(P2).f0]"
    some = "nonempty(P2)"
    w = "put(%s, (%s.f1, false))" % (BOOK, R)
    PHI = "op('phi', TotalVortex[P1], ...)"
    tot = "put(TotalVortex[P1], alt(sub(%s, %s.f0) + %s.f1, sub(%s + %s.f1, %s.f0)))" % (PHI, BOOK, R, PHI, R, BOOK)
    same = "put(TotalVortex[P1], TotalVortex[P1])"
    e.only(r + ".only", WRITES, "*", [w, (tot, some), (same, "empty(P2)")], floor=2)
    e.must(r + ".booked", w, when=some)
    e.must(r + ".total", tot, when=some, count=1)
    e = ctx.entry(CR, "start_vtx_dist")
    r = "V02.start"
    mint = "call('MultiCurrency::mint_into', cfg.VtxAssetId, %s, TotalVortex[P1])" % VAULT
    e.only(r + ".only", "call", "*", [mint], floor=1)
    e.must(r + ".minted", mint, count=1)
    e.req(r + ".ok", "good(%s)" % mint)
    e.must(r + ".once", "rm(TotalVortex[P1])", count=1)
    e = ctx.entry(CR, "trigger_vtx_distribution")
    r = "V02.trigger"
    A = "elem(entries('AssetPrices', P1)).f0"
    fee, root = TR % (A, FEE, VAULT, BAL % (A, FEE)), TR % ("cfg.NativeAssetId", ROOT, VAULT, BAL % ("cfg.NativeAssetId", ROOT))
    e.only(r + ".only", "call", "*", [fee, root], floor=2)
    e.req(r + ".native", "good(%s) or %s == 0" % (root, BAL % ("cfg.NativeAssetId", ROOT)))
    e.each(r + ".moved_ok", fee, "good(%s)" % fee)
    for t in (fee, root):
        e.each(r + ".all", t, "%s.q == %s" % (t, BAL % (("cfg.NativeAssetId", ROOT) if t is root else (A, FEE))))
    e.req(r + ".all_assets", "empty(entries('AssetPrices', P1)) or good(%s) or %s == 0" % (fee, BAL % (A, FEE)))
    # payouts
    e = ctx.entry(CR, "pay_unsigned")
    r = "V02.pay"
    e.req(r + ".unsigned", "origin('none_origin')")
    PIVOT = "VtxDistPayoutPivot[P1]"
    IT = "same('it', alt(entries('VtxDistOrderbook', P1), entries('VtxDistOrderbook', P1, %s)))" % PIVOT
    D = "elem(%s)" % IT
    pay = TR % ("cfg.VtxAssetId", VAULT, D + ".f0", D + ".f1.f0")
    mark = "put(VtxDistOrderbook[P1, %s.f0], (_, true))" % D
    paying = "isv(%s, 'Paying')" % ST
    e.only(r + ".only", "call", "MultiCurrency::*", [pay], floor=1)
    e.each(r + ".paying", pay, "%s and false(%s.f1.f1)" % (paying, D), traces="all")
    e.each(r + ".unpaid", mark, "%s and false(%s.f1.f1)" % (paying, D), traces="all")
    EACH = TR % ("cfg.VtxAssetId", VAULT, "elem(entries('VtxDistOrderbook', %s)).f0", "_")
    e.each(r + ".from_start", EACH % "P1", "absent(%s)" % PIVOT)
    e.each(r + ".from_pivot", EACH % ("P1, " + PIVOT), "good(%s)" % PIVOT)
    e.must(r + ".marked_paid", mark, when="good(%s)" % pay, partial=True)
    PIV = "mc('last_raw_key', alt(entries('VtxDistOrderbook', P1), entries('VtxDistOrderbook', P1, %s)))" % PIVOT
    fin = "put(%s, var('Done'))" % ST
    e.each(r + ".done", fin, "%s == VtxDistPayoutPivot[P1]" % PIV)
    piv = "put(VtxDistPayoutPivot[P1], %s)" % PIV
    e.must(r + ".resumes", piv, when=paying, count=1)
    nxt = "put(NextUnsignedAt, call('frame_system::block_number') + cfg.UnsignedInterval)"
    e.must(r + ".interval", nxt, count=1)
    e.only(r + ".writes", WRITES, "*", [mark, fin, piv, nxt, "rm(VtxDistOrderbook[P1, ...])"], floor=4)
    e.noeffect(r + ".not_paying", kinds=("call",), names="MultiCurrency::*", traces=[t for t in e.ok if not any(True for _ in holds(F(paying), t.facts, {}, t))])
    writer_table(ctx, "V02.writers", CR, {"VtxDistOrderbook": {"register_rewards", "pay_unsigned"}, "TotalVortex": {"register_rewards", "start_vtx_dist"},
                                          "VtxDistPayoutPivot": {"pay_unsigned"}, "NextUnsignedAt": {"pay_unsigned"}})
    e = ctx.entry(CR, "validate_unsigned", trait="ValidateUnsigned", outs=True)
    r = "V02.unsigned"
    e.req(r + ".only_pay", "isv(P1, 'pay_unsigned')")
    e.req(r + ".not_future", "vp(P1, 'pay_unsigned', 'current_block') <= call('frame_system::block_number')")


@prop("V03")
def redeem(ctx):
    e = ctx.entry(CR, "redeem_tokens_from_vault")
    r = "V03"
    e.req(r + ".signed", "origin('signer')")
    ISS = "call('MultiCurrency::total_issuance', cfg.VtxAssetId)"
    e.req(r + ".minted", "%s != 0" % ISS)
    e.req(r + ".positive", "P2 != 0")
    e.req(r + ".owned", "P2 <= %s" % (BAL % ("cfg.VtxAssetId", "SIGNER")))
    e.req(r + ".done", "isv(%s, 'Done')" % ST)
    A = "elem(entries('AssetPrices', P1)).f0"
    share = "(P2 * %s) / %s" % (BAL % (A, VAULT), ISS)
    pay = TR % (A, VAULT, "SIGNER", share)
    burn = "call('MultiCurrency::burn_from', cfg.VtxAssetId, SIGNER, P2, var('Exact'), _)"
    e.only(r + ".only", "call", "*", [pay, burn], floor=2)
    e.must(r + ".burned", burn, count=1)
    e.req(r + ".burn_ok", "good(%s)" % burn)
    e.each(r + ".pay_ok", pay, "good(%s)" % pay)
    e.each(r + ".pay_all", pay, "%s.q == %s" % (pay, share))
    e.req(r + ".every_asset", "empty(entries('AssetPrices', P1)) or good(%s) or (%s) == 0" % (pay, share))
    e.noeffect(r + ".pure", kinds=WRITES, traces="all")
