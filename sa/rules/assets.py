"""assets-ext: holds, asset creation, native/asset dispatch, currency adapter and imbalances."""
from .base import *

CR = "pallet-assets-ext"
NATIVE = "cfg.NativeAssetId"
POOL = "mc('into_account_truncating', cfg.PalletId)"
ID = "op('|', op('<<', NextAssetId, 10), cfg.ParachainId)"


def routed(e, rule, what, native, asset, aid):
    """the call goes to the balances pallet for the native asset and to pallet-assets, with the same id, for the others"""
    e.only(rule + ".routed", "call", ("pallet_balances::*", "pallet_assets::*"), [
        ("call('pallet_balances::%s', %s)" % (what, native), "%s == %s" % (aid, NATIVE)),
        ("call('pallet_assets::%s', %s)" % (what, asset), "%s != %s" % (aid, NATIVE))], floor=2)
    e.must(rule + ".native", "call('pallet_balances::%s', %s)" % (what, native), when="%s == %s" % (aid, NATIVE), count=1)
    e.must(rule + ".asset", "call('pallet_assets::%s', %s)" % (what, asset), when="%s != %s" % (aid, NATIVE), count=1)
    for c, a in (("pallet_balances", native), ("pallet_assets", asset)):
        e.each(rule + ".checked", "call('%s::%s', ...)" % (c, what), "good(call('%s::%s', %s))" % (c, what, a))


def moved(frm, to, amt):
    n = "call('pallet_balances::transfer', %s, %s, %s, var('Expendable'))" % (frm, to, amt)
    a = "call('pallet_assets::transfer', P2, %s, %s, %s, var('Expendable'))" % (frm, to, amt)
    return n, a


@prop("A01")
def holds_(ctx):
    H = "Holds[P2, P1]"
    S = "mc('binary_search_by_key', %s, P0.f0, _)" % H
    OLD = "op('idx', %s, %s.q)" % (H, S)
    for fn in ("place_hold", "release_hold", "spend_hold"):
        e = ctx.entry(CR, fn, trait="Hold")
        r = "A01." + fn
        amt = "op('agg', 'sum', op('coll', P3, elem(P3).f1))" if fn == "spend_hold" else "P3"
        if fn == "place_hold":
            n, a = moved("P1", POOL, amt)
            rec = "op('updelem', %s, %s, upd(%s, f1=%s + %s.f1))" % (H, OLD, OLD, amt, OLD)
            new = "mut('insert', %s, op('errof', %s), (P0.f0, %s))" % (H, S, amt)
            w = [("put(%s, %s)" % (H, rec), "good(%s)" % S), ("put(%s, %s)" % (H, new), "absent(%s)" % S)]
            e.req(r + ".no_overflow", "absent(%s) or good(%s + %s.f1)" % (S, amt, OLD))
            e.must(r + ".recorded", "put(%s, alt(%s, %s))" % (H, rec, new), count=1)
        else:
            n, a = moved(POOL, "P1", amt)
            left = "(%s.f1 - %s)" % (OLD, amt)
            rec = "op('updelem', %s, %s, upd(%s, f1=%s))" % (H, OLD, OLD, left)
            gone = "mut('remove', %s, %s.q)" % (H, S)
            w = [("put(%s, %s)" % (H, rec), "%s != 0" % left), ("put(%s, %s)" % (H, gone), "%s == 0" % left),
                 ("rm(%s)" % H, "(empty(%s) and %s == 0) or empty(%s)" % (gone, left, rec))]
            e.req(r + ".held", "good(%s)" % S)
            e.req(r + ".enough", "%s.f1 >= %s" % (OLD, amt))
            e.must(r + ".recorded", "put(%s, %s)" % (H, rec), when="%s != 0" % left, unless="empty(%s)" % rec, count=1)
            e.must(r + ".released", "put(%s, %s)" % (H, gone), when="%s == 0" % left, unless="empty(%s)" % gone, count=1)
            e.must(r + ".cleared", "rm(%s)" % H, when="%s == 0 and empty(%s)" % (left, gone), count=1)
        e.only(r + ".writes", WRITES, "*", w, floor=2)
        if fn != "spend_hold":
            for c, f in ((n, "=="), (a, "!=")):
                e.must(r + ".moved", c, when="P2 %s %s" % (f, NATIVE), count=1)
                e.each(r + ".checked", c, "good(%s)" % c)
            e.only(r + ".moves", "call", ("pallet_balances::*", "pallet_assets::*"), [(n, "P2 == " + NATIVE), (a, "P2 != " + NATIVE)], floor=2)
        else:
            n, a = moved(POOL, "elem(P3).f0", "elem(P3).f1")
            split(e, r, n, a, "P3", "P2", POOL)
        e.must(r + ".report", "event('%s', asset_id=P2, who=P1, pallet_id=P0.f0, %s=P3)" % (
            {"place_hold": "PlaceHold", "release_hold": "ReleaseHold", "spend_hold": "SpendHold"}[fn],
            "spends" if fn == "spend_hold" else "amount"), count=1)
    e = ctx.entry(CR, "split_transfer", trait="TransferExt")
    args = "P0, elem(P2).f0, elem(P2).f1, var('Expendable')"
    split(e, "A01.split", "call('pallet_balances::transfer', %s)" % args, "call('pallet_assets::transfer', P1, %s)" % args, "P2", "P1", "P0")
    e.noeffect("A01.split.pure", kinds=WRITES, traces="all")
    e = ctx.entry(CR, "hold_balance")
    e.noeffect("A01.view", kinds=WRITES + ("call",), traces="all")
    writer_table(ctx, "A01.writers", CR, {"Holds": {"Hold::place_hold", "Hold::release_hold", "Hold::spend_hold"}})


def split(e, r, n, a, L, aid, who):
    tot = "op('agg', 'sum', op('coll', %s, elem(%s).f1))" % (L, L)
    av = "alt(call('pallet_balances::reducible_balance', %s, var('Expendable'), var('Polite')), call('pallet_assets::reducible_balance', %s, %s, var('Expendable'), var('Polite')))" % (who, aid, who)
    e.req(r + ".covered", "%s >= %s" % (av, tot))
    for c, f in ((n, "=="), (a, "!=")):
        e.must(r + ".moved", c, when="%s %s %s and nonempty(%s) and elem(%s).f1 != 0" % (aid, f, NATIVE, L, L))
        e.each(r + ".checked", c, "good(%s)" % c)
    e.only(r + ".moves", "call", ("pallet_balances::*", "pallet_assets::*"), [(n, "%s == %s" % (aid, NATIVE)), (a, "%s != %s" % (aid, NATIVE))], floor=2)
    e.noeffect(r + ".early_exit", kinds=("leave",), traces="ok")


@prop("A02")
def assets(ctx):
    for fn, ow, mb, tr in (("create_asset", "alt(P5.q, SIGNER)", "alt(P4.q, 1)", None), ("create", "P0", "alt(P1.q, 1)", "CreateExt"), ("create_with_metadata", "P0", "alt(P4.q, 1)", "CreateExt")):
        e = ctx.entry(CR, fn, trait=tr)
        r = "A02." + fn
        new = "call('pallet_assets::create', %s, %s, true, %s)" % (ID, ow, mb)
        e.must(r + ".created", new, count=1)
        e.only(r + ".once", "call", "pallet_assets::create", [new], floor=1)
        e.req(r + ".checked", "good(%s)" % new)
        e.req(r + ".fits", "NextAssetId + 1 <= 4194303")
        e.req(r + ".fits", "cfg.ParachainId <= 1023")
        e.must(r + ".next_id", "put(NextAssetId, NextAssetId + 1)", count=1)
        e.only(r + ".writes", WRITES, "*", ["put(NextAssetId, NextAssetId + 1)"], floor=1)
        e.must(r + ".evm", "call('OnNewAssetSubscription::on_asset_create', %s, op('rep', 204, 4))" % ID, count=1)
        e.must(r + ".report", "event('CreateAsset', asset_id=%s, creator=%s, initial_balance=%s)" % (ID, ow, mb), count=1)
        dflt = "absent(P5)" if fn == "create_asset" else None
        if fn == "create_asset":
            dep = "call('Currency::reserve', SIGNER, AssetDeposit)"
            e.req(r + ".signed", "origin('signer')")
            e.req(r + ".decimals", "P3 <= 18")
            e.must(r + ".deposit", dep, count=1)
            e.req(r + ".deposit_paid", "good(%s)" % dep)
            e.each(r + ".owner", "call('pallet_assets::create', _, SIGNER, ...)", dflt)
            e.each(r + ".owner", "call('pallet_assets::create', _, P5.q, ...)", "good(P5)")
            e.each(r + ".min", "call('pallet_assets::create', _, _, _, 1)", "absent(P4)")
        if fn != "create":
            m = "call('pallet_assets::force_set_metadata', var('Root'), %s, P1, P2, P3, false)" % ID
            e.must(r + ".metadata", m, count=1)
            e.req(r + ".metadata_set", "good(%s)" % m)
            e.order(r + ".metadata_after", new, m)
        else:
            e.returns(r + ".id", "good(%s)" % ID)
    writer_table(ctx, "A02.writers", CR, {"NextAssetId": {"create_asset", "CreateExt::create", "CreateExt::create_with_metadata"}, "AssetDeposit": {"set_asset_deposit"}})
    e = ctx.entry(CR, "set_asset_deposit")
    e.req("A02.deposit.root", "origin('root')")
    e.only("A02.deposit.set", WRITES, "*", ["put(AssetDeposit, P1)"], floor=1)
    # extrinsics on behalf of the caller
    for fn, call in (("mint", "mint"), ("burn_from", "burn")):
        e = ctx.entry(CR, fn)
        c = "call('pallet_assets::%s', P0, P1, P2, P3)" % call
        e.req("A02.%s.not_native" % fn, "P1 != " + NATIVE)
        e.only("A02.%s.moves" % fn, "call", "*", [c], floor=1)
        e.req("A02.%s.checked" % fn, "good(%s)" % c)
    e = ctx.entry(CR, "transfer")
    e.req("A02.transfer.signed", "origin('signer')")
    for mode, f in (("Preserve", "truth(P4)"), ("Expendable", "false(P4)")):
        tr = [t for t in e.ok if any(True for _ in holds(F(f), t.facts, {}, t))]
        ctx.check("A02.transfer.modes", e.where, len(tr) >= 1, "both transfer modes are handled")
        for p, a, g in (("pallet_balances", "", "=="), ("pallet_assets", "P1, ", "!=")):
            c = "call('%s::transfer', %sSIGNER, P2, P3, var('%s'))" % (p, a, mode)
            e.must("A02.transfer.moved", c, when="P1 %s %s" % (g, NATIVE), traces=tr, count=1)
            e.each("A02.transfer.checked", c, "good(%s)" % c, traces=tr)
        e.only("A02.transfer.moves", "call", "*", [
            ("call('pallet_balances::transfer', SIGNER, P2, P3, var('%s'))" % mode, "P1 == " + NATIVE),
            ("call('pallet_assets::transfer', P1, SIGNER, P2, P3, var('%s'))" % mode, "P1 != " + NATIVE)], floor=2, traces=tr)


@prop("A03")
def dispatch(ctx):
    for tr, fn, native, asset in (("Mutate", "mint_into", "P1, P2", "P0, P1, P2"), ("Mutate", "burn_from", "P1, P2, P3, P4", "P0, P1, P2, P3, P4"),
                                  ("Mutate", "transfer", "P1, P2, P3, P4", "P0, P1, P2, P3, P4")):
        e = ctx.entry(CR, fn, trait=tr)
        routed(e, "A03." + fn, fn, native, asset, "P0")
        e.returns("A03.%s.result" % fn, "good(alt(call('pallet_balances::%s', %s).q, call('pallet_assets::%s', %s).q))" % (fn, native, fn, asset))
        e.noeffect("A03.%s.pure" % fn, kinds=WRITES, traces="all")
    for fn, native, asset in (("total_issuance", "", "P0"), ("minimum_balance", "", "P0"), ("total_balance", "P1", "P0, P1"), ("balance", "P1", "P0, P1"),
                              ("reducible_balance", "P1, P2, P3", "P0, P1, P2, P3"), ("can_deposit", "P1, P2, P3", "P0, P1, P2, P3"), ("can_withdraw", "P1, P2", "P0, P1, P2")):
        e = ctx.entry(CR, fn, trait="Inspect")
        for mod, a, f in (("balances", native, "=="), ("assets", asset, "!=")):
            e.returns("A03." + fn, "call(%s)" % ", ".join(x for x in ("'pallet_%s::%s'" % (mod, fn), a) if x), when="P0 %s %s" % (f, NATIVE))
    for fn, tr in (("asset_exists", None), ("asset_exists", "Inspect"), ("exists", "InspectExt")):
        e = ctx.entry(CR, fn, trait=tr)
        e.returns("A03.native_exists", "true", when="P0 == " + NATIVE)
        e.returns("A03.exists", "alt(op('good?', call('pallet_assets::owner', P0)), call('pallet_assets::asset_exists', P0))", when="P0 != " + NATIVE)
    # the currency adapter of one asset
    ty = "AssetCurrency"
    bal = "call('pallet_assets::reducible_balance', cfg.U, P0, var('Expendable'), var('Polite'))"
    e = ctx.entry(CR, "withdraw", ty=ty, trait="Currency")
    for mode, f in (("Preserve", "isv(P3, 'KeepAlive')"), ("Expendable", "isv(P3, 'AllowDeath')")):
        c = "call('pallet_assets::decrease_balance', cfg.U, P0, P1, var('Exact'), var('%s'), var('Polite'))" % mode
        e.must("A03.withdraw.taken", c, when=f, count=1)
        e.each("A03.withdraw.checked", c, "good(%s) and %s" % (c, f))
    e.only("A03.withdraw.moves", "call", "pallet_assets::*", ["call('pallet_assets::decrease_balance', cfg.U, P0, P1, var('Exact'), _, var('Polite'))"], floor=2)
    e.returns("A03.withdraw.imbalance", "good(struct('NegativeImbalance', amount=P1, asset_id=cfg.U))")
    up = "call('pallet_assets::increase_balance', cfg.U, P0, P1, var('Exact'))"
    for fn in ("deposit_into_existing", "deposit_creating"):
        e = ctx.entry(CR, fn, ty=ty, trait="Currency")
        tr = [t for t in e.ok if any(True for _ in holds(F("P1 == 0 or good(%s)" % up), t.facts, {}, t))]
        e.must("A03.%s.given" % fn, up, unless="P1 == 0", count=1)
        e.only("A03.%s.moves" % fn, "call", "pallet_assets::*", [up], floor=1)
        if fn == "deposit_into_existing":
            e.req("A03.%s.checked" % fn, "P1 == 0 or good(%s)" % up)
            e.returns("A03.%s.imbalance" % fn, "good(struct('PositiveImbalance', amount=P1, asset_id=cfg.U))", when="P1 != 0")
        else:
            e.returns("A03.%s.imbalance" % fn, "struct('PositiveImbalance', amount=P1, asset_id=cfg.U)", when="P1 != 0 and good(%s)" % up)
            e.returns("A03.%s.none" % fn, "alt(op('default', _), struct('PositiveImbalance', amount=alt(0, op('default', _))))", when="absent(%s)" % up)
    e = ctx.entry(CR, "transfer", ty=ty, trait="Currency")
    for mode, f in (("Preserve", "isv(P3, 'KeepAlive')"), ("Expendable", "isv(P3, 'AllowDeath')")):
        for p, a, g in (("pallet_balances", "", "=="), ("pallet_assets", "cfg.U, ", "!=")):
            c = "call('%s::transfer', %sP0, P1, P2, var('%s'))" % (p, a, mode)
            e.must("A03.adapter.transfer", c, when="%s and cfg.U %s %s" % (f, g, NATIVE), count=1)
            e.each("A03.adapter.checked", c, "good(%s) and %s" % (c, f))
    e = ctx.entry(CR, "ensure_can_withdraw", ty=ty, trait="Currency")
    e.req("A03.ensure_can_withdraw", "P1 == 0 or %s <= P3" % bal)
    e = ctx.entry(CR, "make_free_balance_be", ty=ty, trait="Currency")
    dn = "call('pallet_assets::decrease_balance', cfg.U, P0, %s - P1, var('Exact'), var('Expendable'), var('Polite'))" % bal
    ui = "call('pallet_assets::increase_balance', cfg.U, P0, P1 - %s, var('Exact'))" % bal
    e.only("A03.set_free.moves", "call", "pallet_assets::*", [(dn, "%s >= P1" % bal), (ui, "%s <= P1" % bal)], floor=2)
    e.must("A03.set_free.taken", dn, when="%s > P1" % bal, count=1)
    e.must("A03.set_free.given", ui, when="%s < P1" % bal, unless="P1 - %s == 0" % bal, count=1)
    e.returns("A03.set_free.negative", "var('Negative', struct('NegativeImbalance', amount=%s - P1, asset_id=cfg.U))" % bal, when="good(%s) and %s >= P1" % (dn, bal))
    e.returns("A03.set_free.positive", "var('Positive', struct('PositiveImbalance', amount=P1 - %s, asset_id=cfg.U))" % bal, when="good(%s)" % ui)
    e.returns("A03.set_free.none", "var('Positive', alt(op('default', _), struct('PositiveImbalance', amount=alt(0, op('default', _)))))", when="absent(%s) and %s > P1" % (dn, bal))
    # imbalances neither lose nor invent value, and settle the issuance of their own asset
    for ty, other, sign in (("PositiveImbalance", "NegativeImbalance", "sat+"), ("NegativeImbalance", "PositiveImbalance", "sat-")):
        r = "A03.%s" % ty
        I = lambda t, a, i="SELF.asset_id": "struct('%s', amount=%s, asset_id=%s)" % (t, a, i)
        ctx.entry(CR, "new", ty=ty).returns(r + ".new", I(ty, "P0", "P1"))
        ctx.entry(CR, "zero", ty=ty, trait="Imbalance").returns(r + ".zero", I(ty, "0", "0"))
        e = ctx.entry(CR, "split", ty=ty, trait="Imbalance")
        e.returns(r + ".split", "(%s, %s)" % (I(ty, "min(P0, SELF.amount)"), I(ty, "SELF.amount - min(P0, SELF.amount)")))
        e.must(r + ".split.forgotten", "call('mem::forget', SELF)", count=1)
        e = ctx.entry(CR, "merge", ty=ty, trait="Imbalance")
        e.returns(r + ".merge", "upd(SELF, amount=op('sat+', P0.amount, SELF.amount))")
        e.must(r + ".merge.forgotten", "call('mem::forget', P0)", count=1)
        e = ctx.entry(CR, "subsume", ty=ty, trait="Imbalance", outs=True)
        e.must(r + ".subsume", "out('self', upd(_, amount=op('sat+', P0.amount, SELF.amount)))", count=1)
        e.must(r + ".subsume.forgotten", "call('mem::forget', P0)", count=1)
        e = ctx.entry(CR, "offset", ty=ty, trait="Imbalance")
        e.returns(r + ".offset.same", "var('Same', %s)" % I(ty, "SELF.amount - P0.amount"), when="SELF.amount >= P0.amount")
        e.returns(r + ".offset.other", "var('Other', %s)" % I(other, "P0.amount - SELF.amount"), when="SELF.amount < P0.amount")
        e.must(r + ".offset.forgotten", "call('mem::forget', has(SELF))", count=1)
        e.must(r + ".offset.forgotten", "call('mem::forget', has(P0))", count=1)
        ctx.entry(CR, "peek", ty=ty, trait="Imbalance").returns(r + ".peek", "SELF.amount")
        e = ctx.entry(CR, "drop", ty=ty, trait="Drop")
        own, nat = "call('pallet_assets::set_total_issuance', SELF.asset_id, op('%s', call('pallet_assets::total_issuance', SELF.asset_id), SELF.amount))" % sign, "put(TotalIssuance, op('%s', TotalIssuance, SELF.amount))" % sign
        e.must(r + ".drop.native", nat, when="SELF.asset_id == " + NATIVE, count=1)
        e.must(r + ".drop.asset", own, when="SELF.asset_id != " + NATIVE, count=1)
        e.only(r + ".drop.writes", WRITES + ("call",), "*", [(nat, "SELF.asset_id == " + NATIVE), (own, "SELF.asset_id != " + NATIVE)], floor=2)
