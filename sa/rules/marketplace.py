"""Marketplace: listings, purchases, auctions, offers, royalties, release of locks and holds."""
from .base import *

CR = "pallet-marketplace"
PID = "cfg.PalletId"


def L(key):
    return "Listings[%s].q" % key


def FPL(key):
    return "vp(Listings[%s].q, 'FixedPrice', 0)" % key


def AUC(key):
    return "vp(Listings[%s].q, 'Auction', 0)" % key


OFF = "vp(Offers[P1].q, 'Simple', 0)"


def nft(x):
    return "vp(%s.tokens, 'Nft', 0)" % x


def sft(x):
    return "vp(%s.tokens, 'Sft', 0)" % x


def unlocks(x, seller):
    """obligation patterns: the tokens of listing record x are released"""
    return [("call('NFTExt::remove_token_lock', (%s.collection_id, elem(%s.serial_numbers)))" % (nft(x), nft(x)),
             "isv(%s.tokens, 'Nft') and nonempty(%s.serial_numbers)" % (x, nft(x))),
            ("call('SFTExt::free_reserved_balance', (%s.collection_id, elem(%s.serial_numbers).f0), elem(%s.serial_numbers).f1, %s)" % (sft(x), sft(x), sft(x), seller),
             "isv(%s.tokens, 'Sft') and nonempty(%s.serial_numbers)" % (x, sft(x)))]


@prop("M01")
def listing_creation(ctx):
    for fn, coll, sers, variant, price in (("sell_nft", "P1", "P2", "FixedPrice", ("fixed_price", "P5")), ("auction_nft", "P1", "P2", "Auction", ("reserve_price", "P4"))):
        e = ctx.entry(CR, fn)
        r = "M01." + fn
        e.req(r + ".signed", "origin('signer')")
        e.req(r + ".nonempty", "nonempty(%s)" % sers)
        e.must(r + ".lock", "call('NFTExt::set_token_lock', (%s, elem(%s)), var('Listed', NextListingId), SIGNER)" % (coll, sers), count=1)
        e.must(r + ".record", "put(Listings[NextListingId], var('%s', struct('%sListing', seller=SIGNER, %s=%s, tokens=has(%s), close=same('c', _))))" % (variant, variant, price[0], price[1], sers), count=1)
        e.must(r + ".schedule", "put(ListingEndSchedule[same('c', _), NextListingId], _)", count=1)
        e.must(r + ".open", "put(OpenCollectionListings[%s, NextListingId], _)" % coll, count=1)
        e.must(r + ".id", "put(NextListingId, NextListingId + 1)", count=1)
    for fn, toks, variant, price in (("sell", "P1", "FixedPrice", "fixed_price=P4"), ("auction", "P1", "Auction", "reserve_price=P3")):
        e = ctx.entry(CR, fn)
        r = "M01." + fn
        e.req(r + ".signed", "origin('signer')")
        n, s = "vp(P1,'Nft',0)", "vp(P1,'Sft',0)"
        e.must(r + ".lock.nft", "call('NFTExt::set_token_lock', (%s.collection_id, elem(%s.serial_numbers)), var('Listed', NextListingId), SIGNER)" % (n, n), when="isv(P1,'Nft')", count=1)
        e.must(r + ".lock.sft", "call('SFTExt::reserve_balance', (%s.collection_id, elem(%s.serial_numbers).f0), elem(%s.serial_numbers).f1, SIGNER)" % (s, s, s), when="isv(P1,'Sft')", count=1)
        e.req(r + ".nonempty", "nonempty(%s.serial_numbers) or nonempty(%s.serial_numbers)" % (n, s))
        e.each(r + ".amount", "call('SFTExt::reserve_balance', _, a, _)", "a != 0")
        e.must(r + ".record", "put(Listings[NextListingId], var('%s', struct('%sListing', seller=SIGNER, tokens=P1, %s, close=_)))" % (variant, variant, price), count=1)
        e.must(r + ".schedule", "put(ListingEndSchedule[_, NextListingId], _)", count=1)
        e.must(r + ".id", "put(NextListingId, NextListingId + 1)", count=1)
    # the schedule entry and the record agree on the closing block, which lies in the future
    for fn, dur in (("sell_nft", "P6"), ("auction_nft", "P5"), ("sell", "P5"), ("auction", "P4")):
        e = ctx.entry(CR, fn)
        for cond, v in (("good(%s)" % dur, "%s.q + call('frame_system::block_number')" % dur), ("absent(%s)" % dur, "cfg.DefaultListingDuration + call('frame_system::block_number')")):
            e.must("M01.%s.close" % fn, "put(ListingEndSchedule[%s, NextListingId], _)" % v, when=cond)
            e.must("M01.%s.close" % fn, "put(Listings[NextListingId], has(struct('*Listing', close=%s)))" % v, when=cond)
        e.req("M01.%s.duration" % fn, "%s.q != 0" % dur, when="good(%s)" % dur)
    writer_table(ctx, "M01.writers", CR, {
        "NextListingId": {"auction", "auction_nft", "sell", "sell_nft"},
        "Listings": {"Hooks::on_initialize", "accept_offer", "auction", "auction_nft", "bid", "buy", "buy_multi", "cancel_sale", "sell", "sell_nft", "update_fixed_price"},
        "ListingEndSchedule": {"Hooks::on_initialize", "accept_offer", "auction", "auction_nft", "bid", "buy", "buy_multi", "cancel_sale", "sell", "sell_nft"}})


def transferred(e, r, x, seller, buyer, when=None):
    w = lambda c: c + (" and " + when if when else "")
    e.must(r + ".nft", "call('NFTExt::do_transfer', %s, %s.collection_id, %s.serial_numbers, %s)" % (seller, nft(x), nft(x), buyer), when=w("isv(%s.tokens,'Nft')" % x), count=1)
    e.must(r + ".sft", "call('SFTExt::do_transfer', %s, %s.collection_id, %s.serial_numbers, %s)" % (seller, sft(x), sft(x), buyer), when=w("isv(%s.tokens,'Sft')" % x), count=1)
    for eff, cond in unlocks(x, seller):
        e.must(r + ".unlock", eff, when=w(cond))


def removed(e, r, x, key, when=None):
    e.must(r + ".listing", "rm(Listings[%s])" % key, when=when, count=1)
    e.must(r + ".schedule", "rm(ListingEndSchedule[%s.close, %s])" % (x, key), when=when, count=1)
    e.must(r + ".open", "rm(OpenCollectionListings[alt(%s.collection_id, %s.collection_id), %s])" % (nft(x), sft(x), key), when=when, count=1)


@prop("M02")
def purchase(ctx):
    e = ctx.entry(CR, "update_fixed_price")
    fp = FPL("P1")
    e.req("M02.update.signed", "origin('signer')")
    e.req("M02.update.seller", "%s.seller == SIGNER" % fp)
    e.only("M02.update.writes", WRITES, "*", ["put(Listings[P1], var('FixedPrice', upd(%s, fixed_price=P2)))" % fp], floor=1)
    e = ctx.entry(CR, "buy")
    r = "M02.buy"
    e.req(r + ".signed", "origin('signer')")
    e.req(r + ".kind", "isv(Listings[P1].q, 'FixedPrice')")
    e.req(r + ".restriction", "absent(%s.buyer) or %s.buyer.q == SIGNER" % (fp, fp))
    e.must(r + ".pay", "call('MultiCurrency::split_transfer', SIGNER, %s.payment_asset, has((%s.seller, _)))" % (fp, fp), count=1)
    e.only(r + ".amount", "call", "MultiCurrency::*", payouts_form("call('MultiCurrency::split_transfer', SIGNER, %s.payment_asset, " % fp, ")", fp + ".seller", fp + ".royalties_schedule.entitlements", fp + ".fixed_price"), floor=1)
    e.order(r + ".paid_before_moved", "call('MultiCurrency::split_transfer', ...)", "call('*::do_transfer', ...)")
    transferred(e, r + ".moved", fp, fp + ".seller", "SIGNER")
    removed(e, r + ".removed", fp, "P1")
    # several listings: every one of them is bought by the caller under the same rules
    e = ctx.entry(CR, "buy_multi")
    k = "elem(P1)"
    fp = FPL(k)
    r = "M02.buy_multi"
    e.req(r + ".signed", "origin('signer')")
    e.each(r + ".restriction", "rm(Listings[%s])" % k, "absent(%s.buyer) or %s.buyer.q == SIGNER" % (fp, fp))
    e.only(r + ".amount", "call", "MultiCurrency::*", payouts_form("call('MultiCurrency::split_transfer', SIGNER, %s.payment_asset, " % fp, ")", fp + ".seller", fp + ".royalties_schedule.entitlements", fp + ".fixed_price"), floor=1)
    e.each(r + ".paid", "rm(Listings[%s])" % k, "does(call('MultiCurrency::split_transfer', SIGNER, %s.payment_asset, has((%s.seller, _))))" % (fp, fp))
    e.each(r + ".moved", "rm(Listings[%s])" % k, "does(call('NFTExt::do_transfer', %s.seller, _, %s.serial_numbers, SIGNER)) or does(call('SFTExt::do_transfer', %s.seller, _, %s.serial_numbers, SIGNER))" % (fp, nft(fp), fp, sft(fp)))


def payouts_form(pre, post, seller, ents, amount):
    """the payout list: either everything to the seller, or every royalty is a share of the amount and exactly the same share
    is taken off the seller's part"""
    one = "op('vec', (%s, %s))" % (seller, amount)
    many = ("mut('push', mut('push', _, (elem(%s).f0, same('share', elem(%s).f1 * %s))), (%s, op('phi', %s, _) - share))" % (ents, ents, amount, seller, amount))
    whole = ("mut('push', op('coll', %s, (elem(%s).f0, same('share', elem(%s).f1 * %s))), (%s, %s - op('agg', 'sum', op('coll', %s, share))))" % (ents, ents, ents, amount, seller, amount, ents))
    return [pre + one + post, pre + many + post, pre + whole + post]


@prop("M03")
def auctions(ctx):
    a = AUC("P1")
    e = ctx.entry(CR, "bid")
    r = "M03.bid"
    e.req(r + ".signed", "origin('signer')")
    e.req(r + ".kind", "isv(Listings[P1].q, 'Auction')")
    e.req(r + ".higher", "P2 > ListingWinningBid[P1].q.f1", when="good(ListingWinningBid[P1])")
    e.req(r + ".reserve", "P2 >= %s.reserve_price" % a, when="absent(ListingWinningBid[P1])")
    e.must(r + ".hold", "call('MultiCurrency::place_hold', %s, SIGNER, %s.payment_asset, P2)" % (PID, a), count=1)
    e.must(r + ".refund", "call('MultiCurrency::release_hold', %s, ListingWinningBid[P1].q.f0, %s.payment_asset, ListingWinningBid[P1].q.f1)" % (PID, a), when="good(ListingWinningBid[P1])", count=1)
    e.only(r + ".money", "call", "MultiCurrency::*", ["call('MultiCurrency::place_hold', ...)", ("call('MultiCurrency::release_hold', ...)", "good(ListingWinningBid[P1])")])
    e.each(r + ".held", "write(ListingWinningBid[P1])", "good(call('MultiCurrency::place_hold', ...))")
    e.must(r + ".record", "put(ListingWinningBid[P1], (SIGNER, P2))", count=1)
    e.each(r + ".extend", "put(Listings[P1], var('Auction', upd(%s, close=same('c', _))))" % a, "does(put(ListingEndSchedule[c, P1], _)) and does(rm(ListingEndSchedule[%s.close, P1]))" % a)
    e.each(r + ".extend", "rm(ListingEndSchedule[k, P1])", "k == %s.close and does(put(ListingEndSchedule[_, P1], _))" % a)
    e.only(r + ".writes", WRITES, "*", ["put(ListingWinningBid[P1], _)", "put(Listings[P1], var('Auction', upd(%s, close=_)))" % a, "write(ListingEndSchedule[_, P1])"])
    e = ctx.entry(CR, "cancel_sale")
    r = "M03.cancel"
    e.req(r + ".signed", "origin('signer')")
    e.req(r + ".seller", "%s.seller == SIGNER or %s.seller == SIGNER" % (FPL("P1"), a))
    e.req(r + ".nobid", "absent(ListingWinningBid[P1])", when="isv(Listings[P1].q, 'Auction')")
    for x, v in ((FPL("P1"), "FixedPrice"), (a, "Auction")):
        w = "isv(Listings[P1].q, '%s')" % v
        removed(e, r + ".removed", x, "P1", when=w)
        for eff, cond in unlocks(x, "SIGNER"):
            e.must(r + ".unlock", eff, when="%s and %s" % (w, cond))
    # settlement
    e = ctx.entry(CR, "close_listings_at")
    r = "M03.close"
    k = "elem(_).f0"
    a = AUC("same('k', elem(_).f0)")
    lid = "k"
    bid = "ListingWinningBid[k].q"
    ak = AUC("k")
    sold = "event('AuctionSold', listing_id=same('k', _))"
    for t in ("spend",):
        e.each(r + ".sold.pay", sold, "does(call('MultiCurrency::spend_hold', %s, %s.f0, %s.payment_asset, _))" % (PID, bid, ak))
        e.each(r + ".sold.moved", sold, "does(call('NFTExt::do_transfer', %s.seller, %s.collection_id, %s.serial_numbers, %s.f0)) or does(call('SFTExt::do_transfer', %s.seller, %s.collection_id, %s.serial_numbers, %s.f0))" % (ak, nft(ak), nft(ak), bid, ak, sft(ak), sft(ak), bid))
    e.only(r + ".money", "call", "MultiCurrency::*",
           payouts_form("call('MultiCurrency::spend_hold', %s, ListingWinningBid[same('k', _)].q.f0, %s.payment_asset, " % (PID, ak), ")", ak + ".seller", ak + ".royalties_schedule.entitlements", bid + ".f1")
           + ["call('MultiCurrency::release_hold', %s, ListingWinningBid[same('k', _)].q.f0, %s.payment_asset, %s.f1)" % (PID, ak, bid)], floor=2)
    e.each(r + ".bid_cleared", "rm(Listings[same('k', _)])", "isv(Listings[k].q, 'FixedPrice') or does(rm(ListingWinningBid[k]))")


@prop("M04")
def offers(ctx):
    e = ctx.entry(CR, "make_simple_offer")
    r = "M04.make"
    e.req(r + ".signed", "origin('signer')")
    e.req(r + ".nonzero", "P2 != 0")
    e.req(r + ".exists", "good(call('NFTExt::get_token_owner', P1))")
    e.req(r + ".notowner", "call('NFTExt::get_token_owner', P1).q != SIGNER or call('NFTExt::get_token_owner', P1) != SIGNER")
    e.req(r + ".notauction", "absent(call('NFTExt::get_token_lock', P1)) or notv(call('NFTExt::get_token_lock', P1).q, 'Listed') or absent(Listings[vp(call('NFTExt::get_token_lock', P1).q, 'Listed', 0)]) or notv(Listings[vp(call('NFTExt::get_token_lock', P1).q, 'Listed', 0)].q, 'Auction')")
    e.must(r + ".hold", "call('MultiCurrency::place_hold', %s, SIGNER, P3, P2)" % PID, count=1)
    e.must(r + ".record", "put(Offers[NextOfferId], var('Simple', struct('SimpleOffer', token_id=P1, asset_id=P3, amount=P2, buyer=SIGNER, marketplace_id=P4)))", count=1)
    e.must(r + ".id", "put(NextOfferId, NextOfferId + 1)", count=1)
    e.must(r + ".index", "put(TokenOffers[P1], has(alt(mut('push', _, NextOfferId), op('vec', NextOfferId))))", count=1)
    e = ctx.entry(CR, "cancel_offer")
    r = "M04.cancel"
    e.req(r + ".buyer", "%s.buyer == SIGNER" % OFF)
    e.req(r + ".signed", "origin('signer')")
    e.must(r + ".refund", "call('MultiCurrency::release_hold', %s, SIGNER, %s.asset_id, %s.amount)" % (PID, OFF, OFF), count=1)
    e.only(r + ".money", "call", "MultiCurrency::*", ["call('MultiCurrency::release_hold', ...)"])
    e.must(r + ".removed", "rm(Offers[P1])", count=1)
    e = ctx.entry(CR, "accept_offer")
    r = "M04.accept"
    e.req(r + ".signed", "origin('signer')")
    e.req(r + ".owner", "call('NFTExt::get_token_owner', %s.token_id).q == SIGNER or call('NFTExt::get_token_owner', %s.token_id) == SIGNER" % (OFF, OFF))
    e.must(r + ".pay", "call('MultiCurrency::spend_hold', %s, %s.buyer, %s.asset_id, has((SIGNER, _)))" % (PID, OFF, OFF), count=1)
    e.only(r + ".amount", "call", "MultiCurrency::*", [
        "call('MultiCurrency::spend_hold', _, _, _, op('vec', (SIGNER, %s.amount)))" % OFF,
        "call('MultiCurrency::spend_hold', _, _, _, op('vec', (_, same('share', _ * %s.amount)), (SIGNER, %s.amount - share)))" % (OFF, OFF),
        "call('MultiCurrency::spend_hold', _, _, _, op('vec', (_, same('share', _ * %s.amount)), (_, same('share2', _ * %s.amount)), (SIGNER, alt((%s.amount - share) - share2, %s.amount - (share + share2)))))" % (OFF, OFF, OFF, OFF),
        "call('MultiCurrency::spend_hold', _, _, _, mut('push', op('coll', e, (elem(e).f0, same('share', elem(e).f1 * %s.amount))), (SIGNER, %s.amount - op('agg', 'sum', op('coll', e, share)))))" % (OFF, OFF),
        "call('MultiCurrency::spend_hold', _, _, _, mut('push', mut('push', _, (elem(e).f0, same('share', elem(e).f1 * %s.amount))), (SIGNER, op('phi', %s.amount, _) - share)))" % (OFF, OFF)], floor=1)
    e.must(r + ".moved", "call('NFTExt::do_transfer', SIGNER, %s.token_id.f0, op('vec', %s.token_id.f1), %s.buyer)" % (OFF, OFF, OFF), count=1)
    e.must(r + ".unlock", "call('NFTExt::remove_token_lock', (%s.token_id.f0, %s.token_id.f1))" % (OFF, OFF))
    e.must(r + ".removed", "rm(Offers[P1])", count=1)
    writer_table(ctx, "M04.writers", CR, {"Offers": {"accept_offer", "cancel_offer", "make_simple_offer"}, "TokenOffers": {"accept_offer", "cancel_offer", "make_simple_offer"}, "NextOfferId": {"make_simple_offer"}})


@prop("M05")
def nothing_stranded(ctx):
    """whenever a listing record disappears, its tokens are released and a bid on it is paid out or released"""
    n = 0
    for fn in ("buy", "buy_multi", "cancel_sale", "accept_offer", "close_listings_at"):
        e = ctx.entry(CR, fn)
        for v in ("FixedPrice", "Auction"):
            x = "vp(Listings[k].q, '%s', 0)" % v
            rm = "rm(Listings[same('k', _)])"
            for t in e.ok:
                for f in t.fx:
                    for env in match_eff(E(rm), f, {}):
                        if not any(True for _ in holds(F("isv(Listings[k].q, '%s')" % v), t.facts, env, t)):
                            continue
                        for eff, cond in unlocks(x, "_"):
                            if any(True for _ in holds(F(cond), t.facts, env, t)) or (v == "FixedPrice" and fn == "accept_offer" and "remove_token_lock" in eff):
                                n += 1
                                ctx.obl += 1
                                if not any(True for g in t.fx for _ in match_eff(E(eff), g, env)):
                                    # an empty bundle has nothing to release
                                    if any(True for _ in holds(F("empty(%s.serial_numbers) or empty(%s.serial_numbers) or isv(%s.tokens, 'Sft')" % (nft(x), sft(x), x)), t.facts, env, t)):
                                        continue
                                    ctx.violation("M05.tokens", e.where, "a %s listing is removed without releasing the tokens it locked" % v, t, f)
                        if v == "Auction":
                            ctx.obl += 1
                            n += 1
                            if not any(True for _ in holds(F("absent(ListingWinningBid[k]) or does(call('MultiCurrency::release_hold', %s, ListingWinningBid[k].q.f0, %s.payment_asset, ListingWinningBid[k].q.f1)) or does(call('MultiCurrency::spend_hold', %s, ListingWinningBid[k].q.f0, %s.payment_asset, _))" % (PID, x, PID, x)), t.facts, env, t)):
                                ctx.violation("M05.bid", e.where, "an auction is removed while the funds of its winning bid stay held", t, f)
    ctx.note(CR, "M05", n, "removal of a listing record releases tokens and bids")
    if n < 10:
        ctx.violation("M05", CR, "listing removals not found (anchor lost)")


@prop("M06")
def royalties(ctx):
    for fn, coll in (("sell_nft", "P1"), ("auction_nft", "P1")):
        e = ctx.entry(CR, fn)
        rs = "put(Listings[_], has(struct('*Listing', royalties_schedule=%s)))"
        mk = {"sell_nft": "P7", "auction_nft": "P6"}[fn]
        e.must("M06.%s.network" % fn, rs % "has((FeeTo.q, cfg.NetworkFeePercentage))", when="good(FeeTo)", count=1)
        e.must("M06.%s.marketplace" % fn, rs % ("has((RegisteredMarketplaces[%s.q].q.account, RegisteredMarketplaces[%s.q].q.entitlement))" % (mk, mk)), when="good(%s)" % mk, count=1)
        e.must("M06.%s.collection" % fn, rs % ("has(call('NFTExt::get_royalties_schedule', %s).q.q)" % coll), when="good(call('NFTExt::get_royalties_schedule', %s).q)" % coll, count=1)
        e.each("M06.%s.valid" % fn, rs % "same('s', _)", "empty(s.entitlements) or empty(_) or _ <= op('const', 'Permill::ACCURACY') or _ <= 1000000")
        e.req("M06.%s.registered" % fn, "good(RegisteredMarketplaces[%s.q])" % mk, when="good(%s)" % mk)
    e = ctx.entry(CR, "accept_offer")
    mp = OFF + ".marketplace_id.q"
    sp = "call('MultiCurrency::spend_hold', _, _, _, has(%s))"
    ZT = "call('Permill::from_parts', _) == 0"   # nothing is owed to anybody
    e.must("M06.accept.network", sp % ("alt((FeeTo.q, cfg.NetworkFeePercentage), (FeeTo.q, cfg.NetworkFeePercentage * %s.amount))" % OFF), unless=ZT, when="good(FeeTo)")
    e.must("M06.accept.marketplace", sp % ("alt((RegisteredMarketplaces[%s].q.account, RegisteredMarketplaces[%s].q.entitlement), (RegisteredMarketplaces[%s].q.account, RegisteredMarketplaces[%s].q.entitlement * %s.amount))" % (mp, mp, mp, mp, OFF)), unless=ZT, when="good(%s.marketplace_id)" % OFF)
    e = ctx.entry(CR, "register_marketplace")
    e.req("M06.register.signed", "origin('signer')")
    e.req("M06.register.bound", "P2 <= _ or P2.q <= _ or mc('deconstruct', P2) <= _")
    e.must("M06.register.id", "put(NextMarketplaceId, NextMarketplaceId + 1)", count=1)
    e.must("M06.register.record", "put(RegisteredMarketplaces[NextMarketplaceId], struct('Marketplace', account=alt(P1.q, SIGNER), entitlement=P2))", count=1)
    e = ctx.entry(CR, "set_fee_to")
    e.req("M06.feeto.root", "origin('root')")
    e.must("M06.feeto.effect", "put(FeeTo, P1)", count=1)
    writer_table(ctx, "M06.writers", CR, {"FeeTo": {"set_fee_to"}, "RegisteredMarketplaces": {"register_marketplace"}, "NextMarketplaceId": {"register_marketplace"}})
