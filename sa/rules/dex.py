"""DEX: swaps, adding and removing liquidity, trading pairs, protocol fee."""
from .base import *

CR = "pallet-dex"
NOW = "call('frame_system::block_number')"
ROOT2 = "mc('integer_sqrt', %s)"


def pair(x, y):
    return "struct('TradingPair', f0=%s, f1=%s)" % (x, y)


def pool(x, y):
    # the pool account is derived from both asset ids (its exact layout is D04.pool)
    return "both(has(mc('to_be_bytes', %s)), has(mc('to_be_bytes', %s)))" % (x, y)


def bal(t, x, y):
    return "call('MultiCurrency::balance', %s, %s)" % (t, pool(x, y))


def res(x, y, i):
    return "LiquidityPool[%s].f%d" % (pair(x, y), i)


LPNEW = "call('MultiCurrency::create_with_metadata', ...).q"


def lp(x, y):
    return "alt(TradingPairLPToken[%s].q, call('MultiCurrency::create_with_metadata', %s, ...).q)" % (pair(x, y), pool(x, y))


def reserves_put(x, y):
    b0, b1 = bal(x, x, y), bal(y, x, y)
    return "put(LiquidityPool[%s], alt((%s, %s), upd(_, f0=%s, f1=%s)))" % (pair(x, y), b0, b1, b0, b1)


SWAPS = (("swap_with_exact_supply", "get_amounts_out"), ("swap_with_exact_target", "get_amounts_in"))


@prop("D01")
def swaps(ctx):
    for fn, quote in SWAPS:
        e = ctx.entry(CR, fn, opaque=((CR, "get_amounts_out"), (CR, "get_amounts_in")))
        r = "D01." + fn
        A = "call('*%s', P1, P3).q" % quote
        out = fn.endswith("supply")
        first, last = "op('idx', %s, 0)" % A, "op('idx', %s, len(%s) - 1)" % (A, A)
        e.req(r + ".signed", "origin('signer')")
        e.req(r + ".deadline", "absent(P5) or P5.q >= " + NOW)
        e.req(r + ".quoted", "good(call('*%s', P1, P3))" % quote)
        e.req(r + ".limit", "%s >= P2" % last if out else "%s <= P2" % first)
        i0, i1, i2 = "op('idx', P3, i)", "op('idx', P3, i + 1)", "op('idx', P3, i + 2)"
        a1 = "op('idx', %s, i + 1)" % A
        p0, p1 = "op('idx', P3, 0)", "op('idx', P3, 1)"
        # tokens move along the path, in the quoted amounts, from the caller to the recipient
        pay = "call('MultiCurrency::transfer', %s, SIGNER, %s, %s, _)" % (p0, pool(p0, p1), first)
        e.must(r + ".pay", pay, count=1)
        hop = lambda d: "call('MultiCurrency::transfer', op('idx', P3, same('i', _) + 1), %s, %s, %s, _)" % (pool(i0, i1), d, a1)
        # the last hop: no further asset in the path
        lasthop = "(i >= len(P3) - 2 or i + 2 == len(P3) or i + 2 >= len(P3) or absent(op('get', P3, i + 2)))"
        e.only(r + ".moves", "call", ("MultiCurrency::*transfer*", "MultiCurrency::*burn*"), [
            pay, (hop("alt(P4.q)"), lasthop + " and good(P4)"), (hop("SIGNER"), lasthop + " and absent(P4)"),
            (hop(pool(i1, i2)), "i < len(P3) - 2 or i + 2 < len(P3) or i + 2 != len(P3) or good(op('get', P3, i + 2))")], floor=7)
        e.order(r + ".pay_first", pay, "call('MultiCurrency::transfer', op('idx', P3, _ + 1), ...)")
        e.req(r + ".every_hop", "does(call('MultiCurrency::transfer', op('idx', P3, _ + 1), ...)) or len(P3) - 1 == 0")
        e.req(r + ".distinct", "%s != %s or len(P3) - 1 == 0" % (i0, i1))
        # reserves follow the pool balances and the fee-adjusted product never shrinks
        e.only(r + ".writes", WRITES, "*", [reserves_put("same('x', _)", "same('y', _)"), ("put(LiquidityPoolLastK[_], _)", "good(FeeTo)")], floor=2)
        N, D = "cfg.GetExchangeFee.f0", "cfg.GetExchangeFee.f1"
        for x, y, o in ((i0, i1, 1), (i1, i0, 0)):
            cond = "put(LiquidityPool[%s], _)" % pair("same('x', op('idx', P3, same('i', _) + 1))" if o == 0 else "op('idx', P3, same('i', _))",
                                                     "same('y', op('idx', P3, i))" if o == 0 else "op('idx', P3, i + 1)")
            R, B = [res(x, y, 0), res(x, y, 1)], [bal(x, x, y), bal(y, x, y)]
            kept = [R[0], R[1]]
            kept[o] = "(%s - %s)" % (R[o], a1)
            alts = []
            for c0 in (True, False, None):
                for c1 in (True, False, None):
                    adj = []
                    fs = []
                    for j, c in enumerate((c0, c1)):
                        if c is None:
                            adj.append("(%s * %s - sub(%s, %s) * %s)" % (B[j], D, B[j], kept[j], N))
                            fs.append("True")
                        elif c:
                            adj.append("(%s * %s - (%s - %s) * %s)" % (B[j], D, B[j], kept[j], N))
                            fs.append("%s > %s" % (B[j], kept[j]))
                        else:
                            adj.append("(%s * %s)" % (B[j], D))
                            fs.append("%s <= %s" % (B[j], kept[j]))
                    alts.append("(%s and %s and %s * %s >= %s * %s * op('**', %s, 2))" % (fs[0], fs[1], adj[0], adj[1], R[0], R[1], D))
            e.each(r + ".invariant", cond, " or ".join(alts))
            e.each(r + ".reserve", cond, "%s < %s" % (a1, R[o]))
            e.each(r + ".nonzero", cond, "%s != 0" % a1)
        e.fresh(r + ".fresh", "put(LiquidityPool[_], _)", "MultiCurrency::balance")
        ev = "event('Swap', SIGNER, _, %s, %s, same('to', _))" % (("P1", last) if out else (first, "P1"))
        e.must(r + ".report", ev, count=1)
    # quotes
    for fn, up in (("get_amounts_out", True), ("get_amounts_in", False)):
        one = "get_amount_out" if up else "get_amount_in"
        e = ctx.entry(CR, fn, opaque=((CR, one), (CR, "get_liquidity")))
        r = "D01." + fn
        e.req(r + ".length", "len(P1) >= 2 and len(P1) <= cfg.TradingPathLimit")
        i, j = ("same('i', _)", "i + 1") if up else ("same('i', _) - 1", "i")
        q = "call('*%s', same('amt', _), same('liq', call('*get_liquidity', op('idx', P1, %s), op('idx', P1, %s))).f0, liq.f1)" % (one, i, j)
        none = "len(P1) - 1 == 0 or "   # (the path has at least two assets)
        e.req(r + ".quoted", none + "good(%s)" % q)
        e.req(r + ".nonzero", none + "%s.q != 0" % q)
        e.req(r + ".reserves", none + "call('*get_liquidity', ...).f0 != 0")
        e.req(r + ".reserves", none + "call('*get_liquidity', ...).f1 != 0")
        e.req(r + ".enabled", none + "isv(TradingPairStatuses[alt(%s, %s)], 'Enabled')" % (pair("op('idx', P1, i + 1)" if up else "op('idx', P1, i)", "op('idx', P1, same('i', _))" if up else "op('idx', P1, same('i', _) - 1)"), pair("op('idx', P1, same('i', _))" if up else "op('idx', P1, same('i', _) - 1)", "op('idx', P1, i + 1)" if up else "op('idx', P1, i)")))
        e.noeffect(r + ".pure", kinds=WRITES + ("call",), traces="ok")
    e = ctx.entry(CR, "get_amount_out")
    N, D = "cfg.GetExchangeFee.f0", "cfg.GetExchangeFee.f1"
    e.req("D01.out.positive", "P0 != 0 and P1 != 0 and P2 != 0")
    e.returns("D01.out.formula", "good((P0 * (%s - %s) * P2) / (P1 * %s + P0 * (%s - %s)))" % (D, N, D, D, N))
    e = ctx.entry(CR, "get_amount_in")
    e.req("D01.in.positive", "P0 != 0 and P1 != 0 and P2 != 0")
    e.returns("D01.in.formula", "good((P1 * P0 * %s) / ((P2 - P0) * (%s - %s)) + 1)" % (D, D, N))


@prop("D02")
def add(ctx):
    e = ctx.entry(CR, "add_liquidity")
    r = "D02"
    e.req(r + ".signed", "origin('signer')")
    e.req(r + ".distinct", "P1 != P2")
    e.req(r + ".positive", "P3 != 0 and P4 != 0")
    e.req(r + ".deadline", "absent(P8) or P8.q >= " + NOW)
    to = "alt(P7.q, SIGNER)"
    for when, x, y, d, m in (("P2 >= P1", "P1", "P2", ("P3", "P4"), ("P5", "P6")), ("P2 < P1", "P2", "P1", ("P4", "P3"), ("P6", "P5"))):
        tr = [t for t in e.ok if any(True for _ in holds(F(when), t.facts, {}, t))]
        ctx.check(r + ".cases", e.where, len(tr) >= 4, "both orders of the two assets are handled")
        R, B, L = [res(x, y, 0), res(x, y, 1)], [bal(x, x, y), bal(y, x, y)], lp(x, y)
        e.req(r + ".enabled", "isv(TradingPairStatuses[%s], 'Enabled') or does(put(TradingPairStatuses[%s], var('Enabled')))" % (pair(x, y), pair(x, y)), traces=tr)
        empty = "%s == 0 and %s == 0" % (R[0], R[1])
        q1, q0 = "(%s * %s) / %s" % (d[0], R[1], R[0]), "(%s * %s) / %s" % (d[1], R[0], R[1])
        c1 = "%s <= %s and %s >= %s and %s != 0 and %s != 0" % (q1, d[1], q1, m[1], R[0], R[1])
        c0 = "%s > %s and %s <= %s and %s >= %s and %s != 0 and %s != 0" % (q1, d[1], q0, d[0], q0, m[0], R[0], R[1])
        t0 = "call('MultiCurrency::transfer', %s, SIGNER, %s, %%s, _)" % (x, pool(x, y))
        t1 = "call('MultiCurrency::transfer', %s, SIGNER, %s, %%s, _)" % (y, pool(x, y))
        # the amounts: all of both into an empty pool, else at the price of the pool within desired and minimum amounts
        e.only(r + ".moves", "call", ("MultiCurrency::*transfer*", "MultiCurrency::*burn*"), [
            (t0 % d[0], "(%s) or (%s)" % (empty, c1)), (t1 % d[1], "(%s) or (%s)" % (empty, c0)), (t1 % q1, c1), (t0 % q0, c0)], floor=6, traces=tr)
        e.must(r + ".both", t0 % "_", traces=tr, count=1)
        e.must(r + ".both", t1 % "_", traces=tr, count=1)
        # shares are minted for what the pool really received
        g0, g1 = "(%s - %s)" % (B[0], R[0]), "(%s - %s)" % (B[1], R[1])
        S = "call('MultiCurrency::total_issuance', %s)" % L
        first = "mc('integer_sqrt', %s * %s) - 1000" % (g0, g1)
        later = "min((%s * %s) / %s, (%s * %s) / %s)" % (g0, S, R[0], g1, S, R[1])
        later = "alt(%s, min((%s * %s) / %s, (%s * %s) / %s))" % (later, g1, S, R[1], g0, S, R[0])
        low = "call('MultiCurrency::mint_into', %s, mc('into_account_truncating', cfg.DEXBurnPalletId), 1000)" % L
        e.only(r + ".mints", "call", "MultiCurrency::*mint*", [
            ("call('MultiCurrency::mint_into', %s, SIGNER, %s)" % (L, first), "%s == 0 and absent(P7)" % S),
            ("call('MultiCurrency::mint_into', %s, P7.q, %s)" % (L, first), "%s == 0 and good(P7)" % S),
            ("call('MultiCurrency::mint_into', %s, SIGNER, %s)" % (L, later), "%s != 0 and absent(P7)" % S),
            ("call('MultiCurrency::mint_into', %s, P7.q, %s)" % (L, later), "%s != 0 and good(P7)" % S),
            (low, "%s == 0" % S)], floor=6, traces=tr)
        e.must(r + ".minimum", low, when="%s == 0" % S, traces=tr, count=1)
        e.must(r + ".shares", "call('MultiCurrency::mint_into', %s, %s, _)" % (L, to), traces=tr, count=1)
        e.req(r + ".nonzero", "%s != 0 or %s != 0" % (first, later), traces=tr)
        for c in ("call('MultiCurrency::transfer', ...)", "call('MultiCurrency::mint_into', ...)"):
            e.each(r + ".checked", c, "good(%s)" % c, traces=tr)
        e.must(r + ".reserves", reserves_put(x, y), traces=tr, count=1)
        e.only(r + ".writes", WRITES, "*", [
            reserves_put(x, y), ("put(LiquidityPoolLastK[%s], %s * %s)" % (L, B[0], B[1]), "good(FeeTo)"),
            ("put(TradingPairLPToken[%s], alt(%s, good(%s)))" % (pair(x, y), LPNEW, LPNEW), "absent(TradingPairLPToken[%s])" % pair(x, y)),
            ("put(TradingPairStatuses[%s], var('Enabled'))" % pair(x, y), "absent(TradingPairLPToken[%s])" % pair(x, y))], floor=1, traces=tr)
        e.must(r + ".last_k", "put(LiquidityPoolLastK[%s], %s * %s)" % (L, B[0], B[1]), when="good(FeeTo)", unless="absent(%s * %s)" % (B[0], B[1]), traces=tr)
        e.must(r + ".report", "event('AddLiquidity', SIGNER, %s, %s, %s, %s, _, _)" % (x, g0, y, g1), traces=tr, count=1)
        e.order(r + ".created_first", "put(TradingPairLPToken[_], _)", "put(TradingPairStatuses[_], _)", traces=tr)
        e.fresh(r + ".fresh", "put(LiquidityPool[_], _)", "MultiCurrency::balance", traces=tr)
        e.fresh(r + ".fresh", "call('MultiCurrency::mint_into', _, %s, _)" % to, "MultiCurrency::balance", traces=tr)
        e.must(r + ".new", "put(TradingPairLPToken[%s], _)" % pair(x, y), traces=tr, when="absent(TradingPairLPToken[%s])" % pair(x, y), count=1)


@prop("D03")
def remove(ctx):
    e = ctx.entry(CR, "remove_liquidity")
    r = "D03"
    e.req(r + ".signed", "origin('signer')")
    e.req(r + ".deadline", "absent(P7) or P7.q >= " + NOW)
    e.req(r + ".distinct", "P1 != P2")
    for when, x, y, m in (("P2 >= P1", "P1", "P2", ("P4", "P5")), ("P2 < P1", "P2", "P1", ("P5", "P4"))):
        tr = [t for t in e.ok if any(True for _ in holds(F(when), t.facts, {}, t))]
        ctx.check(r + ".cases", e.where, len(tr) >= 2, "both orders of the two assets are handled")
        L = "TradingPairLPToken[%s].q" % pair(x, y)
        B = [bal(x, x, y), bal(y, x, y)]
        e.req(r + ".pair", "good(TradingPairLPToken[%s])" % pair(x, y), traces=tr)
        give = "call('MultiCurrency::transfer', %s, SIGNER, %s, P3, _)" % (L, pool(x, y))
        burned = "call('MultiCurrency::balance', %s, %s)" % (L, pool(x, y))
        S = "call('MultiCurrency::total_issuance', %s)" % L
        a = ["(%s * %s) / %s" % (burned, b, S) for b in B]
        burn = "call('MultiCurrency::burn_from', %s, %s, %s, var('Exact'), _)" % (L, pool(x, y), burned)
        pay = ["call('MultiCurrency::transfer', %s, %s, %%s, %s, _)" % (t, pool(x, y), q) for t, q in ((x, a[0]), (y, a[1]))]
        e.must(r + ".give", give, traces=tr, count=1)
        e.must(r + ".burn", burn, traces=tr, count=1)
        for p in pay:
            e.must(r + ".pay", p % "SIGNER", traces=tr, when="absent(P6)", count=1)
            e.must(r + ".pay", p % "P6.q", traces=tr, when="good(P6)", count=1)
        e.only(r + ".moves", "call", "MultiCurrency::*", [give, burn] + [p % "alt(P6.q, SIGNER)" for p in pay], floor=4, traces=tr)
        for c in ("call('MultiCurrency::transfer', ...)", "call('MultiCurrency::burn_from', ...)"):
            e.each(r + ".checked", c, "good(%s)" % c, traces=tr)
        for j in (0, 1):
            e.req(r + ".positive", "%s != 0" % a[j], traces=tr)
            e.req(r + ".minimum", "%s >= %s" % (a[j], m[j]), traces=tr)
        e.order(r + ".order", give, burn, traces=tr)
        e.fresh(r + ".fresh", "call('MultiCurrency::burn_from', ...)", "MultiCurrency::balance", traces=tr)
        e.fresh(r + ".fresh", "put(LiquidityPool[_], _)", "MultiCurrency::balance", traces=tr)
        e.must(r + ".reserves", reserves_put(x, y), traces=tr, count=1)
        e.only(r + ".writes", WRITES, "*", [reserves_put(x, y), ("put(LiquidityPoolLastK[%s], %s * %s)" % (L, B[0], B[1]), "good(FeeTo)")], floor=1, traces=tr)
        e.must(r + ".last_k", "put(LiquidityPoolLastK[%s], %s * %s)" % (L, B[0], B[1]), when="good(FeeTo)", unless="absent(%s * %s)" % (B[0], B[1]), traces=tr)
        e.must(r + ".report", "event('RemoveLiquidity', SIGNER, %s, %s, %s, %s, %s, _)" % (x, a[0], y, a[1], burned), traces=tr, count=1)


@prop("D04")
def pairs(ctx):
    for fn, was, now, ev in (("reenable_trading_pair", "NotEnabled", "Enabled", "EnableTradingPair"), ("disable_trading_pair", "Enabled", "NotEnabled", "DisableTradingPair")):
        e = ctx.entry(CR, fn)
        r = "D04." + fn
        e.req(r + ".root", "origin('root')")
        for when, x, y in (("P2 >= P1", "P1", "P2"), ("P2 < P1", "P2", "P1")):
            tr = [t for t in e.ok if any(True for _ in holds(F(when), t.facts, {}, t))]
            e.req(r + ".exists", "good(TradingPairLPToken[%s])" % pair(x, y), traces=tr)
            e.req(r + ".was", "isv(TradingPairStatuses[%s], '%s')" % (pair(x, y), was), traces=tr)
            e.must(r + ".now", "put(TradingPairStatuses[%s], var('%s'))" % (pair(x, y), now), traces=tr, count=1)
            e.only(r + ".writes", WRITES, "*", ["put(TradingPairStatuses[%s], var('%s'))" % (pair(x, y), now)], traces=tr)
            e.must(r + ".report", "event('%s', %s)" % (ev, pair(x, y)), traces=tr, count=1)
    e = ctx.entry(CR, "set_fee_to")
    e.req("D04.fee_to.root", "origin('root')")
    e.must("D04.fee_to.set", "put(FeeTo, P1)", count=1)
    e.only("D04.fee_to.writes", WRITES, "*", ["put(FeeTo, P1)"])
    # canonical order and address of a pool
    e = ctx.entry(CR, "new", ty="TradingPair")
    e.returns("D04.canonical", "struct('TradingPair', f0=P0, f1=P1)", when="P1 >= P0")
    e.returns("D04.canonical", "struct('TradingPair', f0=P1, f1=P0)", when="P1 < P0")
    e = ctx.entry(CR, "pool_address", ty="TradingPair")
    ids = [T("mc", "to_be_bytes", T("f", T("self"), i), ()) for i in ("0", "1")]
    want = [C(0xdd)] * 4 + [T("byte", x, i) for x in ids for i in range(4)] + [ZERO] * 8
    for t in e.all:
        v = t.val
        while v.op in ("good", "from", "into") or v.op == "call" and len(v.args[1]) == 1:
            v = v.args[0] if v.op != "call" else v.args[1][0]
        ctx.check("D04.pool", e.where, layout(v, lambda x: 4 if x.op == "mc" and x.args[0] == "to_be_bytes" else None) == want, "the pool address is dddddddd, the two asset ids in big-endian order and eight zero bytes, not " + show(t.val)[:300])
    # quotes and reads orient the reserves to the arguments
    e = ctx.entry(CR, "get_liquidity")
    e.returns("D04.liquidity", "(LiquidityPool[%s].f0, LiquidityPool[%s].f1)" % (pair("P0", "P1"), pair("P0", "P1")), when="P1 >= P0")
    e.returns("D04.liquidity", "(LiquidityPool[%s].f1, LiquidityPool[%s].f0)" % (pair("P1", "P0"), pair("P1", "P0")), when="P1 < P0")
    e = ctx.entry(CR, "quote")
    e.req("D04.quote", "P0 != 0 and P1 != 0 and P2 != 0")
    e.returns("D04.quote", "good((P0 * P2) / P1)")
    # protocol fee: a sixth of the growth of the square root of the product, in shares, to the configured account only
    for fn, q in SWAPS:
        e = ctx.entry(CR, fn, opaque=((CR, "get_amounts_out"), (CR, "get_amounts_in")))
        r = "D04.fee." + fn
        L = "TradingPairLPToken[%s].q" % pair("same('x', _)", "same('y', _)")
        B0, B1 = bal("x", "x", "y"), bal("y", "x", "y")
        k = "mc('integer_sqrt', %s * %s)" % (B0, B1)
        k0 = "mc('integer_sqrt', LiquidityPoolLastK[_])"
        mint = "call('MultiCurrency::mint_into', %s, FeeTo.q, (call('MultiCurrency::total_issuance', %s) * (%s - %s)) / (%s * 5 + %s))" % (L, L, k, k0, k, k0)
        e.only(r + ".mint", "call", "MultiCurrency::*mint*", [(mint, "good(FeeTo) and LiquidityPoolLastK[TradingPairLPToken[_].q] != 0 and %s > %s" % (k, k0))], floor=2)
        e.only(r + ".last_k", "put", "LiquidityPoolLastK", [("put(LiquidityPoolLastK[%s], %s * %s)" % (L, B0, B1), "good(FeeTo)")], floor=2)
    al = {"add_liquidity", "remove_liquidity", "swap_with_exact_supply", "swap_with_exact_target", "do_add_liquidity", "do_remove_liquidity", "do_swap_with_exact_supply", "do_swap_with_exact_target"}
    writer_table(ctx, "D04.writers", CR, {"LiquidityPool": al, "LiquidityPoolLastK": al, "TradingPairLPToken": {"add_liquidity", "do_add_liquidity"},
                                          "TradingPairStatuses": {"add_liquidity", "do_add_liquidity", "reenable_trading_pair", "disable_trading_pair"}, "FeeTo": {"set_fee_to"}})


@prop("D05")
def exact(ctx):
    """SafeMath, which every computation of the exchange is written in, is exact or refuses"""
    c = ctx.m.crates.get(CR)
    sub = c.macrodefs.get("safe_math") if c else None
    fns = [d for d in sub.methods.values()] if sub else []
    r = "D05"
    ctx.check(r + ".defined", CR, bool(fns), "the checked operations of the exchange are written by safe_math!")
    for d in fns:
        for name, op in (("add", "SELF + P0"), ("sub", "SELF - P0"), ("mul", "SELF * P0"), ("div", "SELF / P0")):
            for f in d.get(name, []):
                e = ctx.analyse(f)
                e.returns("%s.%s" % (r, name), "good(wide(%s))" % op)
                e.req("%s.%s.checked" % (r, name), {"sub": "P0 <= SELF", "div": "good(SELF / P0) or P0 != 0"}.get(name, "good(%s)" % op))
                for t in e.err:
                    ctx.obl += 1
                    if not any(True for x in {"sub": ("SELF < P0",), "div": ("bad(SELF / P0)", "P0 == 0")}.get(name, ("bad(%s)" % op,)) for _ in holds(F(x), t.facts, {}, t)):
                        ctx.violation("%s.%s.refused" % (r, name), e.where, "refuses although the result is exact", t)
            ctx.check("%s.%s" % (r, name), CR, name in d, "the operation is defined")
    # the values are taken from and put back into balances without loss
    got = [i for i in (c.macros if c else []) if i.get("n") == "safe_math"]
    ctx.check(r + ".types", CR, len(got) >= 2, "the operations are defined for the numbers of the exchange (%d types)" % len(got))
