"""Crowdsale: creation, participation, closing, voucher distribution, redemption."""
from .base import *

CR = "pallet-crowdsale"
NOW = "call('frame_system::block_number')"
UNIT = 1000000
ISS = "call('NFTExt::get_collection_issuance', %s)"


def having(e, fact, pool=None):
    return [t for t in (e.ok if pool is None else pool) if any(True for _ in holds(F(fact), t.facts, {}, t))]


@prop("C01")
def creation(ctx):
    e = ctx.entry(CR, "initialize")
    r = "C01.initialize"
    I = ISS % "P2"
    SEED = "(mc('into_account_truncating', cfg.PalletId), NextSaleId)"
    V = "same('v', has(mc('using_encoded', %s, _)))" % SEED
    VO = "same('a', call('MultiCurrency::create_with_metadata', same('v', _), _, _, 6, none).q)"
    info = "struct('SaleInformation', status=var('Pending', %s), admin=SIGNER, vault=%s, payment_asset_id=P1, reward_collection_id=P2, soft_cap_price=P3, funds_raised=0, participant_count=0, voucher_asset_id=%s, duration=P4)" % (NOW, V, VO)
    w, n = "put(SaleInfo[NextSaleId], %s)" % info, "put(NextSaleId, NextSaleId + 1)"
    own = "call('NFTExt::transfer_collection_ownership', SIGNER, P2, %s)" % V
    new = "call('MultiCurrency::create_with_metadata', %s, alt(P5.q, op('fmt', ...), has(op('fmt', ...))), alt(P6.q, has(op('fmt', ...))), 6, none)" % V
    amt = "wide(%d * %s.q.f1.q)" % (UNIT, I)
    mint = "call('MultiCurrency::mint_into', %s, %s, %s)" % (VO, V, amt)
    e.only(r + ".calls", "call", "*", [own, "call('MultiCurrency::create_with_metadata', %s, _, _, 6, none)" % V, mint], floor=3)
    e.only(r + ".writes", WRITES, "*", [w, n], floor=2)
    for x, nm in ((w, "stored"), (n, "id_used"), (own, "vault_owns"), (mint, "supply")):
        e.must("%s.%s" % (r, nm), x, count=1)
    e.req(r + ".fresh_id", "good(NextSaleId + 1)")
    e.req(r + ".asset", "truth(call('MultiCurrency::exists', P1))")
    e.req(r + ".price", "P3 > 0 or P3 != 0")
    e.req(r + ".duration", "(P4 > 0 or P4 != 0) and P4 <= cfg.MaxSaleDuration")
    e.req(r + ".max_issuance", "good(%s.q.f1)" % I)
    e.req(r + ".unissued", "%s.q.f0 == 0" % I)
    e.req(r + ".not_public", "absent(call('NFTExt::get_public_mint_info', P2)) or false(call('NFTExt::get_public_mint_info', P2).q.enabled)")
    for x in (own, mint):
        e.each(r + ".ok", x, "good(%s)" % x)
    e.req(r + ".no_overflow", "good(%d * %s.q.f1.q)" % (UNIT, I))
    # every sale has its own vault
    e = ctx.entry(CR, "vault_account")
    e.returns("C01.vault", "has(mc('using_encoded', (mc('into_account_truncating', cfg.PalletId), P0), _))")
    # enabling
    e = ctx.entry(CR, "enable")
    r = "C01.enable"
    S = "SaleInfo[P1].q"
    END = "SaleEndBlocks[%s.duration + %s]" % (S, NOW)
    w = "put(SaleInfo[P1], upd(%s, status=var('Enabled', %s)))" % (S, NOW)
    e.req(r + ".admin", "%s.admin == SIGNER" % S)
    e.req(r + ".pending", "isv(%s.status, 'Pending')" % S)
    first, more = "put(%s, op('vec', P1))" % END, "put(%s, mut('push', %s.q, P1))" % (END, END)
    e.only(r + ".writes", WRITES, "*", [w, (first, "absent(%s)" % END), (more, "good(%s)" % END)], floor=3)
    e.must(r + ".enabled", w, count=1)
    e.must(r + ".scheduled", first, when="absent(%s)" % END, count=1)
    e.must(r + ".scheduled", more, when="good(%s)" % END, count=1)
    e.noeffect(r + ".no_calls", kinds=("call",), traces="all")


@prop("C02")
def participation(ctx):
    e = ctx.entry(CR, "participate")
    r = "C02"
    S, C = "SaleInfo[P1].q", "SaleParticipation[P1, SIGNER]"
    pay = "call('MultiCurrency::transfer', %s.payment_asset_id, SIGNER, %s.vault, P2, var('Expendable'))" % (S, S)
    e.req(r + ".signed", "origin('signer')")
    e.req(r + ".amount", "P2 > 0 or P2 != 0")
    e.req(r + ".enabled", "isv(%s.status, 'Enabled')" % S)
    e.only(r + ".calls", "call", "*", [pay], floor=1)
    e.must(r + ".paid", pay, count=1)
    e.req(r + ".paid_ok", "good(%s)" % pay)
    old, new = "good(%s)" % C, "absent(%s)" % C
    ws = [("put(%s, P2 + %s.q)" % (C, C), old), ("put(%s, P2)" % C, new),
          ("put(SaleInfo[P1], upd(%s, funds_raised=P2 + %s.funds_raised))" % (S, S), old),
          ("put(SaleInfo[P1], upd(%s, funds_raised=P2 + %s.funds_raised, participant_count=1 + %s.participant_count))" % (S, S, S), new)]
    e.only(r + ".writes", WRITES, "*", ws, floor=4)
    for w, c in ws:
        e.must(r + ".recorded", w, when=c, count=1)
    writer_table(ctx, "C02.writers", CR, {"SaleParticipation": {"participate", "claim_voucher", "distribute_crowdsale_rewards"}, "NextSaleId": {"initialize"},
                                          "SaleInfo": {"Hooks::on_initialize", "claim_voucher", "distribute_crowdsale_rewards", "enable", "initialize", "participate", "try_force_distribution"}})


@prop("C03")
def closing(ctx):
    e = ctx.entry(CR, "on_initialize", trait="Hooks", opaque=((CR, "close_sales_at"),))
    e.must("C03.every_block", "call('*close_sales_at', P0)", count=1)
    e = ctx.entry(CR, "close_sales_at")
    r = "C03"
    SALES = "SaleEndBlocks[P0]"
    ID = "elem(%s.q)" % SALES
    S = "SaleInfo[%s].q" % ID
    I = ISS % ("%s.reward_collection_id" % S)
    pay = "call('MultiCurrency::transfer', %s.payment_asset_id, %s.vault, %s.admin, %s.funds_raised, var('Expendable'))" % (S, S, S, S)
    target = "%s.soft_cap_price * %s.q.f1.q" % (S, I)
    rest = "sub(%d * %s.q.f1.q, op('/', wide(%d * %s.funds_raised), %s.soft_cap_price))" % (UNIT, I, UNIT, S, S)
    back = "call('MultiCurrency::transfer', %s.voucher_asset_id, %s.vault, %s.admin, %s, var('Expendable'))" % (S, S, S, rest)
    under = "%s.funds_raised < %s" % (S, target)
    upd_ = lambda st: "put(SaleInfo[%s], upd(%s, status=%s))" % (ID, S, st)
    ended, dist, failed = upd_("var('Ended', P0)"), upd_("var('Distributing', P0, 0)"), upd_("var('DistributionFailed', P0)")
    q = "put(SaleDistribution, mut('push', SaleDistribution, %s))" % ID
    en = "isv(%s.status, 'Enabled') and good(%s)" % (S, pay)
    e.only(r + ".calls", "call", "*", [(pay, "isv(%s.status, 'Enabled')" % S), (back, en + " and " + under)], floor=2)
    e.only(r + ".writes", WRITES, "*", ["rm(%s)" % SALES, (ended, en + " and %s.funds_raised == 0" % S), (dist, en + " and %s.funds_raised != 0" % S), (failed, en + " and %s.funds_raised != 0" % S), (q, en + " and %s.funds_raised != 0" % S)], floor=5)
    e.must(r + ".due", "rm(%s)" % SALES, when="good(%s)" % SALES, count=1)
    e.must(r + ".paid_out", pay, when="isv(%s.status, 'Enabled')" % S, count=1)
    done = "does(%s) or does(%s) or does(%s)" % (ended, dist, failed)
    full = "absent(call('try_append', ...)) or absent(op('try_push', ...))"
    e.must(r + ".refunded", back, when="%s and (%s)" % (under, done), count=1)
    tr = having(e, en + " and good(%s) and good(%s.q.f1) and (%s or %s.funds_raised >= %s)" % (I, I, under, S, target))
    e.must(r + ".ended", ended, when="%s.funds_raised == 0 and (%s.funds_raised >= %s or good(%s))" % (S, S, target, back), traces=tr, count=1)
    e.must(r + ".distributing", dist, when="%s.funds_raised != 0 and (%s.funds_raised >= %s or good(%s))" % (S, S, target, back), unless=full, traces=tr, count=1)
    e.must(r + ".queued", q, when="does(%s)" % dist, count=1)
    e.must(r + ".queue_full", failed, when=full, count=1)
    # a sale whose queueing failed can be queued again by anyone
    e = ctx.entry(CR, "try_force_distribution")
    r = "C03.retry"
    S = "SaleInfo[P1].q"
    q = "put(SaleDistribution, mut('push', SaleDistribution, P1))"
    w, z = "put(SaleInfo[P1], upd(%s, status=var('Distributing', %s, 0)))" % (S, NOW), "put(SaleInfo[P1], upd(%s, status=var('Ended', %s)))" % (S, NOW)
    e.req(r + ".signed", "origin('signer')")
    e.req(r + ".failed", "isv(%s.status, 'DistributionFailed')" % S)
    e.only(r + ".writes", WRITES, "*", [q, (w, "%s.funds_raised != 0" % S), (z, "%s.funds_raised == 0" % S)], floor=2)
    e.must(r + ".queued", q, count=1)
    e.must(r + ".distributing", w, when="%s.funds_raised != 0" % S, count=1)
    e.noeffect(r + ".no_calls", kinds=("call",), traces="all")
    writer_table(ctx, "C03.writers", CR, {"SaleEndBlocks": {"Hooks::on_initialize", "enable"}, "SaleDistribution": {"Hooks::on_initialize", "claim_voucher", "distribute_crowdsale_rewards", "try_force_distribution"}})


@prop("C04")
def distribution(ctx):
    # the amount of vouchers of a contribution
    e = ctx.entry(CR, "calculate_voucher_rewards")
    over, under = "P0 * P3 < P1", "P1 <= P0 * P3"
    e.returns("C04.share", "good(op('/', P2 * P3 * %d, P1))" % UNIT, when=over)
    e.returns("C04.price", "good(op('/', P2 * %d, P0))" % UNIT, when=under)
    e.req("C04.cases", "%s or %s" % (over, under))
    e = ctx.entry(CR, "transfer_user_vouchers", opaque=((CR, "calculate_voucher_rewards"),))
    c = "call('*calculate_voucher_rewards', P1.soft_cap_price, P1.funds_raised, P2, P3)"
    bal = "call('MultiCurrency::reducible_balance', P1.voucher_asset_id, P1.vault, var('Expendable'), var('Polite'))"
    pay = "call('MultiCurrency::transfer', P1.voucher_asset_id, P1.vault, P0, min(%s, %s.q), var('Expendable'))" % (bal, c)
    e.must("C04.pay", pay, count=1)
    e.only("C04.pay.only", "call", "*", [c, pay], floor=2)
    e.req("C04.pay.ok", "good(%s) and good(%s)" % (pay, c))
    e.returns("C04.pay.amount", "good(%s.q)" % c)
    # claiming
    rest = lambda S: "call('MultiCurrency::reducible_balance', %s.voucher_asset_id, %s.vault, var('Expendable'), var('Polite'))" % (S, S)
    give = lambda S: "call('MultiCurrency::transfer', %s.voucher_asset_id, %s.vault, %s.admin, %s, var('Expendable'))" % (S, S, S, rest(S))
    e = ctx.entry(CR, "claim_voucher", opaque=((CR, "transfer_user_vouchers"),))
    r = "C04.claim"
    S, C = "SaleInfo[P1].q", "SaleParticipation[P1, SIGNER]"
    I = ISS % ("%s.reward_collection_id" % S)
    pay = "call('*transfer_user_vouchers', SIGNER, %s, %s.q, %s.q.f1.q)" % (S, C, I)
    last, more = "absent(op('next', _))", "good(op('next', _))"
    e.req(r + ".distributing", "isv(%s.status, 'Distributing')" % S)
    e.req(r + ".contributed", "good(%s)" % C)
    e.must(r + ".once", "rm(%s)" % C, count=1)
    e.must(r + ".paid", pay, count=1)
    e.req(r + ".paid_ok", "good(%s)" % pay)
    e.order(r + ".removed_first", "rm(%s)" % C, pay)
    e.only(r + ".calls", "call", "*", [pay, (give(S), last)], floor=2)
    end, on = "put(SaleInfo[P1], upd(%s, status=var('Ended', %s)))" % (S, NOW), "put(SaleInfo[P1], upd(%s, status=var('Distributing', %s, %s.q + vp(%s.status, 'Distributing', 1))))" % (S, NOW, pay, S)
    unq = "put(SaleDistribution, alt(mut('retain', SaleDistribution, op('not', op('eq', P1, elem(SaleDistribution)))), mut('retain', SaleDistribution, op('not', op('eq', elem(SaleDistribution), P1)))))"
    e.only(r + ".writes", WRITES, "*", ["rm(%s)" % C, (end, last), (on, more), (unq, last)], floor=4)
    e.must(r + ".ended", end, when=last, count=1)
    e.must(r + ".unqueued", unq, when=last, count=1)
    e.must(r + ".continues", on, when=more, count=1)
    e.must(r + ".rest_to_admin", give(S), when=last, unless="%s == 0" % rest(S), count=1)
    # distribution by the off-chain worker
    e = ctx.entry(CR, "distribute_crowdsale_rewards", opaque=((CR, "transfer_user_vouchers"),))
    r = "C04.distribute"
    ID = "alt(op('get', SaleDistribution, 0).q, op('idx', SaleDistribution, 0))"
    S = "SaleInfo[%s].q" % ID
    I = ISS % ("%s.reward_collection_id" % S)
    NX = "op('next', op('entries', 'SaleParticipation', op('list', %s), _, _)).q" % ID
    e.req(r + ".unsigned", "origin('none_origin')")
    e.req(r + ".distributing", "isv(%s.status, 'Distributing')" % S)
    pay = "call('*transfer_user_vouchers', same('p', _).f0, %s, same('p', _).f1, %s.q.f1.q)" % (S, I)
    e.only(r + ".calls", "call", "*", [pay, give(S)], floor=2)
    drop = "rm(SaleParticipation[%s, _])" % ID
    end = "put(SaleInfo[%s], upd(%s, status=var('Ended', %s)))" % (ID, S, NOW)
    on = "put(SaleInfo[%s], upd(%s, status=var('Distributing', %s, alt(_, _ + _))))" % (ID, S, NOW)
    unq = "put(SaleDistribution, alt(after(SaleDistribution, 1), mut('remove', SaleDistribution, 0)))"
    nxt = "put(NextUnsignedAt, %s + cfg.UnsignedInterval)" % NOW
    e.only(r + ".writes", WRITES, "*", [drop, end, on, (unq, "does(%s)" % end), nxt], floor=5)
    e.must(r + ".unqueued", unq, when="does(%s)" % end, count=1)
    e.must(r + ".rest_to_admin", give(S), when="does(%s)" % end, unless="%s == 0" % rest(S), count=1)
    e.must(r + ".paid", pay, when="does(%s)" % drop, unless="absent(op('next', _)) or cfg.MaxPaymentsPerBlock == 0")
    e.req(r + ".ended_when_empty", "not does(%s) or absent(op('next', _))" % end)
    e.req(r + ".goes_on", "does(%s) or does(%s)" % (end, on))
    e.must(r + ".waits", nxt, count=1)
    # only that call, and only while there is something to distribute, enters the pool unsigned
    e = ctx.entry(CR, "validate_unsigned", trait="ValidateUnsigned")
    e.req("C04.pool.call", "isv(P1, 'distribute_crowdsale_rewards')")
    e.req("C04.pool.pending", "nonempty(SaleDistribution)")


@prop("C05")
def redemption(ctx):
    e = ctx.entry(CR, "redeem_voucher")
    r = "C05"
    S = "SaleInfo[P1].q"
    burn = "call('MultiCurrency::burn_from', %s.voucher_asset_id, SIGNER, wide(P2 * %d), var('Exact'), var('Polite'))" % (S, UNIT)
    mint = "call('NFTExt::do_mint', %s.vault, %s.reward_collection_id, P2, good(SIGNER))" % (S, S)
    e.req(r + ".signed", "origin('signer')")
    e.req(r + ".quantity", "P2 > 0 or P2 != 0")
    e.req(r + ".closed", "isv(%s.status, 'Distributing') or isv(%s.status, 'Ended')" % (S, S))
    e.only(r + ".calls", "call", "*", [burn, mint], floor=2)
    for x, n in ((burn, "burned"), (mint, "minted")):
        e.must("%s.%s" % (r, n), x, count=1)
        e.req("%s.%s_ok" % (r, n), "good(%s)" % x)
    e.order(r + ".burned_first", burn, mint)
    e.noeffect(r + ".pure", kinds=WRITES, traces="all")
    # calls through the vault
    e = ctx.entry(CR, "proxy_vault_call")
    r = "C05.vault"
    e.req(r + ".admin", "%s.admin == SIGNER" % S)
    chk = "call('ProxyCallValidator::check_extrinsic', P2, _)"
    e.req(r + ".checked", "good(%s)" % chk)
    d = "call('dispatch', P2, var('Signed', %s.vault))" % S
    e.must(r + ".dispatched", d, count=1)
    e.only(r + ".once", "mcall", "dispatch", [d], floor=1)
    e.order(r + ".checked_first", chk, d)
    e.req(r + ".ok", "good(mc('dispatch', P2, var('Signed', %s.vault)))" % S)
    e.noeffect(r + ".pure", kinds=WRITES, traces="all")
