"""Transactions signed with XRPL wallets."""
from .base import *

CR = "pallet-xrpl"
OP = ((CR, "get_account"), (CR, "validate_params"))
MSG, SIG, CALL = ("vp(%%s, 'transact', '%s')" % f for f in ("encoded_msg", "signature", "call"))


def self_contained(ctx, r, e, me, origin, method, wi, none_ok):
    """signed extensions run for a self contained call; shared by the pool check and block inclusion"""
    msg, sig, call = MSG % me, SIG % me, CALL % me
    vp_ = "call('validate_params', %s, %s, %s)" % (msg, sig, call)
    fp = "call('FuturepassLookup::check_extrinsic', %s, _)" % call
    eoa = "call('FuturepassLookup::unlookup', %s)" % origin
    ext = "tup(call('CheckNonZeroSender::new'), call('CheckSpecVersion::new'), call('CheckTxVersion::new'), call('CheckEra::from', call('Era::immortal')), call('CheckWeight::new'), call('ChargeTransactionPayment::from', %s.q.f1))" % vp_
    nonce = "tup(call('CheckNonce::from', %s.q.f0),)" % vp_
    run = "call('SignedExtension::%s', %%s, %%s, %s, %s)" % (method, call, wi)
    first = run % (ext, origin)
    sec = run % (nonce, "same('eoa', alt(%s, %s))" % (eoa, origin))
    by_eoa, by_origin = run % (nonce, eoa), run % (nonce, origin)
    done = [t for t in e.ok if any(True for _ in holds(F("good(%s) and good(%s)" % (first, sec)), t.facts, {}, t))]
    e.only(r + ".only", "call", "SignedExtension::%s" % method, [first, (by_eoa, "truth(%s)" % fp), (by_origin, "false(%s)" % fp)], floor=3)
    e.must(r + ".eoa_nonce", by_eoa, when="truth(%s)" % fp, traces=done)
    e.must(r + ".own_nonce", by_origin, when="false(%s)" % fp, traces=done)
    e.each(r + ".params", first, "good(%s)" % vp_)
    e.each(r + ".eoa_known", by_eoa, "%s != 0" % eoa)
    return vp_, ext, first, sec, done


@prop("R01")
def lifecycle(ctx):
    e = ctx.entry(CR, "check_self_contained", ty="Call", opaque=OP)
    r = "R01.check"
    PARSED = "call('serde_json::from_value', mc('to_json', call('Deserializer::new', %s, _), ...).q)" % (MSG % "SELF")
    ACC = "mc('get_account', %s.q)" % PARSED
    fp = "call('FuturepassLookup::check_extrinsic', %s, _)" % (CALL % "SELF")
    lk = "call('FuturepassLookup::lookup', %s.q)" % ACC
    e.returns(r + ".origin", "good(good(%s.q))" % ACC, when="good(%s) and false(%s)" % (ACC, fp))
    e.returns(r + ".futurepass", "good(good(%s.q))" % lk, when="good(%s) and truth(%s) and good(%s)" % (ACC, fp, lk))
    for w in ("absent(%s)" % ACC, "truth(%s) and absent(%s)" % (fp, lk), "absent(%s)" % PARSED):
        e.returns(r + ".rejected", "good(op('bad', _))", when=w)
    e.returns(r + ".other", "none", when="notv(SELF, 'transact')")
    # pool
    e = ctx.entry(CR, "validate_self_contained", ty="Call", opaque=OP)
    r = "R01.validate"
    vp_, ext, first, sec, done = self_contained(ctx, r, e, "SELF", "P0", "validate", "P1, P2", False)
    OK = "good(%s) and good(%s)" % (first, sec)
    e.returns(r + ".needs_all", "alt(none, good(op('bad', _)))", unless=OK)
    EOA = "same('eoa', alt(call('FuturepassLookup::unlookup', P0), P0))"
    prov = "mc('and_provides', _, (%s, %s.q.f0))" % (EOA, vp_)
    req_ = "mc('and_requires', _, (%s, %s.q.f0 - 1))" % (EOA, vp_)
    NON = "%s.q.f0 > call('*Account::get', %s).nonce" % (vp_, EOA)
    pri = "call('ChargeTransactionPayment::get_priority', P1, P2, %s.q.f1, 0)" % vp_
    res = "good(mc('build', has(%s)))"
    e.returns(r + ".provides", res % prov, when=OK)
    e.returns(r + ".priority", res % ("mc('priority', _, %s)" % pri), when=OK)
    e.returns(r + ".after_previous", res % req_, when=OK + " and " + NON, unless="%s.q.f0 == 0" % vp_)
    # inclusion
    e = ctx.entry(CR, "apply_self_contained", ty="Call", opaque=OP)
    r = "R01.apply"
    me = "mc('is_sub_type', P0).q"
    vp_, ext, first, sec, done = self_contained(ctx, r, e, me, "P1", "pre_dispatch", "P2, P3", True)
    run = "call('dispatch', P0, none)"
    e.must(r + ".dispatched", run, traces=done, count=1)
    e.each(r + ".checked", run, "good(%s) and good(%s)" % (first, sec))
    e.order(r + ".fee_first", first, run)
    post = "call('*post_dispatch', good(%s.q), P2, _, P3, _)" % first
    e.must(r + ".refund", post, traces=done, count=1)
    e.order(r + ".refund_last", run, post)
    e.only(r + ".only_outer", "mcall", "dispatch", [run], floor=1)
    e.returns(r + ".result", "good(mc('dispatch', P0, none))", when="good(%s)" % post)
    e.returns(r + ".nothing", "none", unless="good(%s) and good(%s)" % (first, sec))


TX = "call('serde_json::from_value', mc('to_json', call('Deserializer::new', P%d, _), _, P%d).q)"


@prop("R02")
def signed_content(ctx):
    e = ctx.entry(CR, "validate_params", ty=None, opaque=((CR, "get_public_key"), (CR, "verify_transaction"), (CR, "get_extrinsic_data")))
    r = "R02.params"
    tx = TX % (0, 0)
    d = "mc('get_extrinsic_data', %s.q)" % tx
    v = "mc('verify_transaction', %s.q, P1)" % tx
    e.req(r + ".signed", "good(%s) and truth(%s.q)" % (v, v))
    e.req(r + ".genesis", "call('frame_system::block_hash', 0) == %s.q.genesis_hash" % d)
    e.req(r + ".call", "call('hashing::blake2_256', mc('encode', P2)) == %s.q.hashed_call" % d)
    e.req(r + ".block", "%s.q.max_block_number >= call('frame_system::block_number')" % d)
    e.req(r + ".not_nested", "absent(mc('is_sub_type', P2)) or notv(mc('is_sub_type', P2).q, 'transact')")
    e.returns(r + ".result", "good((%s.q.nonce, %s.q.tip))" % (d, d))
    # the data the wallet signed
    e = ctx.entry(CR, "get_extrinsic_data", ty="XRPLTransaction")
    r = "R02.memo"
    M = "elem(SELF.memos).memo"
    e.req(r + ".kind", "truth(mc('eq_ignore_ascii_case', call('String::from_utf8', call('hex::decode', %s.memo_type).q).q, 'extrinsic'))" % M)
    it = "mc('split', call('String::from_utf8', call('hex::decode', %s.memo_data).q).q, ':')" % M
    for f, w in (("genesis_hash", "call('hex::decode', %s.q).q"), ("nonce", "mc('parse', %s.q).q"), ("max_block_number", "mc('parse', %s.q).q"), ("tip", "mc('parse', %s.q).q"), ("hashed_call", "call('hex::decode', %s.q).q")):
        e.returns(r + "." + f, "good(struct('ExtrinsicMemoData', %s=%s))" % (f, w % ("mc('next', %s)" % it)))
        it = "mut('next', %s)" % it
    # public key and address
    e = ctx.entry(CR, "get_public_key", ty="XRPLTransaction")
    r = "R02.key"
    K = "call('hex::decode', SELF.signing_pub_key).q"
    PRE = "mc('to_uppercase', mc('get', SELF.signing_pub_key, op('range', 0, 2)).q)"
    e.returns(r + ".ed25519", "good(var('ED25519', call('Public::from_raw', op('slice', %s, op('range', 1, none)))))" % K, when="%s == 'ED'" % PRE)
    e.returns(r + ".ecdsa", "good(var('ECDSA', call('Public::from_raw', %s)))" % K, when="%s != 'ED'" % PRE)
    e.req(r + ".known", "%s == 'ED' or %s == '02' or %s == '03'" % (PRE, PRE, PRE))
    e = ctx.entry(CR, "get_account", ty="XRPLTransaction", opaque=((CR, "get_public_key"),))
    e.returns("R02.account", "good(has(mc('get_public_key', SELF).q))")
    # the signature
    e = ctx.entry(CR, "verify_transaction", ty="XRPLTransaction", opaque=((CR, "get_public_key"), (CR, "encode_for_signing"), ("seed-primitives", "verify")))
    r = "R02.signature"
    KEY = "mc('get_public_key', SELF).q"
    MSGB = "call('encode_for_signing', struct('TransactionCommon', account=call('*AccountId::from_address', SELF.account).q, memos=has(SELF.memos))).q"
    ed = "mc('verify', call('*Signature::from_raw', P0), %s, vp(%s, 'ED25519', 0))" % (MSGB, KEY)
    ec = "call('libsecp256k1::verify', call('Message::parse', both(has(call('Sha512::digest', %s)), has(op('range', 0, 32)))), call('*Signature::parse_der', P0).q, call('*PublicKey::parse_compressed', vp(%s, 'ECDSA', 0).f0).q)" % (MSGB, KEY)
    e.returns(r + ".ed25519", "good(%s)" % ed, when="isv(%s, 'ED25519')" % KEY)
    e.returns(r + ".ecdsa", "good(%s)" % ec, when="isv(%s, 'ECDSA')" % KEY)
    e.req(r + ".either", "isv(%s, 'ED25519') or isv(%s, 'ECDSA')" % (KEY, KEY))
    e = ctx.entry(CR, "encode_for_signing", ty=None)
    e.returns("R02.prefix", "good(mut('extend', alt(mut('extend', _, vec(83, 84, 88, 0)), vec(83, 84, 88, 0)), _))")
    e.returns("R02.payload", "good(mut('extend', _, has(mut('serialize', call('Serializer::new'), P0))))")
    e = ctx.entry(CR, "try_into", ty="XRPLTransaction", trait="TryInto")
    for f, p in (("account", "call('*AccountId::from_address', SELF.account).q"), ("account_txn_id", "good(call('*Hash256::from_hex', SELF.account_txn_id).q)"),
                 ("signing_pub_key", "good(call('*Blob::from_hex', SELF.signing_pub_key).q)"), ("memos", "has(SELF.memos)")):
        e.returns("R02.covered." + f, "good(struct('TransactionCommon', %s=%s))" % (f, p))
    M = "op('elem', SELF.memos).memo"
    e.returns("R02.covered.memo_data", "good(struct('TransactionCommon', memos=has(struct('Memo', memo_data=call('*Blob::from_hex', elem(SELF.memos).memo.memo_data).q, memo_type=call('*Blob::from_hex', elem(SELF.memos).memo.memo_type).q))))")


@prop("R03")
def transact(ctx):
    e = ctx.entry(CR, "transact", opaque=((CR, "get_public_key"), (CR, "get_account")))
    r = "R03"
    e.req(r + ".only_self_contained", "origin('none_origin')")
    e.req(r + ".allowed", "truth(call('CallValidator::check_extrinsic', P3, _))")
    acc = "mc('get_account', %s.q).q" % (TX % (1, 1))
    run = "call('dispatch', P3, var('Signed', %s))" % acc
    e.must(r + ".dispatched", run, count=1)
    e.only(r + ".only", "mcall", "dispatch", [run], floor=1)
    e.req(r + ".ok", "good(mc('dispatch', P3, _))")
    e.noeffect(r + ".no_state", kinds=WRITES, traces="all")
    e.must(r + ".event", "event('XRPLExtrinsicExecuted', caller=%s, call=P3)" % acc, count=1)
