"""The runtime's primitive types: account ids, signatures, royalties, bridge keys and proofs."""
from .base import *

CR = "seed-primitives"
NONE_OR = "alt(none, %d)"


def conv(ctx, rule, ty, name, src):
    """the conversion to `ty` whose source type ends in `src`"""
    fs = [f for f in ctx.m.crates[CR].methods.get(ty, {}).get(name, ()) if str(f.params[0][1]).find("'n': '%s'" % src) >= 0 or src == "bytes" and f.params[0][1].get("k") == "Array"]
    if len(fs) != 1:
        ctx.violation(rule, "%s::%s" % (CR, ty), "the conversion of %s from %s is not found" % (ty, src))
        raise Anchor(ty)
    return ctx.analyse(fs[0])


def parsed(k):
    return "call('*PublicKey::parse_slice', %s, good(var('Compressed')))" % k


def tail(h, n=32):
    return "op('slice', call('*keccak_256', %s), op('range', 12, alt(none, %d)))" % (h, n)


def raw(key):
    """the 64 coordinate bytes of an uncompressed key"""
    s = "op('slice', mc('serialize', %s), op('range', 1, alt(none, 65)))" % key
    return "alt(%s, mut('copy_from_slice', op('rep', 0, 64), %s))" % (s, s)


def bytes20(x):
    return "alt(%s, struct('*', f0=%s))" % (x, x)


@prop("K01")
def signatures(ctx):
    r = "K01"
    # the recovered key is the signer
    e = ctx.entry(CR, "verify_signature", ty=None)
    rec = "call('*secp256k1_ecdsa_recover', P0, P1)"
    who = "struct('AccountId20', f0=%s)" % tail(rec + ".q")
    e.only(r + ".recover", ("call",), "*secp256k1*", [rec], floor=1)
    same = "P2 == %s" % who
    e.returns(r + ".recovered", "alt(op('eq', P2, %s), op('eq', %s, P2), op('eq', P2.f0, %s), true, false)" % (who, who, tail(rec + ".q")), when="good(%s)" % rec)
    yes, no = e.giving("true"), e.giving("false")
    if yes:
        e.req(r + ".true", "%s or P2.f0 == %s" % (same, tail(rec + ".q")), traces=yes)
    e.returns(r + ".unrecoverable", "false", when="bad(%s)" % rec)
    e.req(r + ".false", "bad(%s) or P2 != %s or P2.f0 != %s" % (rec, who, tail(rec + ".q")), traces=no)
    # which digests a signature may be over
    e = ctx.entry(CR, "verify", ty="EthereumSignature", opaque=((CR, "verify_signature"), (CR, "ethereum_signed_message")))
    msg = "mc('get', P0)"

    def v(m):
        return "read('verify_signature', alt(SELF.f0, SELF.f0.f0), %s, P1)" % m

    def w(m):
        return "call" + v(m)[4:]
    digests = ["call('*keccak_256', %s)" % msg, "call('*keccak_256', call('ethereum_signed_message', %s))" % msg,
               "call('*keccak_256', call('ethereum_signed_message', call('*blake2_256', %s)))" % msg]
    e.only(r + ".digests", ("read", "call"), "verify_signature", [v(d) for d in digests], floor=3)
    e.returns(r + ".accepts", "alt(true, false, %s)" % ", ".join(w(d) for d in digests))
    yes = e.giving("true")
    if yes:
        e.req(r + ".accepted", " or ".join("truth(%s)" % w(d) for d in digests), traces=yes)
    for i, d in enumerate(digests):
        e.returns("%s.tried%d" % (r, i), "alt(true, %s)" % w(d), unless="false(%s) or %s" % (w(d), " or ".join("truth(%s)" % w(x) for x in digests if x is not d)))
    no = e.giving("false")
    if no:
        e.req(r + ".refused", " and ".join("false(%s)" % w(d) for d in digests), traces=no)
    # the Ethereum prefix, the length in decimal, the message
    e = ctx.entry(CR, "ethereum_signed_message", ty=None)
    n = "alt(len(P0), mc('to_string', len(P0)))"

    def ext(b, x):
        return "alt(%s)" % ", ".join("mut('%s', %s, %s)" % (m, b, x) for m in ("extend", "extend_from_slice", "append"))
    head = "b'\\x19Ethereum Signed Message:\\n'"
    e.returns(r + ".prefix", "alt(%s, mc('concat', op('vec', %s, %s, P0)))" % (ext(ext(head, n), "P0"), head, n))
    # account ids
    for f, w in (("bytes", "P0"), ("H160", "alt(P0, P0.f0)")):
        conv(ctx, r, "AccountId20", "from", f).returns("%s.id_from_%s" % (r, f), "struct('AccountId20', f0=%s)" % w)
    e = conv(ctx, r, "AccountId20", "try_from", "ecdsa")
    k = parsed("alt(P0, P0.f0)")
    e.returns(r + ".id_from_ecdsa", "good(struct('AccountId20', f0=%s))" % tail(raw(k + ".q")))
    e.req(r + ".id_from_ecdsa", "good(%s)" % k)
    e = conv(ctx, r, "AccountId20", "try_from", "ed25519")
    e.returns(r + ".id_from_ed25519", "good(struct('AccountId20', f0=%s))" % tail("alt(P0, P0.f0)"))
    conv(ctx, r, "H160", "from", "AccountId20").returns(r + ".to_h160", "alt(P0.f0, struct('H160', f0=P0.f0))")
    conv(ctx, r, "EthereumSigner", "from", "bytes").returns(r + ".signer_from_bytes", "struct('EthereumSigner', f0=P0)")
    conv(ctx, r, "EthereumSigner", "from", "ecdsa").returns(r + ".signer_from_ecdsa", "struct('EthereumSigner', f0=%s)" % tail(raw(k + ".q")))
    conv(ctx, r, "EthereumSigner", "from", "libsecp256k1").returns(r + ".signer_from_key", "struct('EthereumSigner', f0=%s)" % tail(raw("P0")))
    conv(ctx, r, "EthereumSignature", "from", "ecdsa").returns(r + ".from_signature", "struct('EthereumSignature', f0=P0)")
    ctx.entry(CR, "into_account", ty="EthereumSigner").returns(r + ".account", "struct('AccountId20', f0=SELF.f0)")


@prop("K02")
def royalties(ctx):
    r = "K02"
    ent = "SELF.entitlements"
    total = "op('agg', 'sum', op('coll', %s, mc('deconstruct', op('elem', %s).f1)))" % (ent, ent)
    some, few, whole = "nonempty(%s)" % ent, "len(%s) <= 8" % ent, "%s <= op('const', 'Permill::ACCURACY')" % total
    e = ctx.entry(CR, "validate", ty="RoyaltiesSchedule")
    yes, no = e.giving("true"), e.giving("false")
    e.req(r + ".some", some, traces=yes)
    e.req(r + ".few", few, traces=yes)
    e.req(r + ".whole", whole, traces=yes)
    e.req(r + ".only", "empty(%s) or len(%s) > 8 or %s > op('const', 'Permill::ACCURACY')" % (ent, ent, total), traces=no)
    e.returns(r + ".decided", "alt(true, false, op('lt', ...), op('not', op('lt', ...)))")
    e = ctx.entry(CR, "calculate_total_entitlement", ty="RoyaltiesSchedule", opaque=((CR, "validate"),))
    ok = "mc('validate', SELF)"
    e.returns(r + ".total", "alt(call('Permill::from_parts', %s), %s)" % (total, total), when="truth(%s)" % ok)
    e.returns(r + ".invalid", "0", when="false(%s)" % ok)
    e = ctx.entry(CR, "construct_token_uri", ty="MetadataScheme")
    s = "call('*str::from_utf8', SELF.f0)"
    e.returns(r + ".uri", "mut('write', _, '{}{}', %s.q, P0)" % s, when="good(%s)" % s)
    e.returns(r + ".uri_of_serial", "mut('write', _, '{}{}', '', P0)", when="bad(%s)" % s)
    e = ctx.entry(CR, "try_from", ty="MetadataScheme")
    e.returns(r + ".metadata", "good(struct('MetadataScheme', f0=P0))")
    ctx.check(r + ".metadata_fits", e.where, len(e.err) > 0, "metadata that is too long is not refused")


@prop("K03")
def bridge_types(ctx):
    r = "K03"
    e = conv(ctx, r, "u8", "from", "EthyChainId")
    e.returns(r + ".ethereum", "1", when="isv(P0, 'Ethereum')")
    e.returns(r + ".xrpl", "2", unless="isv(P0, 'Ethereum')")
    e = ctx.entry(CR, "authority_index", ty="ValidatorSet")
    vs = "SELF.validators"
    yes = [t for t in e.ok if t.val.op != "none"]
    e.returns(r + ".index", "alt(none, good(op('pos', %s, ...)))" % vs)
    e.req(r + ".index_of", "P0 == op('wit', %s, ...) or P0 == op('elem', %s)" % (vs, vs), traces=yes)
    e = ctx.entry(CR, "new", ty="ValidatorSet")
    e.returns(r + ".set", "struct('ValidatorSet', validators=P0, id=P1, proof_threshold=P2)")
    sigs = "SELF.signatures"
    none = "call('*Signature::from', op('default', ...))"
    e = ctx.entry(CR, "signature_count", ty="EventProof")
    counted = [t.val.args[0] for t in e.ok if t.val.op == "len"]
    pair = P("op('eq', %s, op('elem', %s).f1)" % (none, sigs)), P("op('eq', op('elem', %s).f1, %s)" % (sigs, none))

    def only_signed(c):
        k = keeps(c)
        return k is not None and any(True for _ in match(P(sigs), k[0], {})) and k[1] and all(
            len(d) == 1 and all(v is False and any(True for p in pair for _ in match(p, q, {})) for q, v in d.items()) for d in k[1])
    good = [only_signed(c) for c in counted]
    ctx.check(r + ".count", e.where, len(counted) == len(e.ok) and counted and all(good), "the count of signatures is not the number of those that are not empty")
    e = ctx.entry(CR, "expanded_signatures", ty="EventProof")
    at, sig = "op('elem', %s).f0" % sigs, "op('elem', %s).f1" % sigs
    base = "op('rep', %s, P0)" % none
    base = "alt(%s, op('phi', %s, ...))" % (base, base)
    placed = "op('updelem', %s, alt(%s, op('idx', _, %s)), %s)" % (base, at, at, sig)
    e.returns(r + ".expanded", "alt(%s, %s)" % (base, placed))
    e.returns(r + ".placed", placed, when="%s < P0" % at)
    e.returns(r + ".in_range", base, unless="%s < P0" % at)
    e = ctx.entry(CR, "convert", ty="EthyEcdsaToEthereum")
    k = parsed("P0")
    e.returns(r + ".eth_address", tail(raw(k + ".q")), when="good(%s)" % k)
    e.returns(r + ".eth_none", "alt(op('default', ...), op('rep', 0, 20))", when="bad(%s)" % k)
    e = ctx.entry(CR, "convert", ty="EthyEcdsaToPublicKey")
    e.returns(r + ".public", "mc('serialize_compressed', %s.q)" % k, when="good(%s)" % k)
    e.returns(r + ".public_none", "alt(op('default', ...), op('rep', 0, 33))", when="bad(%s)" % k)
    e = ctx.entry(CR, "convert", ty="EthyEcdsaToXRPLAccountId")
    e.returns(r + ".xrpl_account", "call('Ripemd160::digest', call('Sha256::digest', mc('serialize_compressed', %s.q)))" % k, when="good(%s)" % k)
    e.returns(r + ".xrpl_none", "alt(op('default', ...), op('rep', 0, 20))", when="bad(%s)" % k)
