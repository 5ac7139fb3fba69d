"""No reachable panic in what every block must execute: unwraps, assertions, indices, divisions and narrowing conversions."""
import re
from .base import *
from ..bounds import Bounds, safe, array_len

# traits whose functions run inside block execution or transaction validation
TRAITS = {"Hooks", "EthereumEventSubscriber", "EthCallOracleSubscriber", "OnChargeTransaction", "OneSessionHandler", "ValidateUnsigned",
          "SignedExtension", "RunnerT", "FeeCalculator", "MaintenanceCheck", "MaintenanceCheckEVM", "NFTExt", "SFTExt", "Currency", "Mutate",
          "TransferExt", "Hold", "Inspect", "CreateExt", "OnTransferSubscriber", "EraPayout", "AccountProxy", "OnUnbalanced",
          "Xls20MintRequest", "NFIRequest", "EthyToXrplBridgeAdapter", "XrplBridgeToEthyAdapter", "EthereumBridge",
          "Visitor", "AssetsExtApiServer", "DexApiServer", "NftApiServer", "SftApiServer"}
# entry points outside block execution
NOTBLOCK = {"on_genesis_session"}

# (crate, what, form of the value or divisor, why it cannot fail)
EXEMPT = [
    ("pallet-crowdsale", "unwrap", r"AccountId::decode\(.*into_account_truncating|AccountId::decode\(.*(blake2_256|keccak_256|sha2_256|twox_256)", "a 32-byte hash always decodes to a 20-byte account"),
    ("pallet-crowdsale", "div", r"SaleInfo\[.*\.soft_cap_price$", "a sale is only created with a price above zero, which never changes (C01, C02)"),
    ("pallet-erc20-peg", "unwrap", r"AccountId::decode\(vp\(.*,Address,0\)", "20 bytes always decode to a 20-byte account"),
    ("pallet-xrpl-bridge", "unwrap", r"bad\(error\(append\)\)", "a ledger holds fewer payments to the door than the limit of 1 000 000 (checked in the runtime)"),
    ("*", "unwrap", r"bad\(error\(write\)\)", "writing to a growable buffer cannot fail"),
    ("pallet-ethy", "index", r"XrplBridgeAdapter::submit_signer_list_set_request\(", "one proof id per door account; there are two"),
    ("pallet-ethy", "index", r"mut\(drain,", "at least MaxProcessedMessageIds ids remain, and more than one existed"),
    ("pallet-erc20-peg", "narrow", r"vp\(DelayedPayments\[.*,Deposit,0\)\.amount$", "delayed deposits were bounded when they were accepted (P rules)"),
    ("pallet-migration", "div", r"BlockDelay\[\]\?$", "BlockDelay is only ever stored when greater than one (O03, and below)"),
    ("seed-pallet-common", "div", r"\*\*\(10,", "ten to a power is never zero"),
    ("seed-pallet-common", "narrow", r"\(.* \* 1000000000000\)$", "the supply of XRP in wei is below 2^128"),
    ("*", "index", r"pallet_dex::get_amounts_in\(", "the exchange returns one amount per path element"),
    ("seed-runtime", "index", r"evm_id_to_runtime_id:(\$0 range\(1?\d,(\d|1\d|20)\)|slice\(\$0,range\(4,none\(\)\)\) range\(\d,(\d|1[0-6])\))$", "an address has 20 bytes"),
    ("seed-primitives", "unwrap", r"PublicKey::parse_slice", "key generation tooling only"),
]


def loopy(t):
    return any(x.op in ("phi", "elem", "pos", "loop") for x in subterms(t))


def fixed_slice(eng, st, t):
    """a conversion of a slice whose length is a constant"""
    if t.op == "tryinto" and t.args and t.args[0].op == "slice":
        n = T("len", t.args[0])
        B = Bounds(eng, st.facts)
        return any(B.proves_le(n, C(k)) and B.proves_le(C(k), n) for k in (4, 8, 16, 20, 32, 64))
    if t.op == "tryinto" and t.args and t.args[0].op == "vec" and len(t.args[0].args) <= 1:
        return True
    return False


def panic_free(ctx, rule, en, where, exempt=EXEMPT):
    """every potentially panicking operation on every path of the entry is shown safe"""
    ex = lambda fn, what, s, i="": any(q in ("*", fn.crate.name) and w == what and (re.match(p, s) or re.match(p, "%s:%s %s" % (fn.name, s, i))) for q, w, p, _ in exempt)
    n = 0
    for st, what, t, fn, node in en.eng.panicked:
        n += 1
        s = show(t) if t is not None else ""
        if t is not None and fixed_slice(en.eng, st, t):
            continue
        if ex(fn, "unwrap" if what == "unwrap" else "panic", s):
            continue
        v = "%s in %s can panic on %s" % (what, fn.qual, s[:120] or "a reachable path")
        ctx.violation(rule, where, v, Trace(st, "panic", T("panic")))
    for st, what, b, i, fn, node in en.eng.indexed:
        n += 1
        if safe(en.eng, st, what, b, i):
            continue
        s = show(b)
        if ex(fn, what, show(i) if what == "div" else s, show(i)) or (what == "index" and (loopy(i) or loopy(b) and not isint(i))):
            continue
        word = {"index": "the element %s need not exist in" % show(i)[:60], "narrow": "the number need not fit:", "div": "the divisor %s may be zero, dividing" % show(i)[:60]}[what]
        ctx.violation(rule, where, "in %s, %s %s" % (fn.qual, word, s[:120]), Trace(st, "panic", T("panic")))
    ctx.obl += n
    if n:
        ctx.note(where, rule, n, "no operation on any path of this entry can panic")
    return n


def entries(ctx):
    g = graph(ctx)
    out = []
    for c in ctx.m.crates.values():
        if not (c.name.startswith("pallet-") or c.name in ("seed-runtime",)) or c.name.startswith("pallet-evm-precompiles"):
            continue
        for f in g.crate_fns(c):
            tr = (f.trait or "").split("::")[-1]
            if f.body is None or f.name in NOTBLOCK:
                continue
            if f.is_call or tr in TRAITS or (c.name == "seed-runtime" and tr in ("SelfContainedCall", "ErcIdConversion", "FindAuthor", "OnUnbalanced", "InstanceFilter", "HandleTxValidation", "EVMFeeCurrency", "OnChargeEVMTransaction", "StaticLookup")):
                out.append(f)
    return out


@prop("Z01")
def nopanic(ctx):
    es = entries(ctx)
    calls = sum(1 for f in es if f.is_call)
    ctx.check("Z01.entries", "workspace", calls >= 150 and len(es) - calls >= 80, "the extrinsics and handlers of the runtime are found (%d calls, %d handlers)" % (calls, len(es) - calls))
    n = 0
    # the bridge's initialisation is analysed in its parts
    opq = (("pallet-ethy", "handle_authorities_change"), ("pallet-ethy", "prune_claim_ids"))
    for f in es:
        n += panic_free(ctx, "Z01", ctx.analyse(f, opaque=opq if f.crate.name == "pallet-ethy" else ()), f.qual)
    for c, nm in opq:
        e = ctx.entry(c, nm, opaque=opq)
        n += panic_free(ctx, "Z01", e, e.where)
    ctx.check("Z01.instances", "workspace", n >= 60, "the potentially panicking operations are found (%d)" % n)
    # the invariant behind the one unchecked division
    e = ctx.entry("pallet-migration", "set_block_delay")
    e.each("Z01.delay", "put(BlockDelay, x)", "not (0 == x) or x > 0 or x > 1")


PRE_EXEMPT = [x for x in EXEMPT if x[1] == "index" and ("get_amounts_in" in x[2] or "evm_id_to" in x[2])]


@prop("Z02")
def nopanic_solidity(ctx):
    from .precompile import Pre, SETS
    n = 0
    for name in SETS:
        p = Pre(ctx, name)
        for sig in p.sigs:
            en = p(sig)
            n += panic_free(ctx, "Z02", en, en.where, PRE_EXEMPT)
    g = graph(ctx)
    c = ctx.m.crates.get("precompile-utils")
    fs = [f for f in g.crate_fns(c) if f.body is not None and not f.name.startswith("get_selectors")] if c else []     # (those run in tests)
    ctx.check("Z02.utils", "precompile-utils", len(fs) >= 60, "the precompiles' shared decoding and dispatching code is found")
    used = g.callers(c) if c else {}
    for f in fs:
        # a private helper is analysed where it is called
        if not f.vis and not f.trait and any(x is not f for x in used.get(f.name, ())):
            continue
        n += panic_free(ctx, "Z02", ctx.analyse(f), f.qual, PRE_EXEMPT)
    ctx.check("Z02.instances", "workspace", n >= 20, "the potentially panicking operations are found (%d)" % n)
