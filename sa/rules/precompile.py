"""Solidity-facing functions: each signature is analysed from the precompile's execute under its selector."""
import fnmatch
import re
from .base import prop, P, F, E, Entry, Anchor, holds, match_eff
from ..engine import Trace, is_selector
from ..bounds import safe
from ..model import tystr
from ..terms import *

SETS = {
    "erc20": "Erc20PrecompileSet", "erc721": "Erc721PrecompileSet", "erc1155": "Erc1155PrecompileSet",
    "dex": "DexPrecompile", "marketplace": "MarketplacePrecompile", "nft": "NftPrecompile", "sft": "SftPrecompile",
    "peg": "PegPrecompile", "futurepass": "FuturePassPrecompileSet", "futurepass-registrar": "FuturePassRegistrarPrecompile",
}


class Pre:
    """the traces of one precompile's execute, one Solidity function at a time"""

    def __init__(self, ctx, name):
        self.ctx = ctx
        self.name = name
        self.cr = "pallet-evm-precompiles-" + name
        self.ty = SETS[name]
        c = ctx.m.crates.get(self.cr)
        f = ctx.fn(self.cr, "execute", self.ty, "PrecompileSet" if self.ty.endswith("Set") else "Precompile") if c else None
        en = c.enums.get("Action") if c else None
        if f is None or not en:
            ctx.violation("anchor", self.cr, "the precompile's execute or its table of signatures is not found")
            raise Anchor(self.cr)
        self.f = f
        self.isset = self.ty.endswith("Set")
        self.sigs = {}
        for v in en["vs"]:
            d = v.get("d")
            self.sigs[d["v"] if d else "default"] = v["n"]
        self.cache = {}

    def __call__(self, sig):
        if sig in self.cache:
            return self.cache[sig]
        if sig not in self.sigs:
            self.ctx.violation("anchor", self.cr, "the precompile no longer answers %s" % sig)
            raise Anchor(sig)
        en = self.ctx.analyse(self.f, selector=self.sigs[sig])
        out = []
        for t in en.all:
            k, v = t.kind, t.val
            if self.isset and k in ("ok", "err"):
                if v.op == "none":
                    k = "none"
                elif v.op == "good" and v.args[0].op in ("good", "bad"):
                    v = v.args[0]
                    k = "ok" if v.op == "good" else "err"
                    v = v.args[0]
                else:
                    k = "unk"
            elif not self.isset and k in ("ok", "err") and v.op in ("good", "bad"):
                k = "ok" if v.op == "good" else "err"
                v = v.args[0]
            n = Trace(t.st, k, v)
            # a call whose selector cannot be read is no call of this function
            if k == "ok" and sig and any(a.op == "good?" and val is False and is_selector(a.args[0]) or
                                         a.op == "lt" and val and isint(a.args[1]) and a.args[1].args[0] == 4 and a.args[0].op == "len" for a, val in t.facts.items()):
                continue
            out.append(n)
        r = Entry(self.ctx, self.f, out, en.eng)
        r.none = [t for t in out if t.kind == "none"]
        r.where = "%s::%s" % (self.cr, sig)
        r.sig = sig
        self.cache[sig] = r
        if [t for t in out if t.kind == "unk"]:
            self.ctx.violation("outcome", r.where, "an outcome of the call is neither success nor failure", [t for t in out if t.kind == "unk"][0])
        return r


CALLER = "mc('context', P0).caller"
WRITER = "*WeightInfo::%s"


def A(i):
    a = "op('arg', %d)" % i
    return "alt(%s, call('*::from', %s), call('*::into', %s), struct('Address', f0=%s))" % (a, a, a, a)


def ident(prefix, of=None):
    """the runtime id an address under the prefix stands for"""
    src = of or "has(alt(mc('code_address', P0), mc('context', P0).address))"
    return "call('*evm_id_to_runtime_id', %s, op('rep', %d, 4)).q" % (src, prefix)


def W(*xs, sel=None):
    t = "nothas(mc('write', ...))" if sel is None else "both(nothas(mc('write', ...)), has(var('%s')))" % sel
    for x in xs:
        t = "mc('write', %s, %s)" % (t, x)
    return "mc('build', %s)" % t


def reply(*xs):
    return "call('succeed', %s)" % (W(*xs) if xs else "vec()")


def log(n, sig, *rest, loop=False):
    return ("log%d" % n, "call('log%d', mc('code_address', P0), op('keccak', '%s')%s)" % (n, sig, "".join(", " + r for r in rest)), loop)


class D:
    """one state-changing call a function may make"""

    def __init__(self, term, when=None, gas=None):
        self.eff, self.term, self.when, self.gas = term, term, when, gas


def disp(call, origin=None, when=None):
    d = D("", when)
    o = "none" if origin == "none" else "good(%s)" % (origin or CALLER)
    d.eff = "call('dispatch', %s, %s)" % (call, o)
    d.term = "mc('dispatch', %s, %s)" % (call, o)
    return d


STATE = ("dispatch", "call", "*::do_*", "Runner::*", "do_*")


def sol(pre, rule, sig, calls=(), out=None, logs=(), facts=()):
    e = pre(sig)
    r = "%s.%s" % (rule, sig.split("(")[0])
    if not e.ok:
        pre.ctx.violation(r + ".works", e.where, "the function has no successful path")
        return e
    e.only(r + ".only", ("mcall", "call"), STATE, [d.eff for d in calls], floor=1 if calls else 0)
    e.noeffect(r + ".direct", kinds=("put", "del"), traces="ok")
    for d in calls:
        e.must(r + ".call", d.eff, when=d.when, count=1)
        e.req(r + ".ok", "good(%s)" % d.term, when=d.when)
        if d.gas:
            e.req(r + ".gas", "good(mc('record_cost', P0, call('*weight_to_gas', call('*WeightInfo::%s', ...))))" % d.gas, when=d.when)
    for a, b in zip(calls, calls[1:]):
        if a.when is None and b.when is None:
            e.order(r + ".order", a.eff, b.eff)
    e.only(r + ".logs", "call", "log?", [l[1] for l in logs], floor=0)
    for l in logs:
        if not l[2]:
            e.must(r + ".log", l[1])
        elif not any(any(True for _ in match_eff(E(l[1]), x, {})) for t in e.ok for x in t.fx):
            pre.ctx.violation(r + ".log", e.where, "the log is never emitted: %s" % l[1])
    if out:
        e.returns(r + ".out", out)
    for f in facts:
        if isinstance(f, tuple):
            e.req(r + "." + f[0], f[1], when=f[2] if len(f) > 2 else None)
        else:
            e.req(r + ".requires", f)
    return e


@prop("Y02")
def erc20(ctx):
    p = Pre(ctx, "erc20")
    ID = ident(204)
    r = "Y02"
    sol(p, r, "transfer(address,uint256)",
        [disp("varst('transfer', asset_id=%s, destination=%s, amount=%s, keep_alive=false)" % (ID, A(0), A(1)))],
        reply("true"), [log(3, "Transfer(address,address,uint256)", CALLER, A(0), W(A(1)))])
    sol(p, r, "approve(address,uint256)",
        [disp("varst('erc20_approval', asset_id=%s, caller=%s, spender=%s, amount=%s)" % (ID, CALLER, A(0), A(1)), "none")],
        reply("true"), [log(3, "Approval(address,address,uint256)", CALLER, A(0), W(A(1)))])
    sol(p, r, "transferFrom(address,address,uint256)",
        [disp("varst('erc20_update_approval', asset_id=%s, caller=%s, spender=%s, amount=%s)" % (ID, A(0), CALLER, A(2)), "none"),
         disp("varst('transfer', asset_id=%s, destination=%s, amount=%s, keep_alive=false)" % (ID, A(1), A(2)), A(0))],
        reply("true"), [log(3, "Transfer(address,address,uint256)", A(0), A(1), W(A(2)))])
    sol(p, r, "totalSupply()", out=reply("call('pallet_assets_ext::total_issuance', %s)" % ID))
    sol(p, r, "balanceOf(address)", out=reply("call('pallet_assets_ext::reducible_balance', %s, %s, ...)" % (ID, A(0))))
    e = sol(p, r, "allowance(address,address)")
    al = "ERC20Approvals[(%s, %s), %s]" % (A(0), ID, A(1))
    e.returns(r + ".allowance.out", reply("%s.q" % al), when="good(%s)" % al)
    e.returns(r + ".allowance.zero", reply("0"), when="absent(%s)" % al)
    for q in ("name", "symbol", "decimals"):
        sol(p, r, q + "()", out=reply("call('pallet_assets_ext::%s', %s)" % (q, ID)))


def num(x):
    return "alt(%s, call('*H256::*', %s), call('*H256::*', has(mc('write', _, %s))))" % (x, x, x)


def small(i, mx):
    """the number argument is known to fit"""
    return "not (op('arg', %d) > %s)" % (i, mx)


def asked(to, inp):
    """the receiving contract is asked, in the name of the token contract, without value"""
    cx = "varst('Context', address=%s, caller=mc('code_address', P0), apparent_value=alt(0, op('default', ...), call('*::zero')))" % to
    d = D("call('call', P0, %s, none, %s, _, false, %s)" % (to, inp, cx))
    d.when = "nonempty(AccountCodes[%s])" % to
    d.term = "mc('call', P0, %s, none, %s, _, false, %s)" % (to, inp, cx)
    return d


def accepted(e, q, ask, sel):
    """a receiver with code has answered the acceptance call with the right selector"""
    e.must(q + ".asked", ask.eff, when=ask.when, count=1)
    e.req(q + ".known", "empty(AccountCodes[_]) or nonempty(AccountCodes[_])")
    e.req(q + ".answered", "isv(%s.f0, 'Succeed')" % ask.term, when=ask.when)
    e.req(q + ".accepted", "has(%s.f1) == vec(%s)" % (ask.term, ", ".join(str(b) for b in sel)), when=ask.when)


@prop("Y03")
def erc721(ctx):
    p = Pre(ctx, "erc721")
    ID = ident(170)
    r = "Y03"
    TRANSFER = "Transfer(address,address,uint256)"
    OWNERSHIP = "OwnershipTransferred(address,address)"
    OWNER = "call('*get_token_owner', (%s, %%s)).q" % ID
    ZERO = "alt(0, call('default', ...), op('default', ...))"
    tr = disp("varst('transfer', collection_id=%s, new_owner=%s, serial_numbers=vec(%s))" % (ID, A(1), A(2)), A(0))
    okd = ("allowed", "truth(call('*is_approved_or_owner', (%s, %s), %s))" % (ID, A(2), CALLER))
    lg = log(4, TRANSFER, A(0), A(1), num(A(2)), "_")
    sol(p, r, "transferFrom(address,address,uint256)", [tr], reply(), [lg], [okd])
    for s, data in (("safeTransferFrom(address,address,uint256)", None), ("safeTransferFrom(address,address,uint256,bytes)", A(3))):
        inp = W(CALLER, A(0), A(2), data or "_", sel=p.sigs.get("onERC721Received(address,address,uint256,bytes)"))
        ask = asked(A(1), inp)
        code = ask.when
        e = p(s)
        q = r + "." + "safeTransferFrom"
        e.only(q + ".only", ("mcall", "call"), STATE, [tr.eff, (ask.eff, code)], floor=2)
        e.must(q + ".call", tr.eff, count=1)
        e.req(q + ".ok", "good(%s)" % tr.term)
        e.req(q + "." + okd[0], okd[1])
        accepted(e, q, ask, (0x15, 0x0b, 0x7a, 0x02))
        e.only(q + ".logs", "call", "log?", [lg[1]], floor=1)
        e.must(q + ".log", lg[1])
        e.returns(q + ".out", reply())
    sol(p, r, "approve(address,uint256)",
        [disp("varst('erc721_approval', caller=%s, operator_account=%s, token_id=(%s, %s))" % (CALLER, A(0), ID, A(1)), "none")],
        reply(), [log(4, "Approval(address,address,uint256)", CALLER, A(0), num(A(1)), "_")])
    sol(p, r, "setApprovalForAll(address,bool)",
        [disp("varst('erc721_approval_for_all', caller=%s, operator_account=%s, collection_uuid=%s, approved=%s)" % (CALLER, A(0), ID, A(1)), "none")],
        reply(), [log(3, "ApprovalForAll(address,address,bool)", CALLER, A(0), W(A(1)))])
    sol(p, r, "burn(uint256)", [disp("varst('burn', token_id=(%s, %s))" % (ID, A(0)), OWNER % A(0))], reply(),
        [log(4, TRANSFER, OWNER % A(0), ZERO, num(A(0)), "_")],
        [("allowed", "truth(call('*is_approved_or_owner', (%s, %s), %s))" % (ID, A(0), CALLER))])
    INFO = "CollectionInfo[%s].q" % ID
    e = sol(p, r, "mint(address,uint32)",
        [disp("varst('mint', collection_id=%s, quantity=%s, token_owner=good(%s))" % (ID, A(1), A(0)))], reply(),
        [log(4, TRANSFER, ZERO, A(0), num("elem(op('range', %s.next_serial_number, %s.next_serial_number + %s))" % (INFO, INFO, A(1))), "_", loop=True)])
    e.must(r + ".mint.logged", "call('log4', ...)", when="%s.next_serial_number < %s.next_serial_number + op('arg', 1)" % (INFO, INFO))
    e.order(r + ".mint.numbers_first", "load('CollectionInfo')", "call('dispatch', ...)")
    sol(p, r, "setMaxSupply(uint32)", [disp("varst('set_max_issuance', collection_id=%s, max_issuance=%s)" % (ID, A(0)))], reply(),
        [log(1, "MaxSupplyUpdated(uint32)", W(A(0)))])
    sol(p, r, "setBaseURI(bytes)", [disp("varst('set_base_uri', collection_id=%s, base_uri=has(%s))" % (ID, A(0)))], reply(),
        [log(1, "BaseURIUpdated(string)", W("has(op('arg', 0))"))])
    sol(p, r, "togglePublicMint(bool)", [disp("varst('toggle_public_mint', collection_id=%s, enabled=%s)" % (ID, A(0)))], reply(),
        [log(1, "PublicMintToggled(bool)", W(A(0)))])
    ASSET = ident(204, A(0))
    sol(p, r, "setMintFee(address,uint128)",
        [disp("varst('set_mint_fee', collection_id=%s, pricing_details=good((%s, %s)))" % (ID, ASSET, A(1)), when="op('arg', 1) != 0"),
         disp("varst('set_mint_fee', collection_id=%s, pricing_details=none)" % ID, when="op('arg', 1) == 0")],
        reply(), [log(3, "MintFeeUpdated(address,uint128)", A(0), num(A(1)), "_")], [("asset", "good(%s)" % ASSET[:-2])])
    for s, to in (("renounceOwnership()", ZERO), ("transferOwnership(address)", A(0))):
        sol(p, r, s, [disp("varst('set_owner', collection_id=%s, new_owner=%s)" % (ID, to))], reply("true"), [log(3, OWNERSHIP, CALLER, to, "_")])
    sol(p, r, "enableXls20Compatibility()", [disp("varst('enable_xls20_compatibility', collection_id=%s)" % ID)], reply("true"), [log(1, "XLS20CompatibilityEnabled()", "_")])
    sol(p, r, "reRequestXls20Mint(uint32[])",
        [disp("varst('re_request_xls20_mint', collection_id=%s, serial_numbers=alt(vec(), mut('push', _, elem(op('arg', 0))), has(elem(op('arg', 0)))))" % ID)], reply("true"),
        [log(1, "XLS20MintReRequested(uint256)", W("(%s, has(elem(op('arg', 0))))" % ID), loop=True)])
    # views
    sol(p, r, "balanceOf(address)", out=reply("call('*token_balance_of', %s, %s)" % (A(0), ID)))
    sol(p, r, "ownerOf(uint256)", out=reply("alt(%s, struct('Address', f0=%s))" % (OWNER % A(0), OWNER % A(0))))
    AP = "ERC721Approvals[(%s, %s)]" % (ID, A(0))
    sol(p, r, "getApproved(uint256)")
    p("getApproved(uint256)").returns(r + ".getApproved.out", reply("has(%s.q)" % AP), when="good(%s)" % AP)
    p("getApproved(uint256)").returns(r + ".getApproved.none", reply("struct('Address', f0=%s)" % ZERO), when="absent(%s)" % AP)
    AA = "ERC721ApprovalsForAll[%s, (%s, %s)]" % (A(0), ID, A(1))
    e = sol(p, r, "isApprovedForAll(address,address)")
    e.returns(r + ".isApprovedForAll.out", reply("%s.q" % AA), when="good(%s)" % AA)
    e.returns(r + ".isApprovedForAll.none", reply("false"), when="absent(%s)" % AA)
    for q, f in (("name", "name"), ("symbol", "name"), ("totalSupply", "collection_issuance")):
        sol(p, r, q + "()", out=reply("%s.%s" % (INFO, f)))
    sol(p, r, "owner()", out=reply("has(%s.owner)" % INFO))
    sol(p, r, "tokenURI(uint256)", out=reply("call('*token_uri', (%s, %s))" % (ID, A(0))))
    OT = "call('*owned_tokens', %s, %s, %s, %s)" % (ID, A(0), A(2), A(1))
    sol(p, r, "ownedTokens(address,uint16,uint32)", out=reply(OT + ".f0", OT + ".f1", OT + ".f2"))


@prop("Y04")
def erc1155(ctx):
    p = Pre(ctx, "erc1155")
    ID = ident(187)
    r = "Y04"
    ZERO = "alt(0, call('default', ...), op('default', ...))"
    SINGLE = "TransferSingle(address,address,address,uint256,uint256)"
    BATCH = "TransferBatch(address,address,address,uint256[],uint256[])"
    OWNERSHIP = "OwnershipTransferred(address,address)"

    def many(i, j):
        """pairs of the i-th and the j-th argument's items"""
        return "op('coll', _, (both(has(op('arg', %d)), nothas(op('arg', %d))), both(has(op('arg', %d)), nothas(op('arg', %d)))))" % (i, j, j, i)

    def one(i, j):
        return "alt(vec((%s, %s)), op('coll', _, (has(op('arg', %d)), has(op('arg', %d)))))" % (A(i), A(j), i, j)
    allowed = ("allowed", "%s == %s or truth(ERC1155ApprovalsForAll[%s, (%s, %s)].q) or truth(ERC1155ApprovalsForAll[%s, (%s, %s)])" % (
        (CALLER, A(0)) + (A(0), ID, CALLER) * 2))
    for s, pairs, lsig, rc, sel, args in (
            ("safeTransferFrom(address,address,uint256,uint256,bytes)", one(2, 3), SINGLE,
             "onERC1155Received(address,address,uint256,uint256,bytes)", (0xf2, 0x3a, 0x6e, 0x61), (A(2), A(3))),
            ("safeBatchTransferFrom(address,address,uint256[],uint256[],bytes)", many(2, 3), BATCH,
             "onERC1155BatchReceived(address,address,uint256[],uint256[],bytes)", (0xbc, 0x19, 0x7c, 0x81), ("has(op('arg', 2))", "has(op('arg', 3))"))):
        e = p(s)
        q = r + "." + s.split("(")[0]
        tr = disp("varst('transfer', collection_id=%s, serial_numbers=%s, new_owner=%s)" % (ID, pairs, A(1)), A(0))
        ask = asked(A(1), W(CALLER, A(0), args[0], args[1], A(4), sel=p.sigs.get(rc)))
        lg = log(4, lsig, CALLER, A(0), A(1), W(*args))
        e.only(q + ".only", ("mcall", "call"), STATE, [tr.eff, (ask.eff, ask.when)], floor=2)
        e.must(q + ".call", tr.eff, count=1)
        e.req(q + ".ok", "good(%s)" % tr.term)
        accepted(e, q, ask, sel)
        e.req(q + ".allowed", allowed[1])
        e.only(q + ".logs", "call", "log?", [lg[1]], floor=1)
        e.must(q + ".log", lg[1])
        e.returns(q + ".out", reply())
    both_long = "len(has(op('arg', %d))) == len(has(op('arg', %d)))"
    for s, i, j in (("safeBatchTransferFrom(address,address,uint256[],uint256[],bytes)", 2, 3), ("burnBatch(address,uint256[],uint256[])", 1, 2),
                    ("mintBatch(address,uint256[],uint256[])", 1, 2), ("balanceOfBatch(address[],uint256[])", 0, 1)):
        p(s).req(r + ".paired", "len(has(op('arg', %d))) == len(has(op('arg', %d)))" % (i, j))
    sol(p, r, "setApprovalForAll(address,bool)",
        [disp("varst('erc1155_approval_for_all', caller=%s, operator_account=%s, collection_uuid=%s, approved=%s)" % (CALLER, A(0), ID, A(1)), "none")],
        reply(), [log(3, "ApprovalForAll(address,address,bool)", CALLER, A(0), W(A(1)))])
    for s, f, pairs, lsig, vals in (("burn(address,uint256,uint256)", "burn", one(1, 2), SINGLE, (A(1), A(2))),
                                    ("burnBatch(address,uint256[],uint256[])", "burn", many(1, 2), BATCH, ("has(op('arg', 1))", "has(op('arg', 2))"))):
        sol(p, r, s, [disp("varst('burn', collection_id=%s, serial_numbers=%s)" % (ID, pairs), A(0))], reply(),
            [log(4, lsig, CALLER, A(0), ZERO, W(*vals))], [allowed])
    for s, pairs, lsig, vals in (("mint(address,uint256,uint256)", one(1, 2), SINGLE, (A(1), A(2))),
                                 ("mintBatch(address,uint256[],uint256[])", many(1, 2), BATCH, ("has(op('arg', 1))", "has(op('arg', 2))"))):
        sol(p, r, s, [disp("varst('mint', collection_id=%s, serial_numbers=%s, token_owner=good(%s))" % (ID, pairs, A(0)))], reply(),
            [log(4, lsig, CALLER, ZERO, A(0), W(*vals))])
    for s, to in (("renounceOwnership()", ZERO), ("transferOwnership(address)", A(0))):
        sol(p, r, s, [disp("varst('set_owner', collection_id=%s, new_owner=%s)" % (ID, to))], reply("true"), [log(3, OWNERSHIP, CALLER, to, "_")])
    NEW = "call('*do_create_token', %s, %s, has(op('arg', 0)), %s, alt(none, good(%s)), alt(none, good(%s)))" % (CALLER, ID, A(1), A(2), A(3))
    e = sol(p, r, "createToken(bytes,uint128,uint128,address)", [D(NEW, gas="create_token")], reply(NEW + ".q"),
            [log(2, "TokenCreated(uint32)", num(NEW + ".q"), "_")])
    head = "call('*do_create_token', _, _, _, _, "
    e.must(r + ".createToken.unlimited", head + "none, _)", when="op('arg', 2) == 0")
    e.must(r + ".createToken.limited", head + "good(_), _)", when="op('arg', 2) != 0")
    e.must(r + ".createToken.unowned", head + "_, none)", when="op('arg', 3) == %s" % ZERO)
    e.must(r + ".createToken.owned", head + "_, good(_))", when="op('arg', 3) != %s" % ZERO)
    T0 = "(%s, %s)" % (ID, A(0))
    sol(p, r, "setMaxSupply(uint256,uint32)", [disp("varst('set_max_issuance', token_id=%s, max_issuance=%s)" % (T0, A(1)))], reply(),
        [log(2, "MaxSupplyUpdated(uint128)", num(A(1)), "_")])
    sol(p, r, "setBaseURI(bytes)", [disp("varst('set_base_uri', collection_id=%s, metadata_scheme=has(op('arg', 0)))" % ID)], reply(),
        [log(1, "BaseURIUpdated(string)", W("has(op('arg', 0))"))])
    sol(p, r, "togglePublicMint(uint256,bool)", [disp("varst('toggle_public_mint', token_id=%s, enabled=%s)" % (T0, A(1)))], reply(),
        [log(2, "PublicMintToggled(uint32,bool)", num(A(0)), W(A(1)))])
    ASSET = ident(204, A(1))
    sol(p, r, "setMintFee(uint256,address,uint128)",
        [disp("varst('set_mint_fee', token_id=%s, pricing_details=good((%s, %s)))" % (T0, ASSET, A(2)), when="op('arg', 2) != 0"),
         disp("varst('set_mint_fee', token_id=%s, pricing_details=none)" % T0, when="op('arg', 2) == 0")],
        reply(), [log(4, "MintFeeUpdated(uint32,address,uint128)", num(A(0)), A(1), num(A(2)), "_")], [("asset", "good(%s)" % ASSET[:-2])])
    # views
    sol(p, r, "balanceOf(address,uint256)", out=reply("call('*balance_of', %s, (%s, %s))" % (A(0), ID, A(1))))
    sol(p, r, "balanceOfBatch(address[],uint256[])",
        out=reply("alt(vec(), has(call('*balance_of', both(has(op('arg', 0)), nothas(op('arg', 1))), (%s, both(has(op('arg', 1)), nothas(op('arg', 0)))))))" % ID))
    AA = "ERC1155ApprovalsForAll[%s, (%s, %s)]" % (A(0), ID, A(1))
    e = sol(p, r, "isApprovedForAll(address,address)")
    e.returns(r + ".isApprovedForAll.out", reply("%s.q" % AA), when="good(%s)" % AA)
    e.returns(r + ".isApprovedForAll.none", reply("false"), when="absent(%s)" % AA)
    for s, f in (("totalSupply(uint256)", "total_supply"), ("exists(uint256)", "token_exists"), ("uri(uint256)", "token_uri")):
        sol(p, r, s, out=reply("call('*%s', %s)" % (f, T0)))
    sol(p, r, "owner()", out=reply("has(call('*get_collection_owner', %s).q)" % ID))




def bylog(n, sig, emitter, *rest, loop=False):
    return ("log%d" % n, "call('log%d', %s, op('keccak', '%s')%s)" % (n, emitter, sig, "".join(", " + x for x in rest)), loop)


@prop("Y05")
def exchange(ctx):
    p = Pre(ctx, "dex")
    r = "Y05"
    XRP = "2"

    def pair(a, b):
        return "has(mc('pool_address', both(has(%s), has(%s))))" % (a, b)

    def amount(f, rest="_"):
        return num(f, rest) if rest != "_" else num(f, "_")
    value = "mc('context', P0).apparent_value"
    # liquidity
    for s, a, b, da, db, ma, mb, to, dl in (
            ("addLiquidity(address,address,uint256,uint256,uint256,uint256,address,uint256)", ident(204, A(0)), ident(204, A(1)), A(2), A(3), A(4), A(5), A(6), A(7)),
            ("addLiquidityETH(address,uint256,uint256,uint256,address,uint256)", ident(204, A(0)), XRP, A(1), value, A(2), A(3), A(4), A(5))):
        N = "call('*do_add_liquidity', %s, %s, %s, %s, %s, %s, %s, %s, good(%s))" % (CALLER, a, b, da, db, ma, mb, to, dl)
        sol(p, r, s, [D(N, gas="add_liquidity")], reply(N + ".q.f0", N + ".q.f1", N + ".q.f2"),
            [bylog(3, "Mint(address,uint256,uint256)", pair(a, b), CALLER, num(N + ".q.f0"), W(N + ".q.f1"))])
    for s, a, b, am, ma, mb, to, dl in (
            ("removeLiquidity(address,address,uint256,uint256,uint256,address,uint256)", ident(204, A(0)), ident(204, A(1)), A(2), A(3), A(4), A(5), A(6)),
            ("removeLiquidityETH(address,uint256,uint256,uint256,address,uint256)", ident(204, A(0)), XRP, A(1), A(2), A(3), A(4), A(5))):
        N = "call('*do_remove_liquidity', %s, %s, %s, %s, %s, %s, %s, good(%s))" % (CALLER, a, b, am, ma, mb, to, dl)
        sol(p, r, s, [D(N, gas="remove_liquidity")], reply(N + ".q.f0", N + ".q.f1"),
            [bylog(4, "Burn(address,uint256,uint256,address)", pair(a, b), CALLER, num(N + ".q.f0"), num(N + ".q.f1"), W("has(%s)" % to))])

    # swaps
    def path(i):
        return "alt(vec(), both(has(call('*evm_id_to_runtime_id', elem(op('arg', %d)), op('rep', 204, 4)).q), nothas(call('rev', ...))))" % i
    for s, f, x, y, k, to, dl in (
            ("swapExactTokensForTokens(uint256,uint256,address[],address,uint256)", "supply", A(0), A(1), 2, A(3), A(4)),
            ("swapTokensForExactTokens(uint256,uint256,address[],address,uint256)", "target", A(0), A(1), 2, A(3), A(4)),
            ("swapExactETHForTokens(uint256,address[],address,uint256)", "supply", value, A(0), 1, A(2), A(3)),
            ("swapTokensForExactETH(uint256,uint256,address[],address,uint256)", "target", A(0), A(1), 2, A(3), A(4)),
            ("swapExactTokensForETH(uint256,uint256,address[],address,uint256)", "supply", A(0), A(1), 2, A(3), A(4)),
            ("swapETHForExactTokens(uint256,address[],address,uint256)", "target", A(0), value, 1, A(2), A(3))):
        N = "call('*do_swap_with_exact_%s', %s, %s, %s, %s, %s, good(%s))" % (f, CALLER, x, y, path(k), to, dl)
        el = "elem(%s.q.f1)" % N
        at = "op('idx', %s, both(has(op('pos', ...)), nothas(op('+', ...))))" % path(k)
        nx = "op('idx', %s, has(op('+', ...)))" % path(k)
        e = sol(p, r, s, [D(N, gas="swap_with_exact_" + f)], reply(N + ".q.f0"),
                [bylog(4, "Swap(address,uint256,uint256,uint256,uint256,address)", pair(at, nx), CALLER, num(el + ".f0"), num(el + ".f1"),
                       W(el + ".f2", el + ".f3", "has(%s)" % to), loop=True)])
        q = r + "." + s.split("(")[0]
        e.must(q + ".logged", "call('log4', ...)", when="nonempty(%s.q.f1)" % N)
        e.must(q + ".path", "call('*do_swap*', _, _, _, nota(vec()), ...)", when="nonempty(op('arg', %d))" % k)
    # value sent along has left the caller for the precompile's address already
    for s in sorted(PAYABLE["dex"]):
        e = p(s)
        ctx.obl += 1
        for t in e.ok:
            x = [x for x in t.fx if x.kind == "call" and "::do_" in x.name and x.args[0].op == "f" and x.args[0].args[1] == "caller"
                 and any(a.op == "f" and a.args[1] == "apparent_value" for a in x.args)]
            if x:
                ctx.violation(r + ".native", e.where, "the value sent stays with the precompile, and its unscaled amount is charged to the caller again", t, x[0])
                break
    # views
    for s, f, args in (("quote(uint256,uint256,uint256)", "quote", (A(0), A(1), A(2))), ("getAmountOut(uint256,uint256,uint256)", "get_amount_out", (A(0), A(1), A(2))),
                       ("getAmountIn(uint256,uint256,uint256)", "get_amount_in", (A(0), A(1), A(2))), ("getAmountsOut(uint256,address[])", "get_amounts_out", (A(0), path(1))),
                       ("getAmountsIn(uint256,address[])", "get_amounts_in", (A(0), path(1)))):
        e = sol(p, r, s, out=reply("call('*::%s', %s).q" % (f, ", ".join(args))))
        if len(args) == 2:
            e.returns("%s.%s.path" % (r, s.split("(")[0]), "has(call('*::%s', _, nota(vec())).q)" % f, when="nonempty(op('arg', 1))")




@prop("Y06")
def market(ctx):
    p = Pre(ctx, "marketplace")
    r = "Y06"
    DEF = "alt(0, call('default', ...), op('default', ...))"

    # marketplaces
    N = "call('*do_register_marketplace', %s, alt(none, good(%s)), call('*from_parts', %s))" % (CALLER, A(0), A(1))
    e = sol(p, r, "registerMarketplace(address,uint256)", [D(N, gas="register_marketplace")], reply(num(N + ".q")),
            [log(3, "MarketplaceRegister(address,uint256,address)", CALLER, num(N + ".q"), W(A(0)))])
    e.must(r + ".registerMarketplace.self", "call('*do_register_marketplace', _, none, _)", when="op('arg', 0) == %s" % DEF)
    e.must(r + ".registerMarketplace.other", "call('*do_register_marketplace', _, good(_), _)", when="op('arg', 0) != %s" % DEF)

    # listings
    def nft(i):
        return "var('Nft', struct('NftListing', collection_id=%s, serial_numbers=both(has(op('arg', %d)), nota(vec()))))" % (ident(170, A(0)), i)

    def sft(i, j):
        return "var('Sft', struct('SftListing', collection_id=%s, serial_numbers=op('coll', _, both(has(op('arg', %d)), has(op('arg', %d)))).q))" % (ident(187, A(0)), i, j)

    def serials(x, k):
        """the serial numbers of the listed tokens, written as a list"""
        nf = "op('vp', %s.tokens, 'Nft', 0)" % x
        sf = "op('vp', %s.tokens, 'Sft', 0)" % x
        return "alt(%s.%s, both(has(%s.%s), nothas(op('f', elem(_), 1))))" % (nf, k, sf, k) if k == "serial_numbers" else "alt(%s.%s, %s.%s)" % (nf, k, sf, k)

    for names, tok, k, gasn, lsig, more in (
            (("sellNft", "sellNftWithMarketplaceId"), nft(1), 2, "sell_nft", "FixedPriceSaleListNFT(address,uint256,uint256,uint256[],address,uint128)", ()),
            (("sellSft",), sft(1, 2), 3, "sell_sft", "FixedPriceSaleListSFT(address,uint256,uint256,uint256[],address,uint128,uint256[])", ("has(op('arg', 2))",))):
        for s in names:
            sig = s + ("(address,uint256[],uint256[],address,address,uint256,uint256,uint32)" if k == 3 else "(address,uint256[],address,address,uint256,uint256,uint32)")
            buyer, asset, price, dur, mk = A(k), ident(204, A(k + 1)), A(k + 2), A(k + 3), A(k + 4)
            N = "call('*do_sell', %s, %s, alt(none, good(%s)), %s, %s, alt(none, good(%s)), alt(none, good(%s)))" % (CALLER, tok, buyer, asset, price, dur, mk)
            e = sol(p, r, sig, [D(N, gas=gasn)], reply(num(N + ".q")),
                    [log(4, lsig, CALLER, num(N + ".q"), num(price), W("has(op('arg', 1))", A(0), "alt(0, %s)" % mk, *more))])
            q = r + "." + s
            zero = "call('*zero')"
            for o, i, z in ((2, k, DEF), (5, k + 3, 0), (6, k + 4, "alt(0, %s)" % zero)):
                hole = ["_"] * 7
                for v, cond in (("none", "=="), ("good(_)", "!=")):
                    hole[o] = v
                    e.must(q + ".optional", "call('*do_sell', %s)" % ", ".join(hole), when="op('arg', %d) %s %s" % (i, cond, z))
            if k == 3:
                e.req(q + ".paired", "len(op('arg', 1)) == len(op('arg', 2))")
    for names, tok, k, gasn, lsig, pre in (
            (("auctionNft", "auctionNftWithMarketplaceId"), nft(1), 2, "auction_nft", "AuctionOpenNFT(uint256,uint256,uint256,address,uint256[],uint128)", 170),
            (("auctionSft",), sft(1, 2), 3, "auction_sft", "AuctionOpenSFT(uint256,uint256,uint256,address,uint256[],uint128)", 187)):
        for s in names:
            sig = s + ("(address,uint256[],uint256[],address,uint256,uint256,uint32)" if k == 3 else "(address,uint256[],address,uint256,uint256,uint32)")
            asset, price, dur, mk = ident(204, A(k)), A(k + 1), A(k + 2), A(k + 3)
            N = "call('*do_auction', %s, %s, %s, %s, alt(none, good(%s)), good(%s))" % (CALLER, tok, asset, price, dur, mk)
            e = sol(p, r, sig, [D(N, gas=gasn)], reply(),
                    [log(4, lsig, num(ident(pre, A(0))), num(N + ".q"), num(price), W("has(%s)" % CALLER, "has(op('arg', 1))", mk))])
            for v, cond in (("none", "=="), ("good(_)", "!=")):
                e.must(r + "." + s + ".optional", "call('*do_auction', _, _, _, _, %s, _)" % v, when="op('arg', %d) %s 0" % (k + 2, cond))
            if k == 3:
                e.req(r + "." + s + ".paired", "len(op('arg', 1)) == len(op('arg', 2))")
    L = "call('*get_listing_detail', %s).q" % A(0)
    FP, AU = "op('vp', %s, 'FixedPrice', 0)" % L, "op('vp', %s, 'Auction', 0)" % L

    def mid(x):
        return "alt(%s.marketplace_id.q, %s)" % (x, DEF)
    sol(p, r, "updateFixedPrice(uint128,uint256)", [disp("varst('update_fixed_price', listing_id=%s, new_price=%s)" % (A(0), A(1)))], reply(),
        [log(4, "FixedPriceSaleUpdate(uint256,uint256,uint256,address,uint256[],uint128)", num(serials(FP, "collection_id")), num(A(0)), num(A(1)),
             W("has(%s)" % CALLER, serials(FP, "serial_numbers"), mid(FP)))], [("fixed", "isv(%s, 'FixedPrice')" % L)])
    B = "call('*do_buy', %s, %s)" % (CALLER, A(0))
    sol(p, r, "buy(uint128)", [D(B, gas="buy")], reply(),
        [log(4, "FixedPriceSaleComplete(uint256,uint256,uint256,address,uint256[],uint128)", num(serials(B + ".q", "collection_id")), num(A(0)), num(B + ".q.fixed_price"),
             W("has(%s.q.seller)" % B, serials(B + ".q", "serial_numbers"), mid(B + ".q")))])
    sol(p, r, "bid(uint128,uint256)", [disp("varst('bid', listing_id=%s, amount=%s)" % (A(0), A(1)))], reply(),
        [log(4, "Bid(address,uint256,uint256,uint128)", CALLER, num(A(0)), num(A(1)), W(mid(AU)))], [("auction", "isv(%s, 'Auction')" % L)])
    e = p("cancelSale(uint128)")
    c = disp("varst('cancel_sale', listing_id=%s)" % A(0))
    e.only(r + ".cancelSale.only", ("mcall", "call"), STATE, [c.eff], floor=1)
    e.must(r + ".cancelSale.call", c.eff, count=1)
    e.req(r + ".cancelSale.ok", "good(%s)" % c.term)
    e.returns(r + ".cancelSale.out", reply())
    lf = log(3, "FixedPriceSaleClose(uint256,uint256,address,uint256[],uint128)", num(serials(FP, "collection_id")), num(A(0)), W("has(%s)" % CALLER, serials(FP, "serial_numbers"), mid(FP)))
    la = log(3, "AuctionClose(uint256,uint256,address,uint256[],uint128)", num(serials(AU, "collection_id")), num(A(0)), W("has(%s)" % CALLER, serials(AU, "serial_numbers"), mid(AU)))
    e.only(r + ".cancelSale.logs", "call", "log?", [lf[1], la[1]], floor=2)
    e.must(r + ".cancelSale.log", lf[1], when="isv(%s, 'FixedPrice')" % L, count=1)
    e.must(r + ".cancelSale.log", la[1], when="isv(%s, 'Auction')" % L, count=1)
    e.order(r + ".cancelSale.read_first", "read('*get_listing_detail')", c.eff)
    # offers
    T0 = "(%s, %s)" % (ident(170, A(0)), A(1))
    for s in ("makeSimpleOffer", "makeSimpleOfferWithMarketplaceId"):
        N = "call('*do_make_simple_offer', %s, %s, %s, %s, good(%s))" % (CALLER, T0, A(2), ident(204, A(3)), A(4))
        sol(p, r, s + "(address,uint32,uint256,address,uint32)", [D(N, gas="make_simple_offer")], reply(num(N + ".q")),
            [log(3, "Offer(uint256,address,uint256,uint256,uint128)", num(N + ".q"), CALLER, W(ident(170, A(0)), A(1), A(4)))])
    O = "call('*get_offer_detail', %s).q" % A(0)
    for s, f, lg in (("cancelOffer(uint64)", "cancel_offer", log(3, "OfferCancel(uint256,address,uint256,uint256,uint128)", num(A(0)), CALLER, W(O + ".token_id.f0", O + ".token_id.f1", mid(O)))),
                     ("acceptOffer(uint64)", "accept_offer", log(4, "OfferAccept(uint256,uint256,address,uint256,uint256,uint128)", num(A(0)), num(O + ".amount"), CALLER,
                                                                 W(O + ".token_id.f0", O + ".token_id.f1", mid(O))))):
        c = disp("varst('%s', offer_id=%s)" % (f, A(0)))
        e = sol(p, r, s, [c], reply(), [lg])
        e.order(r + "." + f + ".read_first", "read('*get_offer_detail')", c.eff)
    # views
    sol(p, r, "getMarketplaceAccount(uint32)", out=reply("has(RegisteredMarketplaces[%s].q.account)" % A(0)))
    e = sol(p, r, "getListingFromId(uint128)")
    for x, v, word, price in ((FP, "FixedPrice", "fixed_price_listing_for_nft", "fixed_price"), (AU, "Auction", "auction_listing_for_nft", "reserve_price")):
        e.returns(r + ".getListingFromId." + v, reply("has('%s')" % word, serials(x, "collection_id"), serials(x, "serial_numbers"), "%s.%s" % (x, price), x + ".payment_asset"),
                  when="isv(%s, '%s')" % (L, v))
    sol(p, r, "getOfferFromId(uint64)", out=reply(O + ".token_id.f0", O + ".token_id.f1", O + ".amount", "has(%s.buyer)" % O))




@prop("Y07")
def collections_and_pegs(ctx):
    r = "Y07"
    # creating collections
    for name, sig, lsig, prefix, nargs, head in (
            ("nft", "initializeCollection(address,bytes,uint32,bytes,address[],uint32[])", "InitializeCollection(address,address)", 170, 4,
             "call('*do_create_collection', %s, has(%s), 0, alt(none, good(%s)), none, has(%s), %%s, var('Root'), op('default', 'CrossChainCompatibility'))" % (A(0), A(1), A(2), A(3))),
            ("sft", "initializeCollection(address,bytes,bytes,address[],uint32[])", "InitializeSftCollection(address,address)", 187, 3,
             "call('*do_create_collection', %s, has(%s), has(%s), %%s, var('Root'))" % (A(0), A(1), A(2)))):
        p = Pre(ctx, name)
        a, b = nargs, nargs + 1
        roy = "good(struct('RoyaltiesSchedule', entitlements=op('coll', _, (has(op('arg', %d)), both(has(op('arg', %d)), has(call('*from_parts', _)))))))" % (a, b)
        N = head % ("alt(none, %s)" % roy)
        ID = "call('*runtime_id_to_evm_id', %s.q, op('rep', %d, 4))" % (N, prefix)
        e = sol(p, r, sig, [D(N, gas="create_collection")], reply(ID, "has(%s.q)" % N), [log(2, lsig, A(0), W(ID)) if name == "nft" else log(3, lsig, A(0), "alt(%s, has(%s))" % (ID, ID), "_")],
                [("paired", "len(op('arg', %d)) == len(op('arg', %d))" % (a, b))])
        q = r + "." + name
        e.must(q + ".royalties", head % roy, when="nonempty(op('arg', %d))" % a)
        e.must(q + ".no_royalties", head % "none", when="empty(op('arg', %d))" % a)
        if name == "nft":
            for v, cond in (("none", "=="), ("good(_)", "!=")):
                e.must(q + ".limit", "call('*do_create_collection', _, _, _, %s, ...)" % v, when="op('arg', 2) %s 0" % cond)
    # leaving the chain
    p = Pre(ctx, "peg")
    N = "call('pallet_erc20_peg::do_withdrawal', %s, %s, %s, %s, var('Evm'))" % (CALLER, ident(204, A(1)), A(2), A(0))
    sol(p, r, "erc20Withdraw(address,address,uint128)", [D(N, gas="withdraw")], reply("has(%s.q.q)" % N),
        [log(4, "Erc20Withdrawal(uint64,address,address,uint128)", num("%s.q.q" % N), A(0), "has(%s)" % A(1), W(A(2)))])
    IDS = "op('coll', op('arg', 1), has(call('*evm_id_to_runtime_id', elem(op('arg', 1)), op('rep', 170, 4)))).q"
    N = "call('pallet_nft_peg::do_withdrawal', %s, %s, op('coll', op('arg', 2), has(elem(elem(op('arg', 2))))).q, %s, none)" % (CALLER, IDS, A(0))
    e = sol(p, r, "erc721Withdraw(address,address[],uint32[][])", [D(N, gas="withdraw")], reply("has(%s.q)" % N),
            [log(4, "Erc721Withdrawal(uint64,address,address,uint32[])", num("%s.q" % N), A(0), "has(elem(op('arg', 1)))", W("has(elem(op('coll', op('arg', 2), _).q))"), loop=True)])
    e.only(r + ".erc721Withdraw.one_message", "call", "pallet_nft_peg::*", [N], floor=1)




@prop("Y08")
def futurepasses(ctx):
    r = "Y08"
    p = Pre(ctx, "futurepass")
    FPS = "mc('code_address', P0)"
    DEF = "alt(0, call('default', ...), op('default', ...))"
    mine = [("own", "Holders[%s].q == %s" % (CALLER, FPS))]
    sol(p, r, "registerDelegateWithSignature(address,uint8,uint32,bytes)",
        [disp("varst('register_delegate_with_signature', futurepass=%s, delegate=%s, proxy_type=%s, deadline=%s, signature=has(%s))" % (FPS, A(0), A(1), A(2), A(3)))], reply(),
        [log(3, "FuturepassDelegateRegistered(address,address,uint8)", FPS, A(0), W(A(1)))])
    sol(p, r, "unregisterDelegate(address)", [disp("varst('unregister_delegate', futurepass=%s, delegate=%s)" % (FPS, A(0)))], reply(),
        [log(2, "FuturepassDelegateUnregistered(address,address)", FPS, W("has(%s)" % A(0)))])
    sol(p, r, "renounceOwnership()", [disp("varst('transfer_futurepass', current_owner=%s, new_owner=none)" % CALLER)], reply("true"),
        [log(3, "OwnershipTransferred(address,address)", CALLER, DEF, "_")], mine)
    sol(p, r, "transferOwnership(address)", [disp("varst('transfer_futurepass', current_owner=%s, new_owner=good(%s))" % (CALLER, A(0)))], reply("true"),
        [log(3, "OwnershipTransferred(address,address)", CALLER, A(0), "_")], mine)
    OWN = "call('Proxy::owner', %s)" % FPS
    e = sol(p, r, "owner()")
    e.returns(r + ".owner.out", reply("has(%s.q)" % OWN), when="good(%s)" % OWN)
    e.returns(r + ".owner.none", reply("has(%s)" % DEF), when="absent(%s)" % OWN)
    PR = "call('*pallet_proxy::proxies', %s)" % FPS
    e = sol(p, r, "delegateType(address)")
    e.returns(r + ".delegateType.out", reply("alt(0, both(has(%s), has(%s)).proxy_type)" % (PR, A(0))))
    # sending value to a futurepass only receives it
    e = p("")
    e.only(r + ".receive", ("mcall", "call"), STATE, [], floor=0)
    p = Pre(ctx, "futurepass-registrar")
    N = "call('*do_create_futurepass', %s, %s)" % (CALLER, A(0))
    sol(p, r, "create(address)", [D(N, gas="create")], reply("has(%s.q)" % N), [log(2, "FuturepassCreated(address,address)", "has(%s.q)" % N, W("has(%s)" % A(0)))])
    H = "Holders[alt(%s, call('*into_account_id', %s))]" % (A(0), A(0))
    e = sol(p, r, "futurepassOf(address)")
    e.returns(r + ".futurepassOf.out", reply("has(%s.q)" % H), when="good(%s)" % H)
    e.returns(r + ".futurepassOf.none", reply("has(%s)" % DEF), when="absent(%s)" % H)


# ---- every function of every precompile -------------------------------------------------------------------
# value may be sent to a futurepass, which is an account of its holder
PAYABLE = {"futurepass": None, "dex": {"addLiquidityETH(address,uint256,uint256,uint256,address,uint256)", "swapExactETHForTokens(uint256,address[],address,uint256)",
                   "swapETHForExactTokens(uint256,address[],address,uint256)"}}
RECEIVERS = ("onERC721Received(", "onERC1155Received(", "onERC1155BatchReceived(")
# the calls that pallets accept from the precompiles only: without a signer, the caller being an argument
ORIGINLESS = {"erc20_approval", "erc20_update_approval", "erc721_approval", "erc721_approval_for_all", "erc1155_approval_for_all"}


def params(sig):
    """the parameter types of a signature"""
    s = sig[sig.index("(") + 1:-1]
    out, d, cur = [], 0, ""
    for ch in s:
        if ch == "," and d == 0:
            out.append(cur)
            cur = ""
            continue
        d += (ch in "(") - (ch in ")")
        cur += ch
    return out + [cur] if cur else out


def decodes(sol_t, rust_t):
    """the Rust type reads the words of the Solidity type (numbers are read as 256 bits and checked, or as the exact size)"""
    r = rust_t.replace(" ", "")
    if sol_t.endswith("[]"):
        return r.startswith("Vec<") and r.endswith(">") and decodes(sol_t[:-2], r[4:-1])
    if sol_t == "address":
        return r == "Address"
    if sol_t == "bool":
        return r == "bool"
    if sol_t in ("bytes", "string"):
        return r in ("Bytes",) or r.startswith("BoundedBytes<") or r.startswith("BoundedString<")
    if sol_t.startswith("uint"):
        return r == "U256" or r == "u" + sol_t[4:]
    if sol_t.startswith("bytes"):
        return r in ("H256", "U256") or r == "[u8;%s]" % sol_t[5:]
    return False


@prop("Y01")
def everyfunction(ctx):
    r = "Y01"
    nf = nd = nl = na = nr = 0
    seen_fns = {}
    static = F("false(mc('is_static', P0))")
    novalue = F("mc('context', P0).apparent_value == 0")
    for name in SETS:
        p = Pre(ctx, name)
        for sig in p.sigs:
            if sig == "default":
                continue
            e = p(sig)
            nf += 1
            nr += fits(ctx, r, p, e, seen_fns)
            if any(sig.startswith(x) for x in RECEIVERS):
                if e.ok:
                    ctx.violation(r + ".receiver", e.where, "the token contract accepts tokens sent to itself", e.ok[0])
                ctx.obl += 1
                continue
            if not e.ok:
                ctx.violation(r + ".answered", e.where, "the function has no successful path")
                continue
            # the arguments are decoded as the signature says
            ps = params(sig) if sig else []
            seen = set()
            for t in e.all:
                for x in t.fx:
                    if x.kind == "readargs" and id(x) not in seen:
                        seen.add(id(x))
                        tys = [a.args[1].args[0] for a in x.args]
                        na += 1
                        ctx.obl += 1
                        if len(tys) != len(ps) or not all(decodes(s, q) for s, q in zip(ps, tys)):
                            ctx.violation(r + ".arguments", e.where, "the arguments %s are decoded as (%s)" % (sig, ", ".join(tys)), eff=x)
            if ps:
                ctx.obl += 1
                for t in e.ok:
                    if not any(x.kind == "readargs" for x in t.fx):
                        ctx.violation(r + ".arguments", e.where, "a successful path does not decode the arguments", t)
                        break
            for t in e.ok:
                changes = [x for x in t.fx if x.kind in ("mcall", "call") and any(fnmatch.fnmatch(x.name, g) for g in STATE) or x.kind in ("put", "del")]
                logs = [x for x in t.fx if x.kind == "call" and fnmatch.fnmatch(x.name.split("::")[-1], "log[0-4]")]
                ctx.obl += 1
                if not (PAYABLE.get(name, ()) is None or sig in PAYABLE.get(name, ()) or any(True for _ in holds(novalue, t.facts, {}, t))):
                    ctx.violation(r + ".value", e.where, "a function that is not payable succeeds although value was sent", t)
                if not changes and not logs:
                    continue
                ctx.obl += 1
                if not any(True for _ in holds(static, t.facts, {}, t)):
                    ctx.violation(r + ".static", e.where, "the state is changed although the call may be static", t)
                for x in changes:
                    if x.name == "dispatch":
                        nd += 1
                        gas(ctx, r, e, t, x)
                        org = x.args[1]
                        ctx.obl += 1
                        if org.op == "none":
                            if x.args[0].op != "varst" or x.args[0].args[0] not in ORIGINLESS:
                                ctx.violation(r + ".origin", e.where, "a call is dispatched without a signer: %s" % show(x.args[0])[:120], t, x)
                        elif org.op != "good":
                            ctx.violation(r + ".origin", e.where, "a call is dispatched from an origin that is no account: %s" % show(org)[:120], t, x)
                    elif x.name.startswith("Runner::"):
                        ctx.obl += 1
                        if not any(y.kind == "mcall" and y.name == "record_cost" and runcost(t, y.args[1], x.name)
                                   and t.facts.get(T("good?", T("mc", "record_cost", y.args[0], tuple(y.args[1:])))) for y in t.fx):
                            ctx.violation(r + ".gas", e.where, "the gas used by %s is not charged" % x.name, t, x)
                    elif x.name != "call":
                        ctx.obl += 1
                        if not any(y.kind == "mcall" and y.name == "record_cost" and any(z.op == "call" and "WeightInfo::" in str(z.args[0]) for z in subterms(y.args[1]))
                                   and t.facts.get(T("good?", T("mc", "record_cost", y.args[0], tuple(y.args[1:])))) for y in t.fx):
                            ctx.violation(r + ".gas", e.where, "%s is executed without charging its weight" % x.name, t, x)
                if logs:
                    nl += 1
                    ctx.obl += 1
                    paid = [y for y in t.fx if y.kind == "mcall" and y.name == "record_cost" and logprice(y.args[1])]
                    if not paid:
                        ctx.violation(r + ".logs_paid", e.where, "a log is emitted without charging for it", t, logs[0])
                    for x in logs:
                        if x.name.endswith("log0"):
                            ctx.violation(r + ".logs_topic", e.where, "a log carries no event signature as its first topic", t, x)
                        rec = [y for y in t.fx if y.kind == "mcall" and y.name == "log" and any(z.op == "call" and str(z.args[0]).split("::")[-1] == x.name.split("::")[-1] and tuple(z.args[1]) == tuple(x.args) for a in y.args[1:] for z in subterms(a))]
                        ctx.obl += 1
                        if not rec:
                            ctx.violation(r + ".logs_recorded", e.where, "a log is built but not recorded", t, x)
    ctx.check(r + ".functions", "evm-precompiles", nf >= 100, "the Solidity functions are found (%d)" % nf)
    ctx.check(r + ".instances", "evm-precompiles", nd >= 40 and nl >= 60 and na >= 80 and nr >= 100, "dispatches (%d), logs (%d), argument lists (%d) and conversions (%d) are found" % (nd, nl, na, nr))


SIZES = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "u128": 128, "SerialNumber": 32, "TokenCount": 32, "CollectionUuid": 32, "BlockNumber": 32, "AssetId": 32,
         "MarketplaceId": 32, "OfferId": 64, "ListingId": 128, "Balance": 128}


def clamps(fn):
    """node of each clamping conversion of the function -> the bits of the number it is converted to"""
    out = {}

    def bits(t):
        return [SIZES[x] for x in re.findall(r"\w+", t or "") if x in SIZES]

    def go(n, ty):
        if isinstance(n, list):
            for x in n:
                go(x, ty)
            return
        if not isinstance(n, dict):
            return
        if n.get("k") == "Method" and n.get("m") in ("saturated_into", "unique_saturated_into"):
            own = [tystr(g) for g in n.get("g") or []]
            b = bits(own[0] if own else ty)
            out[id(n)] = min(b) if b else 128
        if n.get("k") == "Local" and (n.get("p") or {}).get("k") == "Type":
            ty = tystr(n["p"]["t"])
        elif n.get("k") == "Closure" and n.get("ret"):
            ty = tystr(n["ret"])
        for v in n.values():
            if isinstance(v, (dict, list)):
                go(v, ty)
    go(fn.body, tystr(fn.ret))
    return out


def fits(ctx, r, p, e, seen):
    """a number too large for the type the runtime uses is refused, not clamped"""
    n = 0
    for st, v, fn, node in e.eng.saturated:
        if not fn.crate.name.startswith("pallet-evm-precompiles"):
            continue
        if fn not in seen:
            seen[fn] = clamps(fn)
        b = seen[fn].get(id(node), 128)
        if p.name == "erc20" and b == 128 or p.name in ("nft", "sft") and e.where.split("::")[-1].startswith("initializeCollection") and v.op == "elem" or p.name == "marketplace" and e.where.split("::")[-1].startswith("registerMarketplace"):
            continue
        n += 1
        ctx.obl += 1
        if not safe(e.eng, st, "narrow", v, C(2 ** b - 1)):
            ctx.violation(r + ".range", e.where, "the number %s is converted to %d bits although it may be larger" % (show(v)[:80], b), Trace(st, "panic", T("panic")))
    return n


def runcost(t, a, name):
    """the gas a run has used, or everything when it does not fit the counter"""
    def used(v):
        return any(z.op == "f" and z.args[1] == "used_gas" and any(y.op == "call" and y.args[0] == name for y in subterms(z.args[0])) for z in subterms(v))
    if used(a):
        return True
    return isint(a) and a.args[0] == 2 ** 64 - 1 and any(f.op == "good?" and v is False and used(f) for f, v in t.facts.items())


def logprice(t):
    """a price that includes the price of a log"""
    return isint(t) and t.args[0] >= 375 or any(isint(x) and x.args[0] >= 375 for x in subterms(t))


def gas(ctx, r, e, t, x):
    """a dispatched call must fit the remaining gas before it runs and be paid for after"""
    ctx.obl += 1
    call = x.args[0]
    weights = [a for a in t.facts if a.op == "lt" and t.facts[a] is False and a.args[0].op == "mc" and a.args[0].args[0] == "remaining_gas"]
    if not any(any(y is call for y in subterms(a.args[1])) for a in weights):
        ctx.violation(r + ".gas_before", e.where, "a call is dispatched without comparing its weight to the remaining gas", t, x)
    if not any(a.op == "good?" and v and a.args[0].op == "mc" and a.args[0].args[0] == "record_cost" and
               any(y is call for y in subterms(a.args[0])) for a, v in t.facts.items()):
        ctx.violation(r + ".gas_after", e.where, "the weight of a dispatched call is not charged", t, x)
    d = T("mc", "dispatch", call, (x.args[1],))
    if t.facts.get(T("good?", d)) is not True:
        ctx.violation(r + ".dispatched", e.where, "the function succeeds although its call may have failed", t, x)
