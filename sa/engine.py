"""Trace-partitioned forward dataflow over the syntax tree.

For one entry function the engine computes every *trace class* (a sequence of branch outcomes of the
control-flow graph, helpers inlined, each loop abstracted to "no iteration" / "an arbitrary iteration").
For each class it keeps: the must-facts (branch conditions over value numbers), the ordered effects (storage
writes, calls across trait boundaries, events) and the returned value.  Values are hash-consed terms (global
value numbering); there is no solver, no concrete input and no execution: facts are compared by value number.
"""
import re
import time
from .terms import *
from .bounds import Bounds
from .model import head, targs, tystr, Storage

MAXSTATES = 3000
MAXDEPTH = 14


class Limit(Exception):
    pass


class Ref:
    """mutable reference to a place: variable id + projection"""
    __slots__ = ("var", "proj")

    def __init__(self, var, proj=()):
        self.var = var
        self.proj = proj


class Clo:
    __slots__ = ("node", "scope", "fr")

    def __init__(self, node, scope, fr):
        self.node = node
        self.scope = scope
        self.fr = fr


class FnVal:
    """path used as a function value (e.g. `.map(Some)`, `.map_err(Self::f)`)"""
    __slots__ = ("node", "fr")

    def __init__(self, node, fr):
        self.node = node
        self.fr = fr


class IterV:
    """lazy iterator: base collection term + stages"""
    __slots__ = ("base", "stages", "ref")

    def __init__(self, base, stages=(), ref=None):
        self.base = base
        self.stages = stages
        self.ref = ref


def iterating(fn, t):
    """is `t` a type parameter of `fn` bound to be an iterator (or to give one)?"""
    if t.get("k") != "Path" or len(t.get("p", ())) != 1 or not fn.gen:
        return False
    n = t["p"][0]["n"]
    bs = [b for p in fn.gen.get("p", ()) if p["n"] == n for b in p.get("b", ())]
    bs += [b for w in fn.gen.get("w", ()) if w["t"].get("p") and len(w["t"]["p"]) == 1 and w["t"]["p"][0]["n"] == n
           for b in w["b"]]
    return any(b and b[-1]["n"] in ("Iterator", "IntoIterator", "DoubleEndedIterator", "ExactSizeIterator") for b in bs)


class Eff:
    __slots__ = ("kind", "name", "args", "ctx", "fn", "line", "facts", "extra", "hooks")

    def __init__(self, kind, name, args, ctx, fn, line, facts, extra=None):
        self.kind = kind
        self.name = name
        self.args = args
        self.ctx = ctx
        self.fn = fn
        self.line = line
        self.facts = facts
        self.extra = extra

    def key(self):
        return (self.kind, self.name, self.args, self.ctx)

    def __repr__(self):
        return "%s %s(%s)%s" % (self.kind, self.name, ", ".join(showa(a) for a in self.args),
                                " in loop" if self.ctx else "")


class St:
    __slots__ = ("env", "facts", "fx", "store", "ctx", "ep", "xep")

    def __init__(self):
        self.env = {}
        self.facts = {}
        self.fx = ()
        self.store = {}
        self.ctx = ()
        self.ep = {}
        self.xep = {}

    def copy(self):
        s = St()
        s.env = dict(self.env)
        s.facts = self.facts
        s.fx = self.fx
        s.store = dict(self.store)
        s.ctx = self.ctx
        s.ep = dict(self.ep)
        s.xep = dict(self.xep)
        return s


class Frame:
    def __init__(self, fn, self_ty, crate, file, depth, parent=None, optret=False):
        self.fn = fn
        self.self_ty = self_ty
        self.crate = crate
        self.file = file
        self.depth = depth
        self.rets = []        # (st, val)
        self.loops = []       # stack of dict(brk=[], cont=[])
        self.optret = optret
        self.parent = parent
        self.tymap = {}


class Trace:
    """one trace class of an entry"""
    __slots__ = ("facts", "fx", "kind", "val", "st")

    def __init__(self, st, kind, val):
        self.facts = st.facts
        self.fx = st.fx
        self.kind = kind    # ok | err | panic
        self.val = val
        self.st = st


def merge_facts(a, b):
    return {k: v for k, v in a.items() if b.get(k) is v or (k in b and b[k] == v)}


PURE_PREFIX = ("get", "is_", "balance", "contains", "current_", "total_", "reducible", "exists", "has_", "account_id",
               "minimum_", "maximum", "max_", "min_", "block_number", "now", "collection_exists", "token_exists",
               "into_", "from", "to_", "decode", "encode", "convert", "native", "asset_exists", "decimals", "name",
               "symbol", "next_collection_uuid", "next_asset_uuid", "peek", "status", "active_era", "can_", "free_balance",
               "weight", "lookup", "evm_id", "runtime_id", "default", "try_from", "new", "allowance",
               "delegate_exists", "dispatch_info", "validators", "public", "generate", "compute", "hash", "verify",
               "number", "set_id", "validator_set", "xrp_validators", "door_", "query", "derive", "with_",
               "checked_", "zero", "one", "read", "write_as", "deconstruct", "saturating", "parts", "percent")
# Names that look like mutators and always are effects
IDENT_METHODS = {"clone", "cloned", "copied", "into", "to_owned", "as_ref", "as_slice", "to_vec", "into_inner", "borrow",
                 "deref", "saturated_into", "unique_saturated_into", "as_mut_ref", "by_ref", "as_bytes", "as_deref",
                 "as_bounded_slice", "into_boxed_slice", "to_string", "as_str", "into_vec", "peekable", "fuse",
                 "as_fixed_bytes", "iter_ref", "as_u128_", "boxed", "as_bytes_ref", "to_fixed_bytes_", "inner_ref",
                 "as_inner_ref", "try_into_ref", "into_bytes", "into_iter_", "as_any"}
ITER_METHODS = {"iter", "into_iter", "iter_mut", "drain", "values", "keys", "chars", "bytes"}
MUT_METHODS = {"push", "try_push", "insert", "try_insert", "remove", "retain", "pop", "clear", "extend", "append",
               "truncate", "sort", "sort_by", "sort_by_key", "sort_unstable", "dedup", "swap_remove", "extend_from_slice",
               "try_append", "try_extend", "push_back", "push_front", "pop_front", "pop_back", "swap", "reverse",
               "force_insert", "force_push", "get_or_insert_with", "saturating_accrue", "saturating_reduce", "saturating_inc",
               "try_from_mut", "write", "put", "copy_from_slice", "rotate_left", "fill", "or_insert",
               "bounded_resize", "resize", "split_off", "dedup_by_key", "reduce_mut", "force_insert_keep_left", "entry_insert",
               "read_exact", "set", "sort_unstable_by", "sort_unstable_by_key", "normalize_s"}
FALLIBLE_MUT = {"try_push", "try_insert", "try_append", "try_extend"}

TRANSPARENT_FNS = {("Box", "new"), ("Rc", "new"), ("Arc", "new"), ("Cow", "Borrowed"), ("Cow", "Owned"),
                   ("BoundedVec", "truncate_from"), ("BoundedVec", "from"), ("Vec", "from"), ("WeakBoundedVec", "force_from"),
                   ("BlockNumberFor", "from"), ("RuntimeOrigin", "from"), ("Bytes", "from"), ("Wrapping", "from"), ("Some_", "x")}


def _foreign(crate, name, kind, query):
    s = Storage.__new__(Storage)
    for k in Storage.__slots__:
        setattr(s, k, None)
    s.name, s.kind, s.query, s.keys, s.crate = name, kind, query, [], crate
    return (crate, name), s


# storages of Substrate / Frontier pallets that the repository reads or writes directly
FOREIGN = dict([
    _foreign("pallet_balances", "TotalIssuance", "StorageValue", "ValueQuery"),
    _foreign("pallet_proxy", "Proxies", "StorageMap", "ValueQuery"),
    _foreign("pallet_evm", "AccountCodes", "StorageMap", "ValueQuery"),
    _foreign("pallet_evm", "AccountStorages", "StorageDoubleMap", "ValueQuery"),
    _foreign("pallet_ethereum", "CurrentTransactionStatuses", "StorageValue", "OptionQuery"),
    _foreign("pallet_ethereum", "CurrentBlock", "StorageValue", "OptionQuery"),
    _foreign("pallet_ethereum", "CurrentReceipts", "StorageValue", "OptionQuery"),
])


PURE_EXT = {"R::recursion_limit", "D::allow_delegate_call", "pallet_proxy::find_proxy", "pallet_proxy::deposit"}


GUARDS = ("try_borrow_mut", "borrow_mut", "lock", "get_mut", "or_insert", "or_default", "or_insert_with", "entry")


def outer(t):
    while isT(t) and t.args and t.op in ("unw", "good", "elem", "f", "idx", "get", "updelem"):
        t = t.args[0]
    return isT(t) and t.op == "mc" and str(t.args[0]) in GUARDS


def refmut(p):
    if isinstance(p, dict):
        return p.get("k") == "Ident" and p.get("r") and p.get("m") or any(refmut(v) for v in p.values() if isinstance(v, (dict, list)))
    return isinstance(p, list) and any(refmut(v) for v in p)


def pred(t):
    """t - 1, for a constant or a sum with one"""
    if isint(t):
        return C(t.args[0] - 1)
    k = sum(x.args[0] for x in t.args if isint(x)) - 1
    xs = [x for x in t.args if not isint(x)]
    return add(xs[0] if len(xs) == 1 else T("+", *xs), C(k)) if k else xs[0] if len(xs) == 1 else T("+", *xs)


class Engine:
    def __init__(self, model, inline_crates=None):
        self.m = model
        self.types = {}       # term -> (type AST, crate)
        self.counter = 0
        self.nodes_visited = 0
        self.inlined = set()
        self.unresolved = set()
        self.selector = None  # the selector variant the analysed precompile call carries
        self.opaque = set()   # (crate, fn name) never inlined
        self.stack = []
        self.const_cache = {}
        self.inline_extra = set()
        self.loopn = 0
        self.stmts = 0
        self.compact_at = 400
        self.split_loops = False
        self.deadline = None
        self.loop_traces = []
        self.saturated = []   # (state, value, function, node): conversions that clamp
        self.indexed = []     # (state, what, base, index, function, node): operations that panic out of bounds
        self.phis = set()
        self.panicked = []    # (state, what, value, function, node): the points at which a path panics
        self.merged = 0
        self.outs = False         # report the final value of `&mut` parameters as effects "out"
        self.outv = {}
        self.traits_inline = {}   # (crate name, trait-assoc 'X::f') -> FnDef  (explicit cross-crate bindings)

    # ---- entry points -----------------------------------------------------------------------
    def run(self, fn, args=None, self_val=None, facts=None):
        """all trace classes of fn; params become T('param', i)"""
        st = St()
        if facts:
            st.facts = dict(facts)
        self.loopn = 0
        vals = []
        for i, (p, t) in enumerate(fn.params):
            if args is not None and i < len(args) and args[i] is not None:
                v = args[i]
            else:
                v = T("param", i)
                self.settype(v, t, fn.crate)
                if iterating(fn, t):
                    vals.append(IterV(v))
                    continue
            if self.outs and t.get("k") == "Ref" and t.get("m") and isT(v):
                st.env["out#P%d" % i] = v
                self.outv["P%d" % i] = v
                v = Ref("out#P%d" % i)
            vals.append(v)
        sv = None
        if fn.has_self:
            sv = self_val or T("self")
            if fn.impl_t is not None:
                self.settype(T("self"), fn.impl_t, fn.crate)
            if self.outs and (fn.self_mut or self.outs == "locks") and fn.self_ref:
                st.env["out#self"] = sv
                self.outv["self"] = sv
                sv = Ref("out#self")
        out = self.inline(fn, vals, sv, st, None, entry=True)
        return out

    def traces(self, fn, args=None, self_val=None, facts=None):
        res = []
        out = self.run(fn, args, self_val, facts)
        fin = []
        for st, v in out:
            if isinstance(v, Clo):
                # what the returned closure answers
                fin.extend(self.call(v, [T("cloarg", "ret", i) for i in range(len(v.node["a"]))], st, v.fr))
            else:
                fin.append((st, v))
        for st, v in fin:
            for nm, v0 in self.outv.items():
                v1 = st.env.get("out#" + nm)
                if isT(v1) and v1 is not v0 and v1 != v0:
                    st = st.copy()
                    st.fx = st.fx + (Eff("out", nm, (v1,), st.ctx, fn, None, st.facts, None),)
            v2 = v
            if isinstance(v, Ref):
                v2 = self.read(st, v)
            if isinstance(v2, IterV):
                v2 = self.iter_term(v2)
            if not isT(v2):
                v2 = T("opaque")
            if v2.op == "panic":
                res.append(Trace(st, "panic", v2))
            elif v2.op == "bad":
                res.append(Trace(st, "err", v2))
            elif v2.op == "good":
                res.append(Trace(st, "ok", v2))
            elif self.is_resultish(fn) and self.goodness(st, v2) is False:
                res.append(Trace(st, "err", v2))
            elif self.is_resultish(fn) and self.goodness(st, v2) is None:
                s1 = self.assume(st, T("good?", v2), True)
                if s1 is not None:
                    res.append(Trace(s1, "ok", some(self.unw(v2))))
                s2 = self.assume(st, T("good?", v2), False)
                if s2 is not None:
                    res.append(Trace(s2, "err", v2))
            else:
                res.append(Trace(st, "ok", v2))
        return res

    def is_resultish(self, fn):
        h = head(fn.ret)
        if h not in (None, "Result") and self.m.find_enum(h, fn.crate):
            return False
        return h is not None and (h in ("DispatchResult", "DispatchResultWithPostInfo", "TransactionValidity",
                                        "EvmResult") or h.endswith("Result") or h == "Result")

    # ---- types --------------------------------------------------------------------------------
    def settype(self, t, ty, crate):
        if isT(t) and ty is not None and t.op != "c":
            self.types.setdefault(t, (ty, crate))

    def type_of(self, t):
        """(type AST, crate) or None - a best-effort type of a value number"""
        r = self.types.get(t)
        if r is not None:
            return self.strip_ref(r)
        r = self._type_of(t)
        if r is not None:
            self.types[t] = r
            return self.strip_ref(r)
        return None

    def strip_ref(self, r):
        ty, c = r
        while ty and ty.get("k") == "Ref":
            ty = ty["t"]
        # resolve local aliases
        for _ in range(4):
            h = head(ty)
            if ty and ty.get("k") == "Path" and len(ty["p"]) <= 2 and h in c.types:
                al = c.types[h]
                ty = al["t"]
                continue
            if ty and ty.get("k") == "Path" and h not in c.structs and h not in c.enums and h not in c.types:
                f = self.m.find_type(h, None) if h and h not in ("AccountId", "Self", "BlockNumber", "Result", "Config") else None
                if f and f[0] is not c:
                    c, al = f
                    ty = al["t"]
                    continue
            break
        return (ty, c)

    def _type_of(self, t):
        o = t.op
        if o == "f":
            b = self.type_of(t.args[0])
            if b is None:
                return None
            ty, c = b
            if ty.get("k") == "Tuple":
                try:
                    return (ty["a"][int(t.args[1])], c)
                except (ValueError, IndexError):
                    return None
            s = self.m.find_struct(head(ty), c)
            if s:
                sc, sj = s
                for f in sj["f"]:
                    if f["n"] == t.args[1]:
                        return (self.subst(f["t"], sj, ty), sc)
            return None
        if o == "unw":
            b = self.type_of(t.args[0])
            if b and head(b[0]) in ("Option", "Result") and targs(b[0]):
                return (targs(b[0])[0], b[1])
            if b and head(b[0]) in ("EvmResult", "MayRevert", "RpcResult") and targs(b[0]):
                return (targs(b[0])[0], b[1])
            return None
        if o in ("elem", "wit"):
            b = self.type_of(t.args[0])
            if b:
                ty = b[0]
                if ty.get("k") in ("Slice", "Array"):
                    return (ty["t"], b[1])
                h = head(ty)
                if h in ("Vec", "BoundedVec", "BTreeSet", "BoundedBTreeSet", "WeakBoundedVec", "VecDeque") and targs(ty):
                    return (targs(ty)[0], b[1])
                if h in ("BTreeMap", "BoundedBTreeMap", "HashMap") and len(targs(ty)) > 1:
                    return ({"k": "Tuple", "a": targs(ty)[:2]}, b[1])
            return None
        if o == "vp":
            b = self.type_of(t.args[0])
            if b:
                e = self.m.find_enum(head(b[0]), b[1])
                if e:
                    ec, ej = e
                    for v in ej["vs"]:
                        if v["n"] == t.args[1]:
                            for f in v["f"]:
                                if f["n"] == str(t.args[2]):
                                    return (self.subst(f["t"], ej, b[0]), ec)
            return None
        if o == "struct":
            s = self.m.find_struct(t.args[0], None)
            if s:
                return ({"k": "Path", "p": [{"n": t.args[0]}]}, s[0])
            return None
        if o in ("upd", "mut", "phi"):
            for a in t.args:
                if isT(a):
                    return self.type_of(a)
            return None
        if o == "default":
            return None
        if o == "good":
            b = self.type_of(t.args[0])
            if b:
                return ({"k": "Path", "p": [{"n": "Option", "g": [b[0]]}]}, b[1])
        return None

    def subst(self, ty, item, use):
        g = item.get("gen")
        if not g or ty is None:
            return ty
        names = [x["n"] for x in g["p"]]
        args = targs(use)
        mp = {n: a for n, a in zip(names, args)}
        if not mp:
            return ty

        def go(t):
            if isinstance(t, dict):
                if t.get("k") == "Path" and len(t["p"]) == 1 and t["p"][0]["n"] in mp and not t["p"][0].get("g"):
                    return mp[t["p"][0]["n"]]
                return {k: go(v) for k, v in t.items()}
            if isinstance(t, list):
                return [go(x) for x in t]
            return t
        return go(ty)

    # ---- projections ---------------------------------------------------------------------------
    def fld(self, t, n):
        n = str(n)
        if not isT(t):
            return T("opaque")
        if t.op == "struct" or t.op == "upd":
            for k, v in t.args[1]:
                if k == n:
                    return v
            if t.op == "upd":
                return self.fld(t.args[0], n)
            return T("f", t, n)
        if t.op == "tup":
            try:
                return t.args[int(n)]
            except (ValueError, IndexError):
                return T("f", t, n)
        if t.op == "var" and len(t.args) > 1 and n.isdigit() and int(n) < len(t.args[1]):
            return t.args[1][int(n)]
        if t.op in ("slice", "rep") and n == "0":
            return t                  # H160(bytes).0: the wrapper is not kept, and bytes have no fields
        if t.op == "call" and n == "0" and t.args[0] == "H160::from_slice" and len(t.args[1]) == 1:
            return t.args[1][0]
        if t.op == "default":
            v = self.default_field(t, n)
            if v is not None:
                return v
        return T("f", t, n)

    def default_field(self, t, n):
        ty = t.args[0]
        s = self.m.find_struct(ty, None)
        if not s:
            return None
        for f in s[1]["f"]:
            if f["n"] == n:
                derived = any(a["p"] == "derive" and "Default" in a.get("t", "") for a in s[1]["attrs"])
                if derived:
                    return self.default_of((f["t"], s[0]))
        return None

    def default_of(self, ty):
        if ty is None:
            return T("default", "?")
        t, c = self.strip_ref(ty)
        if t.get("k") == "Tuple":
            return T("tup", *[self.default_of((x, c)) for x in t["a"]])
        h = head(t)
        if h in ("u8", "u16", "u32", "u64", "u128", "usize", "i32", "i64", "i128", "Balance", "U256", "BlockNumber",
                 "BlockNumberFor", "SerialNumber", "TokenCount", "CollectionUuid", "AssetId", "Weight"):
            return ZERO
        if h == "bool":
            return FALSE
        if h == "Option":
            return NONE
        if h in ("Vec", "BoundedVec", "BTreeMap", "BTreeSet", "BoundedBTreeMap", "BoundedBTreeSet", "WeakBoundedVec", "VecDeque"):
            return T("vec")
        # hand-written Default
        s = self.m.find_struct(h, c) or self.m.find_enum(h, c)
        if s:
            for f in s[0].methods.get(h, {}).get("default", []):
                if f.trait == "Default":
                    try:
                        outs = self.inline(f, [], None, St(), None)
                        if len(outs) == 1 and isT(outs[0][1]):
                            return outs[0][1]
                    except Limit:
                        pass
            if s[1]["k"] == "Enum":
                for v in s[1]["vs"]:
                    if any(a["p"] == "default" for a in v["attrs"]):
                        return T("var", v["n"], ())
        return T("default", h)

    def setfld(self, t, n, v):
        n = str(n)
        if not isT(t):
            return t
        if t.op == "struct":
            fs = dict(t.args[1])
            fs[n] = v
            return T("struct", t.args[0], tuple(sorted(fs.items())))
        if t.op == "upd":
            fs = dict(t.args[1])
            fs[n] = v
            base = t.args[0]
        elif t.op == "tup" and n.isdigit() and int(n) < len(t.args):
            l = list(t.args)
            l[int(n)] = v
            return T("tup", *l)
        else:
            base = t
            fs = {n: v}
        if self.fld(base, n) is v:
            fs.pop(n)
        if not fs:
            return base
        return T("upd", base, tuple(sorted(fs.items())))

    def unw(self, t):
        if t.op == "good":
            return t.args[0]
        if t.op in ("bad", "none"):
            return T("absurd")
        if t.op == "chk":
            return arith(t.args[0], t.args[1], t.args[2])
        if t.op == "tryinto":
            return t.args[0]
        u = T("unw", t)
        return u

    def vp(self, t, v, i):
        if t.op == "var" and t.args[0] == v:
            a = t.args[1]
            if isinstance(i, int) and i < len(a):
                return a[i]
        if t.op == "varst" and t.args[0] == v:
            for k, x in t.args[1]:
                if k == i:
                    return x
        if t.op == "upd":
            pass
        return T("vp", t, v, i)

    def proj(self, t, p):
        k = p[0]
        if k == "f":
            return self.fld(t, p[1])
        if k == "unw":
            return self.unw(t)
        if k == "vp":
            return self.vp(t, p[1], p[2])
        if k == "elem":
            return p[1]
        if k == "deref":
            return t
        return T("opaque")

    def read(self, st, ref):
        v = st.env.get(ref.var, T("undef", str(ref.var)))
        n = 0
        while isinstance(v, Ref) and n < 50:
            ref = Ref(v.var, v.proj + ref.proj)
            v = st.env.get(ref.var, T("undef", str(ref.var)))
            n += 1
        for p in ref.proj:
            if isinstance(v, Ref):
                v = self.read(st, v)
            if isinstance(v, IterV):
                v = self.iter_term(v)
            if not isT(v):
                return T("opaque")
            if p[0] == "elem":
                # value of an element: look for an updated element
                if v.op == "updelem" and v.args[1] is p[1]:
                    v = v.args[2]
                else:
                    v = p[1]
            else:
                v = self.proj(v, p)
        return v

    def write(self, st, ref, val):
        v = st.env.get(ref.var)
        n = 0
        while isinstance(v, Ref) and n < 50:
            ref = Ref(v.var, v.proj + ref.proj)
            v = st.env.get(ref.var)
            n += 1
        if isinstance(val, Ref):
            pass
        if not ref.proj:
            st.env[ref.var] = val
            return
        if isinstance(val, (Ref,)):
            val = self.read(st, val)
        if not isT(val):
            val = self.tt(st, val)
        st.env[ref.var] = self._upd(v if isT(v) else self.tt(st, v), ref.proj, val)

    def _upd(self, base, proj, val):
        if not proj:
            return val
        p = proj[0]
        k = p[0]
        if k == "deref":
            return self._upd(base, proj[1:], val)
        if k == "elem":
            cur = base.args[2] if base.op == "updelem" and base.args[1] is p[1] else p[1]
            b0 = base.args[0] if base.op == "updelem" and base.args[1] is p[1] else base
            nv = self._upd(cur, proj[1:], val)
            if nv is p[1]:
                return b0
            return T("updelem", b0, p[1], nv)
        cur = self.proj(base, p)
        nv = self._upd(cur, proj[1:], val)
        if nv is cur:
            return base
        if k == "f":
            return self.setfld(base, p[1], nv)
        if k == "unw":
            return some(nv)
        if k == "vp":
            if base.op == "var":
                l = list(base.args[1])
                l[p[2]] = nv
                return T("var", p[1], tuple(l))
            if base.op == "varst":
                fs = dict(base.args[1])
                fs[p[2]] = nv
                return T("varst", p[1], tuple(sorted(fs.items())))
            if isinstance(p[2], int):
                return T("var", p[1], tuple([T("vp", base, p[1], i) for i in range(p[2])] + [nv]))
            return T("upd", base, ((p[2], nv),))
        return T("opaque")

    def tt(self, st, v):
        """to plain term"""
        if isT(v):
            return v
        if isinstance(v, Ref):
            return self.tt(st, self.read(st, v))
        if isinstance(v, IterV):
            return self.iter_term(v)
        if isinstance(v, Clo):
            return T("closure")
        if isinstance(v, FnVal):
            return T("fnval", "::".join(s["n"] for s in v.node["p"]))
        return T("opaque")

    def iter_term(self, v):
        t = v.base
        for s in v.stages:
            if s[0] in ("skip", "take", "step_by"):
                t = T("it", s[0], t, s[1])
            elif s[0] in ("enumerate", "rev"):
                t = T("it", s[0], t)
            elif s[0] in ("zip", "chain"):
                t = T("it", s[0], t, s[1])
            else:
                t = T("it", s[0], t)
        return t

    # ---- facts ---------------------------------------------------------------------------------
    def goodness(self, st, t):
        if t.op == "good":
            return True
        if t.op in ("bad", "none"):
            return False
        if t.op == "chk":
            op, a, b = t.args
            if op == "-":
                r = self.lookup(st, T("lt", a, b))
                return None if r is None else (not r)
            if isint(a) and isint(b):
                return True
        return st.facts.get(T("good?", t))

    def lookup(self, st, atom):
        """truth of an atom under the facts, or None"""
        o = atom.op
        if o == "is" and self.selector is not None and is_selector(atom.args[0]):
            return atom.args[1] == self.selector
        if o == "c":
            return bool(atom.args[0])
        if o == "not":
            r = self.lookup(st, atom.args[0])
            return None if r is None else not r
        f = st.facts
        r = f.get(atom)
        if r is not None:
            return r
        if o == "lt":
            a, b = atom.args
            if isint(a) and isint(b):
                return a.args[0] < b.args[0]
            if a is b:
                return False
            if isint(b) and b.args[0] == 0:
                return False
            if f.get(T("lt", b, a)) is True:
                return False
            if f.get(mkeq(a, b)) is True:
                return False
            if isint(a) and a.args[0] == 0:
                r = f.get(mkeq(a, b))
                if r is not None:
                    return not r
        elif o == "eq":
            a, b = atom.args
            if a is b:
                return True
            if a.op == "c" and b.op == "c":
                return a.args[0] == b.args[0]
            for p, q in ((a, b), (b, a)):
                if p is ZERO and q.op == "default":
                    return True
                if p.op == "vec" and q.op != "vec" and p.args and all(isint(x) for x in p.args):
                    # equal to another literal already
                    for k, v in f.items():
                        if v and k.op == "eq" and k.args[0] is not k.args[1]:
                            o2 = k.args[1] if k.args[0] is q else k.args[0] if k.args[1] is q else None
                            if o2 is not None and o2.op == "vec" and all(isint(x) for x in o2.args) and o2 is not p:
                                return False
            if f.get(T("lt", a, b)) is True or f.get(T("lt", b, a)) is True:
                return False
            if a.op == "var" and b.op == "var" and not a.args[1] and not b.args[1]:
                return a.args[0] == b.args[0]
        elif o == "empty":
            t = atom.args[0]
            if t.op == "mut" and t.args[0] in ("push", "try_push", "push_back", "push_front", "insert", "try_insert", "force_push"):
                return False
            if t.op == "updelem":
                return False
            if t.op == "vec":
                return len(t.args) == 0
        elif o == "good?":
            return self.goodness(st, atom.args[0]) if atom.args[0].op in ("good", "bad", "none", "chk") else None
        elif o == "is":
            t, v = atom.args
            if t.op in ("var", "varst"):
                return t.args[0] == v
            for k, val in f.items():
                if val and k.op == "is" and k.args[0] is t and k.args[1] != v:
                    return False
        return None

    def assume(self, st, atom, val):
        """state with the fact added, or None when contradictory"""
        while atom.op == "not":
            atom = atom.args[0]
            val = not val
        r = self.lookup(st, atom)
        if r is not None:
            return st if r == val else None
        # normal forms
        if atom.op == "good?" and atom.args[0].op == "chk" and atom.args[0].args[0] == "-":
            _, a, b = atom.args[0].args
            return self.assume(st, T("lt", a, b), not val)
        if atom.op == "empty":
            x = atom.args[0]
            while x.op == "it" and x.args[0] in ("rev", "enumerate", "map") and len(x.args) > 1 and isT(x.args[1]):
                x = x.args[1]
            if x.op == "range" and len(x.args) == 2 and x.args[1] is not NONE and not isint(x.args[1]):
                # a range known to hold something, or known to be empty
                lo, hi = x.args
                B = Bounds(self, st.facts)
                if val and B.proves_le(lo, hi, -1) or not val and B.proves_le(hi, lo):
                    return None
        if atom.op == "good?" and atom.args[0].op == "vec":
            # a list of results collected into one result: good when each is
            if not val and any(x.op == "bad" for x in atom.args[0].args):
                return st
            if val:
                s = st
                for x in atom.args[0].args:
                    if x.op == "bad":
                        return None
                    if x.op in ("call", "mc", "unw", "ld"):
                        s = self.assume(s, T("good?", x), True)
                        if s is None:
                            return None
                st = s
        s = st.copy()
        s.facts = dict(st.facts)
        if atom.op == "lt" and val is not None:
            a, b = atom.args
            if isint(a) and a.args[0] == 0:
                # 0 < x  <=>  x != 0
                e = mkeq(a, b)
                r = s.facts.get(e)
                if r is not None and r == val:
                    return None
                s.facts[e] = not val
                return s
            if isint(b) and b.args[0] == 1:
                e = mkeq(a, ZERO)
                r = s.facts.get(e)
                if r is not None and r != val:
                    return None
                s.facts[e] = val
                return s
        s.facts[atom] = val
        if atom.op == "is" and not val:
            w = self.last_variant(s, atom.args[0], atom.args[1])
            if w:
                s.facts[T("is", atom.args[0], w)] = True
        return s

    def last_variant(self, st, t, v):
        """the only variant left of the value's enum"""
        ty = self.type_of(t)
        e = self.m.find_enum(head(ty[0]), ty[1]) if ty else None
        if e:
            vs = [x["n"] for x in e[1]["vs"]]
        elif v in ("AllowDeath", "KeepAlive"):
            vs = ["AllowDeath", "KeepAlive"]
        else:
            return None
        left = [x for x in vs if st.facts.get(T("is", t, x)) is not False]
        return left[0] if v in vs and len(left) == 1 else None

    # ---- evaluation: conditions ------------------------------------------------------------------
    def cond(self, e, st, fr, scope):
        """-> list of (state, bool, scope)"""
        k = e["k"]
        if k == "Unary" and e["o"] == "!":
            return [(s, not b, sc) for s, b, sc in self.cond(e["e"], st, fr, scope)]
        if k == "Binary" and e["o"] == "&&":
            out = []
            for s, b, sc in self.cond(e["a"], st, fr, scope):
                if b:
                    out.extend(self.cond(e["b"], s, fr, sc))
                else:
                    out.append((s, False, scope))
            return out
        if k == "Binary" and e["o"] == "||":
            out = []
            for s, b, sc in self.cond(e["a"], st, fr, scope):
                if b:
                    out.append((s, True, scope))
                else:
                    out.extend(self.cond(e["b"], s, fr, scope))
            return out
        if k == "Let":
            out = []
            for s, v in self.scrut(e["e"], (e["p"],), st, fr, scope):
                sc = dict(scope)
                self.alloc(e["p"], sc)
                for s2, ok in self.match(e["p"], v, s, fr, sc):
                    out.append((s2, ok, sc))
            return out
        if k == "Macro" and e["n"] == "matches" and "pat" in e:
            out = []
            for s, v in self.ev(e["e"], st, fr, scope):
                sc = dict(scope)
                self.alloc(e["pat"], sc)
                for s2, ok in self.match(e["pat"], v, s, fr, sc):
                    if ok and e.get("g"):
                        out.extend((s3, b3, scope) for s3, b3, _ in self.cond(e["g"], s2, fr, sc))
                    else:
                        out.append((s2, ok, scope))
            return out
        out = []
        for s, v in self.ev(e, st, fr, scope):
            for s2, b in self.test(self.tt(s, v), s):
                out.append((s2, b, scope))
        return out

    def test(self, t, st):
        """branch on a boolean term"""
        if t.op == "panic":
            return []
        if t.op == "not":
            return [(s, not b) for s, b in self.test(t.args[0], st)]
        if t.op == "and":
            out = []
            for s, b in self.test(t.args[0], st):
                if b:
                    out.extend(self.test(t.args[1], s))
                else:
                    out.append((s, False))
            return out
        if t.op == "eq":
            return self.test_eq(t.args[0], t.args[1], st)
        if t.op == "lt":
            pass
        out = []
        s = self.assume(st, t, True)
        if s is not None:
            out.append((s, True))
        s = self.assume(st, t, False)
        if s is not None:
            out.append((s, False))
        return out

    def test_eq(self, a, b, st):
        for x, y in ((a, b), (b, a)):
            if y.op in ("good",):
                if x.op == "good":
                    return self.test_eq(x.args[0], y.args[0], st)
                if x.op in ("none", "bad"):
                    return [(st, False)]
                out = []
                s = self.assume(st, T("good?", x), False)
                if s is not None:
                    out.append((s, False))
                s = self.assume(st, T("good?", x), True)
                if s is not None:
                    out.extend(self.test_eq(self.unw(x), y.args[0], s))
                return out
            if y.op == "none":
                g = T("good?", x)
                out = []
                s = self.assume(st, g, False)
                if s is not None:
                    out.append((s, True))
                s = self.assume(st, g, True)
                if s is not None:
                    out.append((s, False))
                return out
            if y.op == "c" and y.args[1] == "bool" and x.op != "c":
                return [(s, bb == y.args[0]) for s, bb in self.test(x, st)]
            if y.op == "var" and x.op != "var" and not y.args[1]:
                # unit variant comparison is the same test as a pattern
                out = []
                for val in (True, False):
                    s = self.assume(st, T("is", x, y.args[0]), val)
                    if s is not None:
                        out.append((s, val))
                return out
        if a.op == "tup" and b.op == "tup" and len(a.args) == len(b.args):
            states = [st]
            out = []
            for x, y in zip(a.args, b.args):
                nxt = []
                for s in states:
                    for s2, bb in self.test_eq(x, y, s):
                        if bb:
                            nxt.append(s2)
                        else:
                            out.append((s2, False))
                states = nxt
            return out + [(s, True) for s in states]
        out = []
        at = mkeq(a, b)
        for val in (True, False):
            s = self.assume(st, at, val)
            if s is not None:
                out.append((s, val))
        return out

    # ---- patterns --------------------------------------------------------------------------------
    def alloc(self, p, scope):
        """allocate variable ids for the names bound by a pattern"""
        k = p["k"]
        if k == "Ident":
            n = p["n"]
            if n[0].isupper() and not p.get("sub"):
                return
            self.counter += 1
            scope[n] = "%s#%d" % (n, self.counter)
            if p.get("sub"):
                self.alloc(p["sub"], scope)
        elif k in ("TupleStruct", "Tuple", "Slice", "Or"):
            if k == "Or":
                before = dict(scope)
                self.alloc(p["a"][0], scope)
                for q in p["a"][1:]:
                    tmp = dict(before)
                    self.alloc(q, tmp)
                return
            for q in p["a"]:
                self.alloc(q, scope)
        elif k == "Struct":
            for n, q in p["f"]:
                self.alloc(q, scope)
        elif k in ("Ref", "Type"):
            self.alloc(p["p"], scope)

    def deref(self, st, v):
        return self.read(st, v) if isinstance(v, Ref) else v

    def match(self, p, v, st, fr, scope):
        """-> [(state, matched)]; bindings are written to the state's environment.
        The non-matching states carry the negative fact."""
        k = p["k"]
        if k == "Wild" or k == "Rest":
            return [(st, True)]
        if k == "Ident":
            n = p["n"]
            if n in scope and not (n[0].isupper() and n not in scope):
                if n in ("None",):
                    return self.match_variant("None", v, [], st, fr, scope)
                outs = [(st, True)]
                if p.get("sub"):
                    outs = self.match(p["sub"], v, st, fr, scope)
                res = []
                for s, ok in outs:
                    if ok:
                        s = s.copy()
                        s.env[scope[n]] = v
                    res.append((s, ok))
                return res
            # upper-case identifier: unit variant or constant
            return self.match_path([{"n": n}], v, st, fr, scope)
        if k == "Type":
            self.settype(self.tt(st, v), p["t"], fr.crate)
            return self.match(p["p"], v, st, fr, scope)
        if k == "Ref":
            return self.match(p["p"], self.deref(st, v), st, fr, scope)
        if k == "Lit":
            lv = self.lit(p["e"])
            return self.test_eq(self.tt(st, v), lv, st)
        if k == "Path":
            return self.match_path(p["p"], v, st, fr, scope)
        if k == "Range":
            t = self.tt(st, v)
            outs = [(st, True)]
            if p.get("s"):
                lo = self.ev1(p["s"], st, fr, scope)
                outs = self.test(T("not", mklt(t, lo)), st)
            if p.get("e"):
                res = []
                hi = self.ev1(p["e"], st, fr, scope)
                at = T("not", mklt(hi, t)) if p.get("incl") else mklt(t, hi)
                for s, ok in outs:
                    if ok:
                        res.extend(self.test(at, s))
                    else:
                        res.append((s, False))
                outs = res
            return outs
        if k == "Or":
            out = []
            pend = [st]
            for q in p["a"]:
                nxt = []
                for s in pend:
                    for s2, ok in self.match(q, v, s, fr, scope):
                        if ok:
                            out.append((s2, True))
                        else:
                            nxt.append(s2)
                pend = nxt
            return out + [(s, False) for s in pend]
        if k == "Tuple" or k == "Slice":
            t = self.tt(st, v)
            pats = p["a"]
            states = [st]
            out = []
            has_rest = any(q["k"] == "Rest" for q in pats)
            if k == "Slice":
                if t.op != "vec":
                    at = T("slicepat", t, C(len(pats)), C(has_rest))
                    res = self.test(at, st)
                    states = [s for s, b in res if b]
                    out = [(s, False) for s, b in res if not b]
            for i, q in enumerate(pats):
                if q["k"] == "Rest":
                    break
                nxt = []
                for s in states:
                    sub = Ref(v.var, v.proj + (("f", str(i)),)) if isinstance(v, Ref) else self.fld(self.tt(s, v), i)
                    for s2, ok in self.match(q, sub, s, fr, scope):
                        if ok:
                            nxt.append(s2)
                        else:
                            out.append((s2, False))
                states = nxt
            if has_rest:
                ri = [i for i, q in enumerate(pats) if q["k"] == "Rest"][0]
                for j, q in enumerate(pats[ri + 1:]):
                    nxt = []
                    for s in states:
                        sub = T("fromend", self.tt(s, v), len(pats) - ri - 1 - j)
                        for s2, ok in self.match(q, sub, s, fr, scope):
                            if ok:
                                nxt.append(s2)
                            else:
                                out.append((s2, False))
                    states = nxt
            return [(s, True) for s in states] + out
        if k == "TupleStruct":
            return self.match_variant(p["p"][-1]["n"], v, list(enumerate(p["a"])), st, fr, scope, p["p"])
        if k == "Struct":
            return self.match_variant(p["p"][-1]["n"], v, [(n, q) for n, q in p["f"]], st, fr, scope, p["p"])
        return [(st, True)]

    def match_path(self, segs, v, st, fr, scope):
        n = segs[-1]["n"]
        if n == "None":
            return self.match_variant("None", v, [], st, fr, scope)
        if (n.isupper() or (n.replace("_", "").isupper())) and not self.enum_variant(segs, fr):
            c = self.const(segs, fr)
            return self.test_eq(self.tt(st, v), c, st)
        return self.match_variant(n, v, [], st, fr, scope, segs)

    def enum_variant(self, segs, fr):
        """is an all-capitals path a variant of a known enum (rather than a constant)?"""
        if len(segs) < 2:
            return False
        h = segs[-2]["n"]
        ej = self.m.find_enum(fr.self_ty if h == "Self" else h, fr.crate)
        return bool(ej) and any(v["n"] == segs[-1]["n"] for v in ej[1]["vs"])

    def is_struct_path(self, segs, fr):
        if len(segs) == 1:
            n = segs[0]["n"]
            if n == "Self":
                return fr.self_ty not in fr.crate.enums
            if n in fr.crate.structs:
                return True
            if n in fr.crate.variants:
                return False
            return self.m.find_struct(n, fr.crate) is not None
        # Enum::Variant ?
        e = segs[-2]["n"]
        if e == "Self":
            return False
        if e[:1].isupper():
            return False
        return self.m.find_struct(segs[-1]["n"], fr.crate) is not None

    def match_variant(self, n, v, subs, st, fr, scope, segs=None):
        t = self.tt(st, v)
        if t.op == "panic":
            return []
        plain = segs is None or len(segs) < 2 or segs[-2]["n"] in ("Result", "Option") or not self.m.find_enum(segs[-2]["n"] if segs[-2]["n"] != "Self" else fr.self_ty, fr.crate)
        if type(v) is SomeRef and plain and n in ("Some", "Ok", "None", "Err"):
            if n in ("None", "Err"):
                return [(st, False)]
            return self.match(subs[0][1], Ref(v.var, v.proj), st, fr, scope) if subs else [(st, True)]
        if n in ("Some", "Ok") and plain:
            projs = ("unw",)
            res = [(s, True) for s in [self.assume(st, T("good?", t), True)] if s is not None]
            neg = [(s, False) for s in [self.assume(st, T("good?", t), False)] if s is not None]
            out = list(neg)
            for s, _ in res:
                sub = Ref(v.var, v.proj + (projs,)) if isinstance(v, Ref) else self.unw(t)
                out.extend(self.match(subs[0][1], sub, s, fr, scope) if subs else [(s, True)])
            return out
        if n in ("None", "Err") and plain:
            out = []
            s = self.assume(st, T("good?", t), True)
            if s is not None:
                out.append((s, False))
            s = self.assume(st, T("good?", t), False)
            if s is not None:
                if subs:
                    ev = t.args[0] if t.op == "bad" else T("errof", t)
                    out.extend(self.match(subs[0][1], ev, s, fr, scope))
                else:
                    out.append((s, True))
            return out
        if segs is not None and self.is_struct_path(segs, fr):
            states = [st]
            out = []
        else:
            at = T("is", t, n)
            # single remaining variant of a known enum
            s1 = self.assume(st, at, True)
            s0 = self.assume(st, at, False)
            if s1 is not None and s0 is not None and self.only_variant_left(s0, t):
                s0 = None
            states = [s1] if s1 is not None else []
            out = [(s0, False)] if s0 is not None else []
        structp = segs is not None and self.is_struct_path(segs, fr)
        for i, q in subs:
            if q["k"] == "Rest":
                break
            nxt = []
            for s in states:
                if structp:
                    pr = ("f", str(i))
                else:
                    pr = ("vp", n, i if isinstance(i, int) else str(i))
                sub = Ref(v.var, v.proj + (pr,)) if isinstance(v, Ref) else self.proj(self.tt(s, v), pr)
                for s2, ok in self.match(q, sub, s, fr, scope):
                    if ok:
                        nxt.append(s2)
                    else:
                        out.append((s2, False))
            states = nxt
        return [(s, True) for s in states] + out

    def only_variant_left(self, st, t):
        ty = self.type_of(t)
        if not ty:
            return False
        e = self.m.find_enum(head(ty[0]), ty[1])
        if not e:
            return False
        left = [v["n"] for v in e[1]["vs"] if st.facts.get(T("is", t, v["n"])) is not False]
        return len(left) == 0

    # ---- literals, constants -------------------------------------------------------------------
    def lit(self, e):
        t = e["t"]
        if t == "int":
            return C(int(e["v"]))
        if t == "bool":
            return C(bool(e["v"]))
        if t == "str":
            return C(e["v"])
        if t == "bytes":
            return T("c", bytes(e["v"]), "bytes")
        if t == "char":
            return T("c", e["v"], "char")
        return T("lit", str(e["v"]))

    def alias_int(self, name, fr):
        """the integer type an imported or local alias stands for"""
        c = fr.crate
        for _ in range(4):
            al = c.types.get(name)
            if al is None:
                up = c.uses.get(fr.file, {}).get(name)
                c2 = self.m.crates.get(up[0].replace("_", "-")) if up else None
                al = c2.types.get(name) if c2 else None
                c = c2 or c
            h = head(al["t"]) if al else None
            if h in ("u8", "u16", "u32", "u64", "u128", "usize"):
                return h
            if h is None:
                return None
            name = h
        return None

    def const(self, segs, fr):
        name = segs[-1]["n"]
        cands = []
        c = fr.crate
        if len(segs) >= 2 and segs[-2]["n"] in ("Self",) and (fr.self_ty, name) in c.consts:
            cands = [(c, c.consts[(fr.self_ty, name)])]
        elif len(segs) >= 2 and (segs[-2]["n"], name) in c.consts:
            cands = [(c, c.consts[(segs[-2]["n"], name)])]
        elif len(segs) >= 2 and segs[-2]["n"] in ("u8", "u16", "u32", "u64", "u128", "usize") and name in ("MAX", "MIN"):
            if name == "MIN":
                return ZERO
            return C(2 ** {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "u128": 128, "usize": 64}[segs[-2]["n"]] - 1)
        elif len(segs) == 2 and name in ("MAX", "MIN") and self.alias_int(segs[-2]["n"], fr):
            return self.const([{"n": self.alias_int(segs[-2]["n"], fr)}, {"n": name}], fr)
        elif name in c.consts:
            cands = [(c, c.consts[name])]
        else:
            for c2 in self.m.crates.values():
                if name in c2.consts:
                    cands.append((c2, c2.consts[name]))
            if len(cands) > 1:
                # imported path decides
                up = c.uses.get(fr.file, {}).get(name)
                if up:
                    base = up[0].replace("_", "-")
                    cc = [x for x in cands if x[0].name == base]
                    cands = cc or cands
        if len(cands) >= 1:
            c2, it = cands[0]
            key = (c2.name, name if not isinstance(name, tuple) else name, id(it))
            if key in self.const_cache:
                return self.const_cache[key]
            self.const_cache[key] = T("const", name)
            own = None
            if len(segs) >= 2:
                h = fr.self_ty if segs[-2]["n"] == "Self" else segs[-2]["n"]
                if c2.consts.get((h, name)) is it:
                    own = h
            f2 = Frame(fr.fn, own, c2, it["file"], fr.depth + 1)
            try:
                outs = self.ev(it["e"], St(), f2, {})
                if len(outs) == 1 and isT(outs[0][1]):
                    self.const_cache[key] = outs[0][1]
            except Limit:
                pass
            return self.const_cache[key]
        return T("const", "::".join(s["n"] for s in segs[-2:]))

    # ---- expressions ---------------------------------------------------------------------------
    def ev1(self, e, st, fr, scope):
        outs = self.ev(e, st, fr, scope)
        if len(outs) == 1:
            return self.tt(outs[0][0], outs[0][1])
        return T("opaque")

    def evs(self, es, st, fr, scope):
        """evaluate a list of expressions left to right -> [(st, [vals])]"""
        acc = [(st, [])]
        for e in es:
            nxt = []
            for s, vs in acc:
                for s2, v in self.ev(e, s, fr, scope):
                    nxt.append((s2, vs + [v]))
            acc = nxt
            self.chk(acc)
        return acc

    def chk(self, l):
        if len(l) > MAXSTATES:
            raise Limit("too many trace classes")
        if self.deadline and time.time() > self.deadline:
            raise Limit("time")

    def ev(self, e, st, fr, scope):
        self.nodes_visited += 1
        k = e["k"]
        f = getattr(self, "x_" + k, None)
        if f is None:
            return [(st, T("opaque", e.get("s", k)))]
        return f(e, st, fr, scope)

    def x_Lit(self, e, st, fr, scope):
        return [(st, self.lit(e))]

    def x_Path(self, e, st, fr, scope):
        segs = e["p"]
        if len(segs) == 1 and "q" not in e:
            n = segs[0]["n"]
            if n in scope:
                v = st.env.get(scope[n], T("undef", n))
                if isinstance(v, IterV):
                    return [(st, v)]
                return [(st, v)]
            if n == "None":
                return [(st, NONE)]
            if n in ("Some", "Ok", "Err"):
                return [(st, FnVal(e, fr))]
            if n == "self":
                return [(st, T("self"))]
        n = segs[-1]["n"]
        if n == "None":
            return [(st, NONE)]
        if (n.replace("_", "").isupper() and len(n) > 1 or (n.isupper()) or (len(segs) == 1 and n in fr.crate.consts)) and not self.enum_variant(segs, fr):
            return [(st, self.const(segs, fr))]
        # unit struct / unit variant / function value
        if n[0].isupper():
            if len(segs) >= 2 and segs[-2]["n"] in ("Error",):
                return [(st, T("error", n))]
            if len(segs) >= 2 and segs[-2]["n"] in ("InvalidTransaction", "UnknownTransaction"):
                return [(st, T("bad", T("error", n)))]
            # tuple variant used as function value
            if self.is_struct_path(segs, fr):
                sj = self.m.find_struct(n if n != "Self" else fr.self_ty, fr.crate)
                if sj and sj[1]["f"]:
                    return [(st, FnVal(e, fr))]
                return [(st, T("struct", n if n != "Self" else fr.self_ty, ()))]
            ej = self.m.find_enum(segs[-2]["n"] if len(segs) > 1 and segs[-2]["n"] != "Self" else (fr.self_ty if len(segs) > 1 else (fr.crate.variants.get(n, [None])[0])), fr.crate)
            if ej:
                for v in ej[1]["vs"]:
                    if v["n"] == n and v["f"] and v["tuple"]:
                        return [(st, FnVal(e, fr))]
            return [(st, T("var", n, ()))]
        return [(st, FnVal(e, fr))]

    def x_Ref(self, e, st, fr, scope):
        if e["m"]:
            pl = self.place(e["e"], st, fr, scope)
            if pl is not None:
                return [(s, r) for s, r in pl]
        return [(s, (self.deref(s, v))) for s, v in self.ev(e["e"], st, fr, scope)]

    def locked(self, e, st, fr, scope):
        """the place a lock guards, when e denotes a lock: its guard stands for the value itself"""
        if e["k"] not in ("Field", "Path"):
            return None
        b = self.place(e, st, fr, scope)
        for s, r in b or ():
            ty = self.type_of(self.tt(s, self.read(s, r)))
            if ty is None or head(ty[0]) not in ("RwLock", "Mutex"):
                return None
        return b

    def place(self, e, st, fr, scope):
        """-> [(st, Ref)] when e denotes a place rooted at a local variable, else None"""
        k = e["k"]
        if k == "Path" and len(e["p"]) == 1 and e["p"][0]["n"] in scope and "q" not in e:
            var = scope[e["p"][0]["n"]]
            v = st.env.get(var)
            if isinstance(v, Ref):
                return [(st, v)]
            return [(st, Ref(var))]
        if k == "Path" and len(e["p"]) == 1 and e["p"][0]["n"] == "self" and "self" in scope:
            var = scope["self"]
            v = st.env.get(var)
            if isinstance(v, Ref):
                return [(st, v)]
            return [(st, Ref(var))]
        if k == "Field":
            b = self.place(e["e"], st, fr, scope)
            if b is None:
                return None
            return [(s, Ref(r.var, r.proj + (("f", e["n"]),))) for s, r in b]
        if k == "Unary" and e["o"] == "*":
            return self.place(e["e"], st, fr, scope)
        if k == "Method" and e["m"] in ("as_mut", "as_mut_slice", "borrow_mut", "deref_mut", "by_ref", "iter_mut_ref"):
            return self.place(e["r"], st, fr, scope)
        if k == "Method" and e["m"] in ("write", "lock", "read") and not e["a"]:
            return self.locked(e["r"], st, fr, scope)
        if k == "Method" and e["m"] in ("or_insert", "or_default", "or_insert_with") and e["r"]["k"] == "Method" and e["r"]["m"] == "entry":
            b = self.place(e["r"]["r"], st, fr, scope)
            if b is None:
                return None
            out = []
            for s, r in b:
                for s2, iv in self.ev(e["r"]["a"][0], s, fr, scope):
                    bt = self.read(s2, r)
                    out.append((s2, Ref(r.var, r.proj + (("elem", T("idx", self.tt(s2, bt), self.tt(s2, iv))),))))
            return out
        if k == "Method" and e["m"] in ("get_or_insert_with", "get_or_insert", "get_or_insert_default"):
            # the option is filled first
            b = self.place(e["r"], st, fr, scope)
            if b is None:
                return None
            out = []
            for s, r in b:
                for s1, had in self.test(T("good?", self.tt(s, self.read(s, r))), s):
                    if had:
                        out.append((s1, Ref(r.var, r.proj + (("unw",),))))
                        continue
                    if not e["a"]:
                        new = [(s1, T("default", "?"))]
                    else:
                        new = []
                        for s2, vs in self.evs(e["a"], s1, fr, scope):
                            new.extend(self.call(vs[0], [], s2, fr) if e["m"] == "get_or_insert_with" else [(s2, vs[0])])
                    for s2, v in new:
                        s2 = s2.copy()
                        self.write(s2, r, some(self.inner_default(self.read(s1, r), self.tt(s2, v))))
                        out.append((s2, Ref(r.var, r.proj + (("unw",),))))
            return out
        if k == "Index":
            b = self.place(e["e"], st, fr, scope)
            if b is None:
                return None
            out = []
            for s, r in b:
                for s2, iv in self.ev(e["i"], s, fr, scope):
                    bt = self.read(s2, r)
                    self.indexed.append((s2, "index", self.tt(s2, bt), self.tt(s2, iv), fr.fn, e))
                    out.append((s2, Ref(r.var, r.proj + (("elem", self.slot(self.tt(s2, bt), self.tt(s2, iv))),))))
            return out
        return None

    def x_Unary(self, e, st, fr, scope):
        o = e["o"]
        out = []
        for s, v in self.ev(e["e"], st, fr, scope):
            if o == "*":
                out.append((s, self.deref(s, v)))
            elif o == "!":
                t = self.tt(s, v)
                if t.op == "c" and t.args[1] == "bool":
                    out.append((s, C(not t.args[0])))
                elif t.op == "not":
                    out.append((s, t.args[0]))
                else:
                    out.append((s, T("not", t)))
            elif o == "-":
                t = self.tt(s, v)
                out.append((s, C(-t.args[0]) if isint(t) else T("neg", t)))
            else:
                out.append((s, T("un", o, self.tt(s, v))))
        return out

    def x_Binary(self, e, st, fr, scope):
        o = e["o"]
        if o in ("&&", "||"):
            out = []
            for s, b, _ in self.cond(e, st, fr, scope):
                out.append((s, C(b)))
            return out
        if o.endswith("=") and o not in ("==", "!=", "<=", ">="):
            return self.opassign(e, o[:-1], st, fr, scope)
        out = []
        for s, vs in self.evs([e["a"], e["b"]], st, fr, scope):
            a, b = self.tt(s, vs[0]), self.tt(s, vs[1])
            if a.op == "panic" or b.op == "panic":
                continue
            if o in ("==", "!=") and any(x.op == "good" and x.args and x.args[0] in (TRUE, FALSE) for x in (a, b)):
                # x == Some(true) as a value is x's payload or its negation when there is one, false otherwise
                x, y = (a, b) if b.op == "good" and b.args[0] in (TRUE, FALSE) else (b, a)
                for s2, had in self.test(T("good?", x), s):
                    r = self.unw(x) if had else None
                    if not had:
                        out.append((s2, C(o == "!=")))
                    else:
                        out.append((s2, r if (y.args[0] == TRUE) == (o == "==") else T("not", r)))
                continue
            out.append((s, self.binop(o, a, b, s, fr, e)))
        return out

    def binop(self, o, a, b, st, fr, e):
        if o == "==":
            return mkeq(a, b) if not (a.op == "c" and b.op == "c") else C(a.args[0] == b.args[0])
        if o == "!=":
            return T("not", mkeq(a, b)) if not (a.op == "c" and b.op == "c") else C(a.args[0] != b.args[0])
        if o == "<":
            return mklt(a, b)
        if o == ">":
            return mklt(b, a)
        if o == "<=":
            return T("not", mklt(b, a))
        if o == ">=":
            return T("not", mklt(a, b))
        if o in ("/", "%") and not isint(b):
            self.indexed.append((st, "div", a, b, fr.fn, e))
        return arith(o, a, b)

    def opassign(self, e, o, st, fr, scope):
        out = []
        for s, v in self.ev(e["b"], st, fr, scope):
            pl = self.place(e["a"], s, fr, scope)
            if pl is None:
                for s2, _ in self.ev(e["a"], s, fr, scope):
                    out.append((s2, UNIT))
                continue
            for s2, r in pl:
                cur = self.tt(s2, self.read(s2, r))
                nv = self.binop(o, cur, self.tt(s2, v), s2, fr, e)
                s3 = s2.copy()
                self.noteset(s3, fr, e, cur, nv)
                self.write(s3, r, nv)
                out.append((s3, UNIT))
        return out

    def noteset(self, st, fr, e, cur, nv):
        """an assignment through a guard or a reference handed out by a container outside the function"""
        if e["a"]["k"] == "Unary" and e["a"]["o"] == "*" and outer(cur):
            st.fx = st.fx + (Eff("set", "deref", (cur, nv), st.ctx, fr.fn, e.get("l"), st.facts, None),)

    def x_Assign(self, e, st, fr, scope):
        out = []
        for s, v in self.ev(e["b"], st, fr, scope):
            if e["a"]["k"] == "Path" and e["a"]["p"][-1]["n"] == "_" or e["a"]["k"] == "Other":
                out.append((s, UNIT))
                continue
            if e["a"]["k"] == "Tuple":
                s2 = s.copy()
                t = self.tt(s2, v)
                for i, x in enumerate(e["a"]["a"]):
                    pl = self.place(x, s2, fr, scope)
                    if pl:
                        self.write(s2, pl[0][1], self.fld(t, i))
                out.append((s2, UNIT))
                continue
            pl = self.place(e["a"], s, fr, scope)
            if pl is None:
                for s2, _ in self.ev(e["a"], s, fr, scope):
                    out.append((s2, UNIT))
                continue
            for s2, r in pl:
                s3 = s2.copy()
                deref = e["a"]["k"] == "Unary" and e["a"]["o"] == "*"
                if isinstance(v, Ref) and not deref and not r.proj:
                    # rebinding a reference variable
                    s3.env[r.var] = v
                else:
                    if e["a"]["k"] == "Path" and not deref:
                        # plain variable assignment (variable itself may hold a Ref)
                        s3.env[scope[e["a"]["p"][0]["n"]]] = v
                    else:
                        nv = v if not isinstance(v, Ref) else self.read(s3, v)
                        if deref:
                            self.noteset(s3, fr, e, self.tt(s3, self.read(s3, r)), self.tt(s3, nv))
                        self.write(s3, r, nv)
                out.append((s3, UNIT))
        return out

    def x_Field(self, e, st, fr, scope):
        out = []
        pl = self.place(e, st, fr, scope)
        if pl is not None:
            for s, r in pl:
                out.append((s, self.read(s, r)))
            return out
        for s, v in self.ev(e["e"], st, fr, scope):
            out.append((s, self.fld(self.tt(s, v), e["n"])))
        return out

    def x_Index(self, e, st, fr, scope):
        out = []
        for s, vs in self.evs([e["e"], e["i"]], st, fr, scope):
            b, i = self.tt(s, vs[0]), self.tt(s, vs[1])
            self.indexed.append((s, "index", b, i, fr.fn, e))
            out.append((s, self.index(b, i)))
        return out

    def slot(self, b, i):
        if i.op == "pos" and i.args[0] is b and len(i.args) > 1:
            return i.args[1]
        return T("idx", b, i)

    def index(self, b, i):
        if b.op == "vec" and isint(i) and i.args[0] < len(b.args):
            return b.args[i.args[0]]
        if i.op == "range":
            if len(i.args) == 2 and isint(i.args[0]) and i.args[0].args[0] == 0 and isT(i.args[1]) and i.args[1].op == "none":
                return b
            if b.op == "slice" and len(b.args) == 2 and b.args[1].op == "range" and isint(b.args[1].args[0]) and all(isint(x) or x is NONE for x in i.args) and b.args[1].args[1] is NONE:
                n = b.args[1].args[0].args[0]      # a part of what follows the first n
                return T("slice", b.args[0], T("range", C(n + (0 if i.args[0] is NONE else i.args[0].args[0])), NONE if i.args[1] is NONE else C(n + i.args[1].args[0])))
            return T("slice", b, i)
        if i.op == "pos" and i.args[0] is b:
            return i.args[1] if len(i.args) > 1 else T("elem", b)
        if i.op == "elem" and i.args[0].op == "range":
            r = i.args[0]
            if r.args[0] is ZERO and r.args[1] is T("len", b):
                el = T("elem", b)
                return el
        if b.op == "slice" and b.args[1].op == "range" and b.args[1].args[0].op == "elem":
            return self.index(b.args[0], arith("+", b.args[1].args[0], i))
        return T("idx", b, i)

    def x_Cast(self, e, st, fr, scope):
        out = []
        h = head(e["t"])
        for s, v in self.ev(e["e"], st, fr, scope):
            t = self.tt(s, v)
            if h in ("u8", "u16", "u32", "i32", "i8", "i16", "u64") and not isint(t):
                out.append((s, T("as", h, t)))
            else:
                out.append((s, t))
        return out

    def x_Tuple(self, e, st, fr, scope):
        return [(s, T("tup", *[self.tt(s, v) for v in vs])) for s, vs in self.evs(e["a"], st, fr, scope)]

    def x_Array(self, e, st, fr, scope):
        return [(s, T("vec", *[self.tt(s, v) for v in vs])) for s, vs in self.evs(e["a"], st, fr, scope)]

    def x_Repeat(self, e, st, fr, scope):
        return [(s, T("rep", self.tt(s, vs[0]), self.tt(s, vs[1]))) for s, vs in self.evs([e["e"], e["n"]], st, fr, scope)]

    def x_Range(self, e, st, fr, scope):
        es = [x for x in (e["s"], e["e"]) if x]
        out = []
        for s, vs in self.evs(es, st, fr, scope):
            vs = [self.tt(s, v) for v in vs]
            lo = vs.pop(0) if e["s"] else ZERO
            hi = vs.pop(0) if e["e"] else NONE
            if e["incl"] and hi is not NONE:
                hi = add(hi, ONE)
            out.append((s, T("range", lo, hi)))
        return out

    def x_Struct(self, e, st, fr, scope):
        es = [x for _, x in e["f"]]
        rest = e.get("rest")
        if rest:
            es = es + [rest]
        out = []
        n = e["p"][-1]["n"]
        if n == "Self":
            n = fr.self_ty
        isst = self.is_struct_path(e["p"], fr)
        for s, vs in self.evs(es, st, fr, scope):
            vs = [self.tt(s, v) for v in vs]
            if any(v.op == "panic" for v in vs):
                continue
            fs = tuple(sorted((k, v) for (k, _), v in zip(e["f"], vs)))
            if rest:
                base = vs[-1]
                t = base
                if base.op == "default":
                    # ..Default::default(): expand known fields
                    t = T("default", n)
                for k2, v2 in fs:
                    t = self.setfld(t, k2, v2)
                out.append((s, t))
            elif isst:
                out.append((s, T("struct", n, fs)))
            else:
                out.append((s, T("varst", n, fs)))
        return out

    def x_Closure(self, e, st, fr, scope):
        return [(st, Clo(e, scope, fr))]

    def x_Async(self, e, st, fr, scope):
        return self.block(e["b"], st, fr, scope)

    def x_Await(self, e, st, fr, scope):
        return self.ev(e["e"], st, fr, scope)

    def x_Block(self, e, st, fr, scope):
        if e.get("label"):
            lp = {"brk": [], "cont": [], "label": e["label"], "blk": True}
            fr.loops.append(lp)
            out = self.block(e["b"], st, fr, scope)
            fr.loops.pop()
            return out + lp["brk"]
        return self.block(e["b"], st, fr, scope)

    def block(self, stmts, st, fr, scope):
        """evaluate a block -> [(st, value)]"""
        scope = dict(scope)
        states = [st]
        last = UNIT
        n = len(stmts)
        for idx, s in enumerate(stmts):
            self.stmts += 1
            k = s["k"]
            if k == "Item":
                self.local_item(s["i"], fr, scope)
                continue
            if k == "Local":
                nxt = []
                sc_else = dict(scope)
                newscope = dict(scope)
                self.alloc(s["p"], newscope)
                if "e" not in s:
                    # deferred initialisation
                    scope = newscope
                    continue
                for st1 in states:
                    for st2, v in self.scrut(s["e"], (s["p"],), st1, fr, scope):
                        if isT(v) and v.op == "panic":
                            continue
                        for st3, ok in self.match(s["p"], v, st2, fr, newscope):
                            if ok:
                                nxt.append(st3)
                            elif "else" in s:
                                # diverges
                                self.ev(s["else"], st3, fr, sc_else)
                scope = newscope
                states = self.compact(nxt, fr)
                continue
            # expression statement
            nxt = []
            islast = idx == n - 1 and not s.get("semi")
            res = []
            for st1 in states:
                res.extend(self.ev(s["e"], st1, fr, scope))
            res = [(a, b) for a, b in res if not (isT(b) and b.op == "panic")]
            if islast:
                if len(res) > self.compact_at and all(isT(b) for _, b in res):
                    res = self.merge(res, st)
                self.chk(res)
                return res
            states = self.compact([a for a, _ in res], fr)
        if len(states) > self.compact_at:
            return self.merge([(s, UNIT) for s in states], st)
        return [(s, UNIT) for s in states]

    def compact(self, states, fr):
        if len(states) > self.compact_at:
            states = [s for s, _ in self.merge([(s, UNIT) for s in states], None)]
        self.chk(states)
        return states

    def merge(self, pairs, before):
        """merge trace classes with identical effects (reads aside), environment, store and value: intersect the facts"""
        d = {}
        keep = before.env.keys() if before is not None else None
        for s, v in pairs:
            env = s.env if keep is None else {k: x for k, x in s.env.items() if k in keep}
            fk = tuple(x.key() for x in s.fx if x.kind not in ("load", "iter", "read", "readargs", "origin"))
            key = (fk, tuple(sorted((k, id(x)) for k, x in env.items())), tuple(sorted((repr(k), id(x)) for k, x in s.store.items())), id(v))
            if key in d:
                o = d[key][0]
                o.facts = merge_facts(o.facts, s.facts)
                self.merged += 1
            else:
                s = s.copy()
                s.env = dict(env)
                d[key] = (s, v)
        return list(d.values())

    def local_item(self, i, fr, scope):
        if i["k"] == "Const":
            i["file"] = fr.file
            fr.crate.consts.setdefault(i["n"], i)
        elif i["k"] == "Fn":
            from .model import mkfn
            if i["n"] not in fr.crate.fns:
                fr.crate.fns.setdefault(i["n"], []).append(mkfn(fr.crate, fr.file, i, None, None, None))

    def x_If(self, e, st, fr, scope):
        out = []
        for s, b, sc in self.cond(e["c"], st, fr, scope):
            if b:
                out.extend(self.block(e["t"], s, fr, sc))
            elif "e" in e:
                out.extend(self.ev(e["e"], s, fr, scope))
            else:
                out.append((s, UNIT))
        self.chk(out)
        return out

    def x_Let(self, e, st, fr, scope):
        return [(s, C(b)) for s, b, _ in self.cond(e, st, fr, scope)]

    def scrut(self, e, pats, st, fr, scope):
        """the value a pattern is matched against: the place itself when the pattern borrows parts of it mutably"""
        if any(refmut(p) for p in pats):
            b = self.place(e, st, fr, scope)
            if b is not None:
                return b
        return self.ev(e, st, fr, scope)

    def x_Match(self, e, st, fr, scope):
        out = []
        se = e["e"]
        start = None
        # matching on a place keeps it a place (for `ref mut`/default binding modes only when it is a Ref)
        for s0, v in self.scrut(se, [a["p"] for a in e["arms"]], st, fr, scope):
            pend = [s0]
            for arm in e["arms"]:
                if not pend:
                    break
                sc = dict(scope)
                self.alloc(arm["p"], sc)
                nxt = []
                for s in pend:
                    for s2, ok in self.match(arm["p"], v, s, fr, sc):
                        if not ok:
                            nxt.append(s2)
                            continue
                        if arm.get("g"):
                            for s3, b, sc3 in self.cond(arm["g"], s2, fr, sc):
                                if b:
                                    out.extend(self.ev(arm["b"], s3, fr, sc3))
                                else:
                                    nxt.append(s3)
                        else:
                            got = self.ev(arm["b"], s2, fr, sc)
                            if len(e["arms"]) == 2 and any(isT(w) and w.op == "default" and w.args[0] == "?" for _, w in got):
                                got = [(s4, self.inner_default(self.tt(s2, v), w)) for s4, w in got]
                            out.extend(got)
                pend = nxt
        self.chk(out)
        return out

    def x_Try(self, e, st, fr, scope):
        out = []
        for s, v in self.ev(e["e"], st, fr, scope):
            if type(v) is SomeRef:
                out.append((s, Ref(v.var, v.proj)))
                continue
            t = self.tt(s, v)
            if t.op == "panic":
                continue
            if t.op == "good":
                out.append((s, Ref(v.var, v.proj + (("unw",),)) if isinstance(v, Ref) else t.args[0]))
                continue
            if t.op in ("bad", "none"):
                fr.rets.append((s, t))
                continue
            for val in (True, False):
                s2 = self.assume(s, T("good?", t), val)
                if s2 is None:
                    continue
                if val:
                    u = Ref(v.var, v.proj + (("unw",),)) if isinstance(v, Ref) else self.unw(t)
                    out.append((s2, u))
                else:
                    fr.rets.append((s2, NONE if fr.optret else err(T("errof", t))))
        self.chk(out)
        return out

    def x_Return(self, e, st, fr, scope):
        if "e" in e:
            for s, v in self.ev(e["e"], st, fr, scope):
                fr.rets.append((s, v))
        else:
            fr.rets.append((st, UNIT))
        return []

    def findloop(self, fr, label):
        if label:
            for l in reversed(fr.loops):
                if l.get("label") == label:
                    return l
        for l in reversed(fr.loops):
            if not l.get("blk"):
                return l
        return {"brk": [], "cont": []}

    def x_Break(self, e, st, fr, scope):
        lp = self.findloop(fr, e.get("label"))
        if "e" in e:
            for s, v in self.ev(e["e"], st, fr, scope):
                lp["brk"].append((s, v))
        else:
            lp["brk"].append((st, UNIT))
        return []

    def x_Continue(self, e, st, fr, scope):
        self.findloop(fr, e.get("label"))["cont"].append(st)
        return []

    # ---- loops ---------------------------------------------------------------------------------
    def changed_vars(self, before, states):
        ch = set()
        for s in states:
            for k, v in before.env.items():
                if s.env.get(k) is not v:
                    ch.add(k)
        return ch

    def root(self, t):
        while t.op == "upd":
            t = t.args[0]
        return t

    def hv(self, b, afters, tag, d=0):
        """field-sensitive loop-carried abstraction of value b, given its values at the end of an iteration"""
        afters = [a for a in afters if a is not b]
        if not afters:
            return b
        if d < 8:
            if all(a.op == "good" for a in afters) and b.op not in ("none", "bad"):
                return some(self.hv(self.unw(b), [a.args[0] for a in afters], tag, d + 1))
            rb = self.root(b)
            if all(self.root(a) is rb for a in afters) and any(a.op == "upd" for a in afters) or (
                    b.op == "struct" and all(a.op == "struct" and a.args[0] == b.args[0] for a in afters)):
                keys = set()
                for a in afters + [b]:
                    x = a
                    while x.op in ("upd", "struct"):
                        keys.update(k for k, _ in x.args[1])
                        if x.op == "struct":
                            break
                        x = x.args[0]
                r = b
                for k in sorted(keys):
                    fb = self.fld(b, k)
                    r = self.setfld(r, k, self.hv(fb, [self.fld(a, k) for a in afters], tag, d + 1))
                return r
            if b.op == "tup" and all(a.op == "tup" and len(a.args) == len(b.args) for a in afters):
                return T("tup", *[self.hv(x, [a.args[i] for a in afters], tag, d + 1) for i, x in enumerate(b.args)])
        if b.op == "phi" and b.args[1] is tag:
            return b
        # two carried values with the same start are different values
        t = T("phi", b, tag)
        n = 0
        while t in self.phis:
            n += 1
            t = T("phi", b, tag, C(n))
        self.phis.add(t)
        return t

    def havoc(self, st, vars_, stores, tag, ends=()):
        s = st.copy()
        self.phis = {x for v in s.env.values() if isT(v) for x in subterms(v) if x.op == "phi" and x.args[1] is tag}
        for v in sorted(vars_, key=lambda x: int(x.split("#")[1]) if "#" in x and x.split("#")[1].isdigit() else 0):
            cur = s.env.get(v)
            ct = self.tt(s, cur) if cur is not None else T("undef", v.split("#")[0])
            if isinstance(cur, Ref):
                continue
            s.env[v] = self.hv(ct, [self.tt(x, x.env[v]) for x in ends if v in x.env], tag)
        for k in stores:
            s.ep[k] = s.ep.get(k, 0) + 1
            s.store = {kk: vv for kk, vv in s.store.items() if kk[0] != k}
        return s

    def stores_written(self, before, states):
        out = set()
        nb = len(before.fx)
        for s in states:
            for e in s.fx[nb:]:
                if e.kind in ("put", "del"):
                    out.add(e.name)
        return out

    def fold_ends(self, st, ends, tag, leave=False):
        """split_loops mode: record every iteration as its own trace class; one abstract state continues after the loop"""
        if not self.split_loops or not ends:
            return ends
        ch = self.changed_vars(st, ends)
        for s in ends:
            s = s.copy()
            # the value every loop-carried variable has at the end of this iteration
            for v in sorted(ch):
                if v in s.env and not isinstance(s.env[v], Ref):
                    s.fx = s.fx + (Eff("carry", v.split("#")[0], (self.tt(s, s.env[v]),), s.ctx, None, 0, s.facts),)
            if leave:
                s.fx = s.fx + (Eff("leave", "loop", (), s.ctx, None, 0, s.facts),)
            self.loop_traces.append(Trace(s, "loop", UNIT))
        stw = self.stores_written(st, ends)
        s = self.havoc(st, ch, stw, tag, ends)
        s.facts = dict(s.facts)
        s.ctx = st.ctx + (tag,)
        return [s]

    def loop_body(self, st, fr, body, tag):
        """body: f(state)->list of states at the end of an iteration (incl. continue).
        returns (end states of an arbitrary iteration, break states)"""
        lp = fr.loops[-1]
        nrets = len(fr.rets)
        s0 = st.copy()
        s0.ctx = st.ctx + (tag,)
        ends = body(s0) + lp["cont"]
        allst = ends + [s for s, _ in lp["brk"]]
        ch = self.changed_vars(st, ends)
        stw = self.stores_written(st, ends)
        if ch or stw:
            # second pass with loop-carried values abstracted
            del fr.rets[nrets:]
            lp["cont"] = []
            lp["brk"] = []
            s0 = self.havoc(st, ch, stw, tag, allst)
            s0.ctx = st.ctx + (tag,)
            ends = body(s0) + lp["cont"]
        return ends, lp["brk"]

    def exit_ctx(self, st, ctx):
        s = st.copy()
        s.ctx = ctx
        return s

    def iterate(self, it, st, fr, body, tag=None, mutref=None):
        """abstract iteration.  body(state, elem) -> [states] ; returns [(state)] after the loop, breaks included"""
        base = it.base
        if base.op == "default":
            # the default of a collection is empty
            return [st], []
        if base.op == "vec" and not it.stages and len(base.args) <= 3:
            states = [st]
            lp = {"brk": [], "cont": [], "label": fr.nextlabel if hasattr(fr, "nextlabel") else None}
            fr.loops.append(lp)
            for el in base.args:
                nxt = []
                for s in states:
                    lp["cont"] = []
                    nxt.extend(body(s, el))
                    nxt.extend(lp["cont"])
                states = nxt
            fr.loops.pop()
            return states, lp["brk"]
        self.loopn += 1
        tag = T("loop", base)
        res = []
        brks = []
        lab = getattr(fr, "nextlabel", None)
        fr.nextlabel = None
        # no iteration
        if base.op == "range":
            empt = T("not", mklt(base.args[0], base.args[1])) if base.args[1] is not NONE else FALSE
        else:
            empt = T("empty", base)
        for s, b in self.test(empt, st):
            if b:
                res.append(s)
                continue
            nrets = len(fr.rets)
            lp = {"brk": [], "cont": [], "label": lab}
            fr.loops.append(lp)

            def one(s1):
                out = []
                for s2, el in self.next_elem(it, s1, fr, mutref):
                    if el is None:
                        out.append(s2)   # filtered out
                    else:
                        out.extend(body(s2, el))
                return out
            ends, bs = self.loop_body(s, fr, one, tag)
            fr.loops.pop()
            ends = self.fold_ends(s, ends, tag)
            bs = [(x, v) for x, v in bs] if not self.split_loops else [(x, UNIT) for x in self.fold_ends(s, [y for y, _ in bs], tag, True)]
            if not self.split_loops:
                # the loop is left before its last element: say so
                bs = [(self.stopped(x, s.ctx + (tag,)), v) for x, v in bs]
                fr.rets[nrets:] = [(self.stopped(y[0], s.ctx + (tag,)),) + tuple(y[1:]) for y in fr.rets[nrets:]]
            res.extend(self.exit_ctx(x, s.ctx) for x in ends)
            brks.extend((self.exit_ctx(x, s.ctx), v) for x, v in bs)
        return res, brks

    def stopped(self, st, ctx):
        s = st.copy()
        s.fx = s.fx + (Eff("stop", "loop", (), ctx, None, 0, s.facts),)
        return s

    def next_elem(self, it, st, fr, mutref=None):
        """-> [(state, elem or None)] applying stages"""
        el = T("elem", it.base)
        if mutref is None:
            mutref = it.ref
        win = None
        if it.base.op == "mc" and it.base.args[0] == "windows" and isint(it.base.args[2][0]):
            # the i-th window of length k is v[i..i + k]
            v, k = it.base.args[1], it.base.args[2][0]
            win = T("elem", T("range", ZERO, arith("-", T("len", v), C(k.args[0] - 1))))
            el = T("slice", v, T("range", win, arith("+", win, k)))
        if it.base.op == "zipped":
            el = T("tup", *[T("elem", x) for x in it.base.args])
        if mutref is not None:
            el = Ref(mutref.var, mutref.proj + (("elem", el),))
        acc = [(st, el)]
        for sg in it.stages:
            k = sg[0]
            nxt = []
            for s, x in acc:
                if x is None:
                    nxt.append((s, None))
                    continue
                if k == "image":
                    nxt.append((s, sg[1]))
                elif k == "map":
                    nxt.extend(self.call(sg[1], [x], s, fr))
                elif k in ("filter", "take_while", "skip_while"):
                    for s2, v in self.call(sg[1], [x], s, fr):
                        for s3, b in self.test(self.tt(s2, v), s2):
                            nxt.append((s3, x if b else None))
                elif k in ("filter_map", "map_while"):
                    for s2, v in self.call(sg[1], [x], s, fr):
                        t = self.tt(s2, v)
                        for s3, b in self.test(T("good?", t), s2):
                            nxt.append((s3, self.unw(t) if b else None))
                elif k == "enumerate":
                    nxt.append((s, T("tup", win or T("pos", it.base), self.tt(s, x))))
                elif k == "zip":
                    nxt.append((s, T("tup", self.tt(s, x), T("elem", sg[1]))))
                elif k == "inspect":
                    nxt.extend((s2, x) for s2, _ in self.call(sg[1], [x], s, fr))
                elif k == "flat_map":
                    for s2, v in self.call(sg[1], [x], s, fr):
                        nxt.append((s2, T("elem", self.tt(s2, v))))
                elif k == "flatten":
                    t = self.tt(s, x)
                    nxt.append((s, T("elem", t)))
                else:   # rev, skip, take, chain, step_by: element unchanged
                    nxt.append((s, x))
            acc = nxt
        return acc

    def to_iter(self, st, v):
        if isinstance(v, IterV):
            return v
        t = self.tt(st, v)
        if t.op == "slice" and len(t.args) == 2 and isT(t.args[1]) and t.args[1].op == "range" and isint(t.args[1].args[0]) and t.args[1].args[1] is NONE:
            # the elements from a position on
            return IterV(T("it", "skip", t.args[0], t.args[1].args[0]))
        return IterV(t)

    def x_For(self, e, st, fr, scope):
        out = []
        # `for x in v.iter_mut()` / `for x in &mut v`
        ie = e["e"]
        mutpl = None
        if ie["k"] == "Method" and ie["m"] in ("iter_mut", "values_mut"):
            mutpl = self.place(ie["r"], st, fr, scope)
        elif ie["k"] == "Ref" and ie["m"]:
            mutpl = self.place(ie["e"], st, fr, scope)
        srcs = []
        if mutpl:
            for s, r in mutpl:
                srcs.append((s, IterV(self.tt(s, self.read(s, r))), r))
        else:
            for s, v in self.ev(ie, st, fr, scope):
                srcs.append((s, self.to_iter(s, v), None))
        for s, it, r in srcs:
            if it.base.op == "panic":
                continue

            def body(s1, el):
                sc = dict(scope)
                self.alloc(e["p"], sc)
                res = []
                for s2, ok in self.match(e["p"], el, s1, fr, sc):
                    if ok:
                        res.extend(x for x, _ in self.block(e["b"], s2, fr, sc))
                return res
            fr.nextlabel = e.get("label")
            ends, brks = self.iterate(it, s, fr, body, mutref=r)
            out.extend((x, UNIT) for x in ends)
            out.extend((x, UNIT) for x, _ in brks)
        self.chk(out)
        return out

    def x_While(self, e, st, fr, scope):
        out = []
        self.loopn += 1
        c = e["c"]
        tag = T("loop", T("while", self.loopn))
        lp = {"brk": [], "cont": [], "label": e.get("label")}
        fr.loops.append(lp)

        def body(s1):
            res = []
            for s2, b, sc in self.cond(c, s1, fr, scope):
                if b:
                    res.extend(x for x, _ in self.block(e["b"], s2, fr, sc))
            return res
        # index-style loops: `while i < v.len()` are abstracted like every other loop
        nr = len(fr.rets)
        ends, brks = self.loop_body(st, fr, body, tag)
        ends = self.fold_ends(st, ends, tag)
        fr.loops.pop()
        # exit: condition false, either immediately or after an arbitrary iteration
        for s, b, _ in self.cond(c, st, fr, scope):
            if not b:
                out.append((s, UNIT))
        for s0 in ends:
            s1 = self.exit_ctx(s0, st.ctx)
            for s, b, _ in self.cond(c, s1, fr, scope):
                if not b:
                    out.append((s, UNIT))
                else:
                    # the next evaluation is a fresh value: drop the contradiction by abstraction
                    pass
        if ends and not any(True for s, _ in out if len(s.fx) > len(st.fx)) :
            for s0 in ends:
                s1 = self.exit_ctx(s0, st.ctx)
                out.append((s1, UNIT))
        out.extend((self.exit_ctx(x, st.ctx), UNIT) for x, _ in brks)
        self.chk(out)
        return out

    def x_Loop(self, e, st, fr, scope):
        self.loopn += 1
        tag = T("loop", T("while", self.loopn))
        lp = {"brk": [], "cont": [], "label": e.get("label")}
        fr.loops.append(lp)

        def body(s1):
            return [x for x, _ in self.block(e["b"], s1, fr, scope)]
        ends, brks = self.loop_body(st, fr, body, tag)
        out = [(self.exit_ctx(x, st.ctx), v) for x, v in brks]
        # one more arbitrary iteration after a completed one: only its breaks
        for s0 in ends[:50]:
            lp["brk"] = []
            lp["cont"] = []
            nr = len(fr.rets)
            body(s0)
            out.extend((self.exit_ctx(x, st.ctx), v) for x, v in lp["brk"])
        fr.loops.pop()
        self.chk(out)
        return out

    # ---- calls ---------------------------------------------------------------------------------
    def call(self, f, args, st, fr):
        """call a function value"""
        if isinstance(f, Ref):
            f = self.read(st, f)
        if isinstance(f, Clo):
            return self.call_closure(f, args, st, fr)
        if isinstance(f, FnVal):
            tmp = {"k": "Call", "f": f.node, "a": [], "l": f.node.get("l")}
            return self.call_path(f.node, args, st, f.fr, {}, tmp)
        t = f if isT(f) else T("opaque")
        return [(st, T("app", t, tuple(self.tt(st, a) for a in args)))]

    def call_closure(self, c, args, st, fr):
        if len(self.stack) > 60:
            return [(st, T("opaque"))]
        sc = dict(c.scope)
        f2 = Frame(c.fr.fn, c.fr.self_ty, c.fr.crate, c.fr.file, fr.depth + 1, fr)
        f2.optret = False
        states = [st]
        for p in c.node["a"]:
            self.alloc(p, sc)
        for p, a in zip(c.node["a"], args):
            nxt = []
            for s in states:
                nxt.extend(s2 for s2, ok in self.match(p, a, s, f2, sc) if ok)
            states = nxt
        out = []
        self.stack.append("closure")
        for s in states:
            out.extend(self.ev(c.node["b"], s, f2, sc))
        self.stack.pop()
        out.extend(f2.rets)
        self.chk(out)
        return out

    def inline(self, fn, args, self_val, st, fr, entry=False):
        depth = (fr.depth + 1) if fr else 0
        key = (fn.crate.name, fn.self_ty, fn.name, fn.trait)
        if not entry and (depth > MAXDEPTH or self.stack.count(key) > 0 or fn.body is None):
            return None
        self.stack.append(key)
        self.inlined.add(fn.qual)
        f2 = Frame(fn, fn.self_ty, fn.crate, fn.file, depth, fr, optret=head(fn.ret) == "Option")
        scope = {}
        s0 = st.copy()
        if fn.has_self:
            self.counter += 1
            scope["self"] = "self#%d" % self.counter
            s0.env[scope["self"]] = self_val
        states = [s0]
        for (p, t), a in zip(fn.params, args):
            self.alloc(p, scope)
            nxt = []
            for s in states:
                if isT(a):
                    self.settype(a, t, fn.crate)
                nxt.extend(s2 for s2, ok in self.match(p, a, s, f2, scope) if ok)
            states = nxt
        out = []
        try:
            for s in states:
                out.extend(self.block(fn.body, s, f2, scope))
        finally:
            self.stack.pop()
        out.extend(f2.rets)
        # collapse the error exits that differ only by which check failed
        res = []
        if depth > 1:
            seen = {}
            for s, v in out:
                if isT(v) and v.op in ("bad",):
                    k2 = (tuple(id(x) for x in s.fx), tuple(sorted((kk, id(vv)) for kk, vv in s.env.items() if kk in st.env)))
                    if k2 in seen:
                        seen[k2].facts = merge_facts(seen[k2].facts, s.facts)
                        continue
                    s = s.copy()
                    seen[k2] = s
                res.append((s, v))
        else:
            res = out
        if not entry and any(a["p"].split("::")[-1] == "transactional" for a in (fn.attrs or [])):
            res = self.rollback_on_err(st, res, f2, fn.name)
        # drop callee locals
        if not entry:
            keep = st.env.keys()
            for s, v in res:
                if not isinstance(v, (Clo, IterV, Ref)):
                    s.env = {k2: v2 for k2, v2 in s.env.items() if k2 in keep or isinstance(v2, Ref) and False}
        self.chk(res)
        if fn.ret is not None:
            for s, v in res:
                if isT(v) and v.op not in ("good", "bad", "c", "tup"):
                    self.settype(v, fn.ret, fn.crate)
        return res

    def rollback_on_err(self, before, outs, fr, name):
        """storage layer semantics: the effects of a failing outcome are undone"""
        res = []
        for s, v in outs:
            v = self.tt(s, v)
            cases = [(s, v)]
            if self.goodness(s, v) is None and v.op in ("call", "mc"):
                cases = []
                for val in (True, False):
                    s2 = self.assume(s, T("good?", v), val)
                    if s2 is not None:
                        cases.append((s2, v))
            for s2, v2 in cases:
                if self.goodness(s2, v2) is False and len(s2.fx) > len(before.fx):
                    s2 = s2.copy()
                    und = s2.fx[len(before.fx):]
                    s2.fx = before.fx + tuple(x for x in und if x.kind in ("load", "read", "iter", "origin"))
                    s2.store = dict(before.store)
                    s2.ep = dict(before.ep)
                    s2 = self.addfx(s2, fr, "rollback", name, (), None)
                res.append((s2, v2))
        return res

    def addfx(self, st, fr, kind, name, args, e, extra=None):
        s = st.copy()
        ef = Eff(kind, name, tuple(args), st.ctx, fr.fn, e.get("l") if isinstance(e, dict) else None, st.facts, extra)
        s.fx = st.fx + (ef,)
        return s

    def x_Call(self, e, st, fr, scope):
        f = e["f"]
        if f["k"] == "Path":
            segs = f["p"]
            # calling a local closure variable
            if len(segs) == 1 and "q" not in f and segs[0]["n"] in scope:
                out = []
                for s, vs in self.evs(e["a"], st, fr, scope):
                    out.extend(self.call(s.env.get(scope[segs[0]["n"]]), vs, s, fr))
                return out
            out = []
            for s, vs in self.evs(e["a"], st, fr, scope):
                if any(isT(v) and v.op == "panic" for v in vs):
                    continue
                out.extend(self.call_path(f, vs, s, fr, scope, e))
            self.chk(out)
            return out
        out = []
        for s, vs in self.evs([f] + e["a"], st, fr, scope):
            out.extend(self.call(vs[0], vs[1:], s, fr))
        return out

    # -- resolution of a path call
    def call_path(self, f, args, st, fr, scope, e):
        segs = f["p"]
        q = f.get("q")
        names = [s["n"] for s in segs]
        n = names[-1]
        c = fr.crate
        # constructors
        if n in ("Some", "Ok") and len(args) == 1 and len(names) <= 2:
            return [(st, some(self.tt(st, args[0])))]
        if n == "Err" and len(args) == 1 and len(names) <= 2:
            return [(st, err(self.tt(st, args[0])))]
        # qualified paths
        owner = None      # ('self', ty) | ('assoc', X) | ('type', name, segs)
        if q is not None:
            qh = head(q)
            tr = names[:f["qp"]] if f.get("qp") else []
            rest = names[f.get("qp", 0):]
            if q.get("k") == "Path" and len(q["p"]) == 1 and (qh == "T" or qh == "Runtime" or self.is_generic(qh, fr)):
                # <T as Config>::X::f  or <T as Trait>::f
                if len(rest) >= 2:
                    return self.external(rest[-2] + "::" + n, args, st, fr, e, segs)
                return self.external((tr[-1] if tr else qh) + "::" + n, args, st, fr, e, segs)
            if q.get("k") == "Path" and len(q["p"]) >= 2 and q["p"][0]["n"] in ("T", "Self", "Runtime", "R"):
                # <T::X as Trait>::f
                if q["p"][0]["n"] != "Self" or True:
                    return self.external(q["p"][-1]["n"] + "::" + n, args, st, fr, e, segs)
            if q.get("k") == "Path" and q.get("q"):
                # <<T as Config>::X as Trait>::f
                return self.external(q["p"][-1]["n"] + "::" + n, args, st, fr, e, segs)
            if len(rest) == 1 or not tr:
                # <Type>::f / <Type as Trait>::f
                return self.call_type(q["p"] if q.get("k") == "Path" else [{"n": qh or "?"}], n, args, st, fr, scope, e, tr[-1] if tr else None)
            return self.external("::".join(rest[-2:]), args, st, fr, e, segs)
        if len(names) == 1:
            # tuple struct / variant constructor
            if n == "Self" or n[0].isupper() and (n not in fr.crate.fns or n in fr.crate.structs):
                return [(st, self.ctor(segs, [self.tt(st, a) for a in args], fr))]
            fd = self.free_fn(n, fr)
            if fd is not None:
                return self.do_inline(fd, args, None, st, fr, n, e)
            return self.external(n, args, st, fr, e, segs)
        if names[0] in ("T", "Runtime", "R") and len(names) >= 3 or (self.is_generic(names[0], fr) and len(names) >= 3):
            return self.external(names[-2] + "::" + n, args, st, fr, e, segs)
        if (names[0] in ("T", "Runtime", "R") or self.is_generic(names[0], fr)) and len(names) == 2 and names[0] not in fr.crate.structs:
            return self.external(names[0] + "::" + n, args, st, fr, e, segs)
        if names[0] == "Self" and len(names) >= 3:
            # Self::Assoc::f
            return self.external(names[-2] + "::" + n, args, st, fr, e, segs)
        return self.call_type(segs[:-1], n, args, st, fr, scope, e, None)

    def is_generic(self, n, fr):
        fn = fr.fn
        for g in (fn.gen, fn.impl_gen):
            if g:
                for p in g["p"]:
                    if p["n"] == n:
                        return True
        return False

    def ctor(self, segs, args, fr):
        n = segs[-1]["n"]
        if self.is_struct_path(segs, fr):
            if n == "Self":
                n = fr.self_ty
            return T("struct", n, tuple((str(i), a) for i, a in enumerate(args)))
        if n in ("H160", "H256", "AccountId20", "EthAddress", "U256", "BlockNumber") and len(args) == 1:
            return args[0]
        return T("var", n, tuple(args))

    def free_fn(self, n, fr, crate=None):
        c = crate or fr.crate
        l = c.fns.get(n)
        if l:
            if len(l) == 1:
                return l[0]
            same = [x for x in l if x.file == fr.file]
            return same[0] if same else l[0]
        if crate is None:
            up = c.uses.get(fr.file, {}).get(n)
            if up:
                cr = self.m.crates.get(up[0].replace("_", "-"))
                if cr and up[-1] in cr.fns:
                    return cr.fns[up[-1]][0]
                if len(up) > 1 and up[0] not in ("crate", "self", "super"):
                    return None     # imported from outside the repository
            # glob imports
            for nm in ("seed-pallet-common", "seed-primitives"):
                cr = self.m.crates.get(nm)
                if cr and n in cr.fns:
                    return cr.fns[n][0]
        return None

    def call_type(self, tsegs, n, args, st, fr, scope, e, trait):
        c = fr.crate
        names = [s["n"] for s in tsegs]
        if len(names) == 1 and names[0] in c.pallets and c.pallets[names[0]][0][0].replace("_", "-") in self.m.crates:
            # runtime alias of a pallet of this repository
            tsegs = [{"n": c.pallets[names[0]][0][0]}, {"n": "Pallet"}]
            names = [s["n"] for s in tsegs]
        h = names[-1]
        if h == "Self":
            h2 = fr.self_ty
        else:
            h2 = h
        # enum variant / tuple-struct constructor
        if n[0].isupper():
            return [(st, self.ctor(tsegs + [{"n": n}], [self.tt(st, a) for a in args], fr))]
        # explicit foreign crate prefix
        tc = c
        if len(names) >= 2 and names[0] not in ("crate", "self", "super", "Self"):
            cr = self.m.crates.get(names[0].replace("_", "-"))
            up = c.uses.get(fr.file, {}).get(names[0])
            if cr is not None:
                tc = cr
            elif names[0] in ("frame_system", "pallet_assets", "pallet_balances", "pallet_evm", "pallet_proxy", "pallet_staking", "pallet_session", "pallet_authorship", "pallet_transaction_payment"):
                tc = None
        elif len(names) == 1:
            cr = self.m.crates.get(names[0].replace("_", "-"))
            if cr is not None and cr is not c:
                fd = cr.fns.get(n)
                if fd:
                    return self.do_inline(fd[0], args, None, st, fr, n, e)
                return self.external(names[0] + "::" + n, args, st, fr, e, tsegs)
            # module path
            if h[0].islower():
                fd = self.free_fn(n, fr, c)
                if fd is not None:
                    return self.do_inline(fd, args, None, st, fr, n, e)
        if h in ("crate", "super", "self"):
            fd = self.free_fn(n, fr, c)
            if fd is not None:
                return self.do_inline(fd, args, None, st, fr, n, e)
        # storage of another pallet
        if len(names) >= 2 and tc is not c:
            sto = tc.storages.get(h) if tc is not None else FOREIGN.get((names[0], h))
            if sto is None and tc is None and h[0].isupper() and h not in ("Pallet", "Call", "Config", "Event", "Error", "Origin"):
                return self.external(names[0] + "::" + h + "::" + n, args, st, fr, e, tsegs)
            if sto is not None:
                return self.storage_op(sto, n, args, st, fr, scope, e)
        if tc is None:
            return self.external(names[0] + "::" + n, args, st, fr, e, tsegs)
        # storage operation
        if h2 in tc.storages and (len(names) == 1 or tc is c):
            return self.storage_op(tc.storages[h2], n, args, st, fr, scope, e)
        # in-repo type
        fd = self.lookup_method(tc, h2, n, trait)
        if fd is None and tc is c:
            for kind in ("structs", "enums"):
                f2 = self.m._find(kind, h2, c)
                if f2 and f2[0] is not c:
                    fd = self.lookup_method(f2[0], h2, n, trait)
        if fd is None and h2 == "Pallet" and n in tc.getters:
            return self.storage_op(tc.storages[tc.getters[n]], "get", args, st, fr, scope, e)
        if fd is None and tc is c and h2 and h2 not in ("Pallet",):
            # alias to module
            if h2[0].islower():
                fd = self.free_fn(n, fr, c)
        if fd is not None:
            if tc is not c and h2 == "Pallet" and (fr.crate.name, tc.name) not in self.inline_extra:
                return self.external(names[0] + "::" + n, args, st, fr, e, tsegs)
            # UFCS call of a method: first argument is self
            if fd.has_self and len(args) == len(fd.params) + 1:
                return self.do_inline(fd, args[1:], args[0], st, fr, h2 + "::" + n, e)
            return self.do_inline(fd, args, None, st, fr, (h2 or "") + "::" + n, e)
        if tc is not None and tc is not c and h2 == "Pallet" and len(names) >= 2:
            return self.external(names[0] + "::" + n, args, st, fr, e, tsegs)
        return self.builtin_path(names, h2, n, args, st, fr, e, tsegs, trait)

    def lookup_method(self, crate, ty, n, trait=None):
        l = crate.methods.get(ty, {}).get(n)
        if not l:
            return None
        if trait:
            t = [x for x in l if x.trait == trait]
            if t:
                return t[0]
            return None if any(True for x in l if x.trait is None) and False else l[0]
        inh = [x for x in l if x.trait is None]
        if inh:
            return inh[0]
        return l[0]

    def do_inline(self, fd, args, self_val, st, fr, name, e):
        if (fd.crate.name, fd.name) in self.opaque:
            r = None
        else:
            r = self.inline(fd, args, self_val, st, fr)
        if r is None:
            # only parameters taken by `&mut` can change the caller's variable
            args = [self.tt(st, a) if isinstance(a, Ref) and i < len(fd.params) and not (fd.params[i][1] or {}).get("m") and (fd.params[i][1] or {}).get("k") in ("Ref", "Path") else a for i, a in enumerate(args)]
            return self.external(name, ([self_val] if self_val is not None else []) + list(args), st, fr, e, None)
        return r

    NUMTYPES = {"u8", "u16", "u32", "u64", "u128", "usize", "i32", "i64", "i128", "U256", "Balance", "SerialNumber", "BlockNumber", "BlockNumberFor"}

    def builtin_path(self, names, h, n, args, st, fr, e, tsegs, trait):
        ts = [self.tt(st, a) for a in args]
        if n == "default" and not args:
            if h in ("Default", None):
                return [(st, T("default", "?"))]
            return [(st, self.default_of(({"k": "Path", "p": tsegs}, fr.crate)))]
        if n in ("zero",) and not args:
            return [(st, ZERO)]
        if n == "one" and not args:
            return [(st, ONE)]
        if n == "max_value":
            return [(st, self.const([{"n": h}, {"n": "MAX"}], fr))]
        if n == "new" and h in ("Box", "Arc", "Rc") and len(args) == 1 and isinstance(args[0], Clo):
            return [(st, args[0])]
        if (h, n) in TRANSPARENT_FNS and (len(args) == 1 or n in ("force_from", "truncate_from")):
            return [(st, ts[0])]
        if n in ("from", "new") and h in self.NUMTYPES | {"Box", "Arc", "Rc", "Some"} and len(args) == 1:
            return [(st, ts[0])]
        if n in ("try_from",) and len(args) == 1:
            return [(st, T("tryinto", ts[0]))]
        if h in ("Vec", "BTreeMap", "BTreeSet", "BoundedVec", "VecDeque", "BoundedBTreeMap", "BoundedBTreeSet") and n in ("new", "default", "with_capacity", "with_bounded_capacity"):
            return [(st, T("vec"))]
        if n == "from" and len(args) == 1 and h and h[0].isupper() and h not in ("Error",):
            if h in ("Vec", "BoundedVec", "String", "Call", "RuntimeCall"):
                return [(st, ts[0])]
            return [(st, T("call", h + "::from", tuple(ts), 0))]
        if h == "mem" and n == "take":
            s = st.copy()
            v = ts[0]
            if isinstance(args[0], Ref):
                self.write(s, args[0], T("vec"))
            return [(s, v)]
        if h == "mem" and n in ("replace",):
            s = st.copy()
            if isinstance(args[0], Ref):
                self.write(s, args[0], ts[1])
            return [(s, ts[0])]
        if h == "mem" and n == "swap":
            s = st.copy()
            if isinstance(args[0], Ref) and isinstance(args[1], Ref):
                self.write(s, args[0], ts[1])
                self.write(s, args[1], ts[0])
            return [(s, UNIT)]
        if h == "cmp" and n in ("min", "max") or (n in ("min", "max") and len(names) <= 2 and len(args) == 2):
            return self.minmax(n, ts[0], ts[1], st)
        if n == "drop" and len(args) == 1:
            return [(st, UNIT)]
        nm = (h + "::" + n) if h else n
        return self.external(nm, args, st, fr, e, tsegs)

    def minmax(self, n, a, b, st):
        if isint(a) and isint(b):
            return [(st, C(min(a.args[0], b.args[0]) if n == "min" else max(a.args[0], b.args[0])))]
        x, y = sorted((a, b), key=show)
        return [(st, T(n, x, y))]

    def external(self, name, args, st, fr, e, segs):
        """call across an abstraction boundary (Config type, foreign crate, unresolved)"""
        last = name.split("::")[-1]
        if last in ("min", "max") and len(args) == 2 and name in ("min", "max", "cmp::min", "cmp::max"):
            return self.minmax(last, self.tt(st, args[0]), self.tt(st, args[1]), st)
        # wrappers that run a closure in a storage layer
        if last in ("with_transaction", "with_storage_layer", "with_transaction_result", "with_transaction_unchecked") and args:
            for a in args:
                if isinstance(a, Clo):
                    out = []
                    for s, v in self.call(a, [], st, fr):
                        t = self.tt(s, v)
                        if t.op == "var" and t.args[0] in ("Commit", "Rollback"):
                            if t.args[0] == "Rollback":
                                s = s.copy()
                                s.fx = st.fx + tuple(x for x in s.fx[len(st.fx):] if x.kind in ("load", "read", "iter", "origin"))
                                s.store = dict(st.store)
                                s.ep = dict(st.ep)
                            s = self.addfx(s, fr, "txn", t.args[0], (), e)
                            t = t.args[1][0] if t.args[1] else UNIT
                            out.append((s, t))
                        else:
                            out.extend(self.rollback_on_err(st, [(s, t)], fr, last))
                    return out
        out = []
        # constants of the configuration: T::X::get()
        if last == "get" and not args and "::" in name:
            t = T("cfg", name.split("::")[0])
            return [(st, t)]
        if last in ("zero",) and not args:
            return [(st, ZERO)]
        if last == "one" and not args:
            return [(st, ONE)]
        if last == "ensure_signed" and len(args) == 1:
            return self.origin_check("signer", args, st, fr, e)
        if last == "ensure_root" and len(args) == 1:
            return self.origin_check("root", args, st, fr, e)
        if last == "ensure_none" and len(args) == 1:
            return self.origin_check("none_origin", args, st, fr, e)
        if last == "ensure_signed_or_root" and len(args) == 1:
            return self.origin_check("signed_or_root", args, st, fr, e)
        if last == "ensure_origin" and len(args) >= 1:
            return self.origin_check("origin:" + name.split("::")[0], args[:1], st, fr, e)
        if last in ("from", "into", "unique_saturated_from", "saturated_from") and len(args) == 1 and name.split("::")[0] not in ("OriginFor",):
            if name.split("::")[0] in self.NUMTYPES or name.split("::")[0] in ("AccountId", "RuntimeCall", "RuntimeOrigin", "Box", "Balance", "T", "Into"):
                return [(st, self.tt(st, args[0]))]
        if last == "default" and not args:
            h = name.split("::")[0]
            return [(st, ZERO if h in self.NUMTYPES else T("default", h))]
        bound = self.traits_inline.get((fr.crate.name, name))
        if bound is not None:
            r = self.inline(bound, args, None, st, fr)
            if r is not None:
                return r
        states = [(st, list(args))]
        for a in args:
            if isinstance(a, Clo):
                nxt = []
                for s, vs in states:
                    params = [T("cloarg", name, i) for i in range(len(a.node["a"]))]
                    s1 = s.copy()
                    s1.ctx = s.ctx + (T("loop", T("maybe", name)),)
                    for s2, _ in self.call(a, params, s1, fr):
                        nxt.append((self.exit_ctx(s2, s.ctx), vs))
                states = nxt or [(st, list(args))]
        if last == "deposit_event" and len(args) == 1:
            res = []
            for s, vs in states:
                v = self.tt(s, vs[0])
                while v.op in ("call", "as") and len(v.args) > 1 and isinstance(v.args[1], tuple) and len(v.args[1]) == 1:
                    v = v.args[1][0]
                if v.op in ("varst", "var"):
                    res.append((self.addfx(s, fr, "event", v.args[0], (v,), e), UNIT))
                else:
                    res.append((self.addfx(s, fr, "event", "?", (v,), e), UNIT))
            return res
        for s, vs in states:
            ts = tuple(self.tt(s, a) for a in vs)
            if any(t.op == "panic" for t in ts):
                continue
            iface = name.split("::")[0]
            pure = any(last.startswith(p) for p in PURE_PREFIX) or name in PURE_EXT
            if pure:
                t = T("call", name, ts, s.xep.get(iface, 0))
                s2 = self.addfx(s, fr, "read", name, ts, e)
                # by-reference out parameters
            else:
                ep = s.xep.get(iface, 0)
                t = T("call", name, ts, ep)
                s2 = self.addfx(s, fr, "call", name, ts, e, t)
                s2.xep[iface] = ep + 1
                for cr, sn in FOREIGN:
                    if cr == iface:
                        s2.ep[sn] = s2.ep.get(sn, 0) + 1
                        for k in [k for k in s2.store if k[0] == sn]:
                            del s2.store[k]
            for a in vs:
                if isinstance(a, Ref):
                    s2 = s2.copy() if s2 is s else s2
                    cur = self.tt(s2, self.read(s2, a))
                    self.write(s2, a, T("mut", name, cur, tuple(x for x in ts if x is not cur)))
            out.append((s2, t))
        return out

    def origin_check(self, kind, args, st, fr, e):
        o = self.tt(st, args[0])
        name = kind
        t = T("origin", kind, o)
        out = []
        s = self.addfx(st, fr, "origin", kind, (o,), e)
        for val in (True, False):
            s2 = self.assume(s, T("good?", t), val)
            if s2 is not None:
                if val:
                    out.append((s2, some(T("signer")) if kind == "signer" else some(T("origin_ok", kind))))
                else:
                    out.append((s2, err(T("error", "BadOrigin"))))
        return out

    # ---- storage -------------------------------------------------------------------------------
    def skey(self, s, args, st):
        ks = [self.tt(st, a) for a in args]
        if s.kind == "StorageNMap" and len(ks) == 1 and ks[0].op == "tup":
            ks = list(ks[0].args)
        return tuple(ks)

    def load(self, sto, key, st):
        """raw content: Option-like for OptionQuery, value for ValueQuery"""
        k = (sto.name, key)
        if k in st.store:
            return st.store[k]
        t = T("ld", sto.name, key, st.ep.get(sto.name, 0))
        if t not in self.types and sto.val is not None:
            ty = sto.val
            if sto.optional:
                ty = {"k": "Path", "p": [{"n": "Option", "g": [ty]}]}
            self.types[t] = (ty, sto.crate)
        return t

    def store_w(self, sto, key, val, st, fr, e, kind="put", how=""):
        s = self.addfx(st, fr, kind, sto.name, (key, val) if kind == "put" else (key,), e, how)
        # other keys may alias: forget them
        for k in list(s.store):
            if k[0] == sto.name and k[1] != key and not self.distinct(k[1], key, s):
                del s.store[k]
        known = [k for k in s.store if k[0] == sto.name]
        if key or sto.nkeys:
            s.ep[sto.name] = s.ep.get(sto.name, 0) + (1 if sto.nkeys else 0)
        if kind == "put":
            s.store[(sto.name, key)] = some(val) if sto.optional else val
        else:
            s.store[(sto.name, key)] = NONE if sto.optional else self.storage_default(sto)
        return s

    def storage_default(self, sto):
        if sto.default is not None:
            return T("defval", sto.name)
        if sto.val is None:
            return T("default", sto.name)
        return self.default_of((sto.val, sto.crate))

    def distinct(self, k1, k2, st):
        for a, b in zip(k1, k2):
            if self.lookup(st, mkeq(a, b)) is False:
                return True
        return False

    def storage_op(self, sto, n, args, st, fr, scope, e):
        nk = sto.nkeys
        opt = sto.optional
        if sto.kind == "StorageNMap":
            nk = 1
        if n in ("get", "try_get"):
            key = self.skey(sto, args[:nk], st)
            s = self.addfx(st, fr, "load", sto.name, (key,), e)
            v = self.load(sto, key, s)
            if n == "try_get" and not opt:
                v = T("tryget", v)
            return [(s, v)]
        if n in ("contains_key", "exists"):
            key = self.skey(sto, args[:nk], st)
            s = self.addfx(st, fr, "load", sto.name, (key,), e)
            v = self.load(sto, key, s)
            return [(s, T("good?", v))] if self.goodness(s, v) is None or not opt else [(s, C(self.goodness(s, v)))]
        if n in ("insert", "put", "set", "set_raw"):
            key = self.skey(sto, args[:nk], st)
            v = self.tt(st, args[nk]) if len(args) > nk else UNIT
            if n == "set" and opt:
                out = []
                for s, b in self.test(T("good?", v), st):
                    out.append((self.store_w(sto, key, self.unw(v), s, fr, e) if b else self.store_w(sto, key, None, s, fr, e, "del"), UNIT))
                return out
            return [(self.store_w(sto, key, v, st, fr, e), UNIT)]
        if n in ("remove", "kill"):
            key = self.skey(sto, args[:nk], st)
            return [(self.store_w(sto, key, None, st, fr, e, "del"), UNIT)]
        if n == "take":
            key = self.skey(sto, args[:nk], st)
            s = self.addfx(st, fr, "load", sto.name, (key,), e)
            v = self.load(sto, key, s)
            return [(self.store_w(sto, key, None, s, fr, e, "del"), v)]
        if n in ("mutate", "try_mutate", "mutate_exists", "try_mutate_exists"):
            key = self.skey(sto, args[:nk], st)
            f = args[nk]
            s = self.addfx(st, fr, "load", sto.name, (key,), e)
            v0 = self.load(sto, key, s)
            exists = n.endswith("_exists")
            self.counter += 1
            h = "%s#%d" % ("$" + sto.name, self.counter)
            s = s.copy()
            optional_view = opt or exists
            s.env[h] = v0 if (opt or not exists) else some(v0)
            if exists and not opt:
                s.env[h] = T("optview", v0)
            init = s.env[h]
            out = []
            for s2, r in self.call(f, [Ref(h)], s, fr):
                rt = r
                branches = [(s2, True)]
                if n.startswith("try_"):
                    t = self.tt(s2, r)
                    if t.op == "panic":
                        continue
                    g = self.goodness(s2, t)
                    if g is None:
                        branches = [(x, b) for x, b in self.test(T("good?", t), s2)]
                        rt = t
                    else:
                        branches = [(s2, g)]
                for s3, good in branches:
                    nv = self.tt(s3, s3.env.get(h, init))
                    s4 = s3.copy()
                    s4.env.pop(h, None)
                    r2 = rt
                    if isinstance(r2, Ref):
                        r2 = self.read(s3, r2)
                    if not good or nv is init:
                        out.append((s4, r2))
                        continue
                    if optional_view:
                        if nv.op == "good":
                            s4 = self.store_w(sto, key, nv.args[0], s4, fr, e, how="mutate")
                        elif nv.op == "none":
                            s4 = self.store_w(sto, key, None, s4, fr, e, "del")
                        else:
                            s4 = self.store_w(sto, key, T("optput", nv), s4, fr, e, how="mutate")
                    else:
                        s4 = self.store_w(sto, key, nv, s4, fr, e, how="mutate")
                    out.append((s4, r2))
            return out
        if n in ("append", "try_append"):
            key = self.skey(sto, args[:nk], st)
            item = self.tt(st, args[nk])
            v0 = self.load(sto, key, st)
            cur = v0
            if opt:
                g = self.goodness(st, v0)
                cur = self.unw(v0) if g else (T("vec") if g is False else T("unwordef", v0))
            nv = T("mut", "push", cur, (item,)) if cur.op != "vec" else T("vec", *(cur.args + (item,)))
            s1 = self.store_w(sto, key, nv, st, fr, e, how="append")
            if n == "append":
                return [(s1, UNIT)]
            r = T("call", "try_append", (C(sto.name), T("tup", *key), item), 0)
            out = []
            g1 = self.assume(s1, T("good?", r), True)
            g0 = self.assume(st, T("good?", r), False)
            if g1 is not None:
                out.append((g1, some(UNIT)))
            if g0 is not None:
                out.append((g0, err(T("error", "append"))))
            return out
        if n in ("iter", "iter_prefix", "iter_keys", "iter_values", "iter_from", "iter_key_prefix", "iter_prefix_values", "drain", "drain_prefix", "iter_prefix_from", "iter_from_key"):
            key = tuple(self.tt(st, a) for a in args)
            s = self.addfx(st, fr, "iter", sto.name, (key, C(n)), e)
            base = T("entries", sto.name, key, "kv", s.ep.get(sto.name, 0))
            # type of the elements
            kt = sto.keys[-1] if sto.keys and key else (sto.keys[0] if len(sto.keys) == 1 else ({"k": "Tuple", "a": sto.keys} if sto.keys else None))
            if n.startswith("drain"):
                s = self.addfx(s, fr, "del", sto.name, (key + (T("elem", base),),), e, "drain")
                s.ep[sto.name] = s.ep.get(sto.name, 0) + 1
            if kt is not None:
                self.types[T("elem", base)] = ({"k": "Tuple", "a": [kt, sto.val]}, sto.crate)
                self.types[T("f", T("elem", base), "0")] = (kt, sto.crate)
                self.types[T("f", T("elem", base), "1")] = (sto.val, sto.crate)
            if "key" in n and n != "iter_from_key":
                return [(s, IterV(base, (("image", T("f", T("elem", base), "0")),)))]
            if "values" in n:
                return [(s, IterV(base, (("image", T("f", T("elem", base), "1")),)))]
            return [(s, IterV(base))]
        if n in ("clear_prefix", "remove_prefix", "clear", "remove_all"):
            key = tuple(self.tt(st, a) for a in args[:1]) if "prefix" in n else ()
            s = self.addfx(st, fr, "del", sto.name, (key,), e, n)
            s.ep[sto.name] = s.ep.get(sto.name, 0) + 1
            s.store = {k: v for k, v in s.store.items() if k[0] != sto.name}
            return [(s, T("call", "clear", (C(sto.name),) + key, s.ep[sto.name]))]
        if n in ("decode_len",):
            key = self.skey(sto, args[:nk], st)
            v = self.load(sto, key, st)
            return [(st, T("declen", v))]
        if n in ("hashed_key_for", "storage_prefix", "module_prefix", "final_prefix", "hashed_key", "prefix_hash", "pallet_prefix"):
            return [(st, T("call", n, (C(sto.name),) + tuple(self.tt(st, a) for a in args), 0))]
        if n in ("translate",):
            s = self.addfx(st, fr, "put", sto.name, ((), T("translated")), e, "translate")
            return [(s, T("call", "translate", (C(sto.name),), 0))]
        if n == "swap":
            s = self.addfx(st, fr, "put", sto.name, ((self.tt(st, args[0]),), T("swap")), e, "swap")
            return [(s, UNIT)]
        return self.external(sto.name + "::" + n, args, st, fr, e, None)

    # ---- method calls --------------------------------------------------------------------------
    def x_Method(self, e, st, fr, scope):
        m = e["m"]
        r = e["r"]
        out = []
        # receiver as place if the method may mutate
        pl = None
        fd_hint = None
        if m in ("or_insert", "or_default", "or_insert_with") and r["k"] == "Method":
            p = None
            x = r
            while x["k"] == "Method" and x["m"] == "and_modify":
                x = x["r"]
            if x["k"] == "Method" and x["m"] == "entry":
                p = self.place(dict(e, r=x), st, fr, scope)
            if p is not None and x is r:
                if m == "or_default":
                    return p
                for s0, rv in p:
                    own = Ref(rv.var, rv.proj[:-1])
                    base = self.read(s0, own)
                    key = rv.proj[-1][1].args[1]
                    for s1, b in self.test(T("good?", T("get", self.tt(s0, base), key)), s0):
                        if b:
                            out.append((s1, rv))
                            continue
                        new = []
                        for s2, vs in self.evs(e["a"], s1, fr, scope):
                            new.extend(self.call(vs[0], [], s2, fr) if m == "or_insert_with" else [(s2, vs[0])])
                        for s2, v in new:
                            s2 = s2.copy()
                            self.write(s2, own, T("mut", "insert", self.tt(s2, self.read(s2, own)), (key, self.tt(s2, v))))
                            out.append((s2, rv))
                return out
            if p is not None and r["m"] == "and_modify" and r["r"] is x and len(e["a"]) == 1:
                # entry(k).and_modify(f).or_insert(v): f on the entry, or v in a new one
                for s0, rv in p:
                    base = self.read(s0, Ref(rv.var, rv.proj[:-1]))
                    key = rv.proj[-1][1].args[1]
                    for s1, b in self.test(T("good?", T("get", self.tt(s0, base), key)), s0):
                        if b:
                            for s2, fs in self.evs(r["a"], s1, fr, scope):
                                for s3, _ in self.call(fs[0], [rv], s2, fr):
                                    out.append((s3, rv))
                        else:
                            if m == "or_default":
                                new = [(s1, T("default", "?"))]
                            else:
                                new = []
                                for s2, vs in self.evs(e["a"], s1, fr, scope):
                                    new.extend(self.call(vs[0], [], s2, fr) if m == "or_insert_with" else [(s2, vs[0])])
                            for s2, v in new:
                                vs = [v]
                                s2 = s2.copy()
                                self.write(s2, Ref(rv.var, rv.proj[:-1]), T("mut", "insert", self.tt(s2, self.read(s2, Ref(rv.var, rv.proj[:-1]))), (key, self.tt(s2, vs[0]))))
                                out.append((s2, rv))
                return out
        if m in ("write", "lock", "read") and not e["a"]:
            pl = self.locked(r, st, fr, scope)
            if pl is not None:
                return pl
        if m in ("get_or_insert_with", "get_or_insert", "get_or_insert_default"):
            pl = self.place(e, st, fr, scope)
            if pl is not None:
                return pl
        if m in MUT_METHODS or m in ("take", "replace", "insert", "get_or_insert_with", "as_mut", "write_str", "write_char", "update", "iter_mut", "last_mut", "first_mut", "get_mut", "get_mut_or", "next", "update", "entry", "drain") or self.maybe_mut_method(m):
            pl = self.place(r, st, fr, scope)
        recvs = pl if pl is not None else self.ev(r, st, fr, scope)
        for s0, rv in recvs:
            if isT(rv) and rv.op == "panic":
                continue
            for s1, args in self.evs(e["a"], s0, fr, scope):
                if any(isT(a) and a.op == "panic" for a in args):
                    continue
                if m in ("saturated_into", "unique_saturated_into") and not args:
                    self.saturated.append((s1, self.tt(s1, rv), fr.fn, e))
                if m in NARROWING and not args:
                    self.indexed.append((s1, "narrow", self.tt(s1, rv), C(NARROWING[m]), fr.fn, e))
                out.extend(self.method(m, rv, args, s1, fr, e, scope))
        self.chk(out)
        return out

    def maybe_mut_method(self, m):
        c = getattr(self, "_mutm", None)
        if c is None:
            c = set()
            for f in self.m.fns_all():
                if f.self_mut:
                    c.add(f.name)
            self._mutm = c
        return m in c

    def user_method(self, m, rt, nargs, fr):
        """resolve a method on an in-repo type"""
        ty = self.type_of(rt)
        if rt.op == "self" and fr.self_ty:
            fd = self.lookup_method(fr.crate, fr.self_ty, m)
            if fd and fd.has_self:
                return fd
        if ty is not None:
            h = head(ty[0])
            for kind in ("structs", "enums"):
                f = self.m._find(kind, h, ty[1])
                if f:
                    fd = self.lookup_method(f[0], h, m)
                    if fd is not None and fd.has_self:
                        return fd
                    # trait impl in another crate
                    for c in self.m.crates.values():
                        fd = self.lookup_method(c, h, m)
                        if fd is not None and fd.has_self:
                            return fd
            if h in ("Option", "Vec", "BoundedVec", "Result") or h in self.NUMTYPES:
                # extension traits implemented in the repository
                fd = self.lookup_method(fr.crate, h, m)
                if fd is not None and fd.has_self and m not in COMMON_METHODS:
                    return fd
                return None
            t0, _ = self.strip_ref(ty)
            p0 = t0.get("p") if t0.get("k") == "Path" else None
            if isinstance(p0, list) and len(p0) > 1 and p0[0]["n"] not in ("crate", "self", "super", "Self", "T") and p0[0]["n"][0].islower() and p0[0]["n"].replace("_", "-") not in self.m.crates:
                return None     # a type of a crate outside the repository
        if m in COMMON_METHODS or m in MUT_METHODS or m in IDENT_METHODS or m in ITER_METHODS:
            return None
        # by unique name
        c = fr.crate
        cands = [f for d in c.methods.values() for f in d.get(m, []) if f.has_self and len(f.params) == nargs]
        if len(cands) == 1:
            return cands[0]
        if not cands:
            cands = [f for cn in ("seed-pallet-common", "seed-primitives", "precompile-utils") if cn in self.m.crates
                     for d in self.m.crates[cn].methods.values() for f in d.get(m, []) if f.has_self and len(f.params) == nargs]
            if len(cands) == 1 and (cands[0].trait is None or any(cands[0].trait in cr.traits for cr in self.m.crates.values())):
                return cands[0]
        return None

    def method(self, m, rv, args, st, fr, e, scope):
        if type(rv) is SomeRef:
            # Some(&mut place)
            inner = Ref(rv.var, rv.proj)
            if m in ("is_some", "is_ok", "is_none", "is_err") and not args:
                return [(st, TRUE if m in ("is_some", "is_ok") else FALSE)]
            if m in ("ok_or", "ok_or_else", "as_mut", "or", "or_else", "as_deref_mut"):
                return [(st, rv)]
            if m in ("unwrap", "expect", "unwrap_or", "unwrap_or_default", "unwrap_or_else"):
                return [(st, inner)]
            if m == "map" and len(args) == 1:
                return [(s, some(self.tt(s, v))) for s, v in self.call(args[0], [inner], st, fr)]
            if m in ("and_then", "is_some_and") and len(args) == 1:
                return self.call(args[0], [inner], st, fr)
        # iterators
        if isinstance(rv, Ref):
            cur = self.read(st, rv)
            if isinstance(cur, (IterV, Clo, FnVal)):
                itref = rv
                rv_val = cur
            else:
                rv_val = cur
        else:
            rv_val = rv
        if isinstance(rv_val, IterV):
            return self.iter_method(m, rv_val, args, st, fr, e, rv)
        rt = self.tt(st, rv_val)
        if rt.op == "panic":
            return []
        fd = self.user_method(m, rt, len(args), fr)
        if fd is not None and (fd.crate.name, fd.name) not in self.opaque and fd.body is not None:
            sv = rv if (fd.self_mut and isinstance(rv, Ref)) else rt
            res = self.inline(fd, args, sv, st, fr)
            if res is not None:
                return res
        h = getattr(self, "m_" + m, None)
        if h is not None:
            r = h(rt, rv, args, st, fr, e)
            if r is not None:
                return r
        if m in IDENT_METHODS:
            return [(st, rt)]
        if m == "split_at" and len(args) == 1 and isint(self.tt(st, args[0])):
            n = self.tt(st, args[0])
            ends = T("range", ZERO, n), T("range", n, NONE)
            self.indexed.append((st, "index", rt, ends[0], fr.fn, e))
            return [(st, T("tup", *[T("slice", rt, r) for r in ends]))]
        if m in ITER_METHODS or m in ITER_ADAPT or m in ITER_CONSUME:
            if m in ITER_METHODS and (m in ("iter", "into_iter", "iter_mut") or m == "drain"):
                if m == "drain" and isinstance(rv, Ref):
                    s = st.copy()
                    rg = self.tt(st, args[0]) if args else None
                    if rg is not None and (rg.op != "range" or rg.args[0] is not ZERO or rg.args[1] is not NONE) and not (rg.op == "range" and rg.args[0] is NONE and rg.args[1] is NONE):
                        # a part of the collection is taken out
                        self.write(s, rv, T("mut", "drain", rt, (rg,)))
                        return [(s, IterV(T("slice", rt, rg)))]
                    self.write(s, rv, T("vec"))
                    return [(s, IterV(rt))]
                if m == "iter_mut" and isinstance(rv, Ref):
                    it = IterV(rt, (), rv)
                    return [(st, it)]
                return [(st, IterV(rt))]
            if m in ITER_METHODS:
                return [(st, IterV(T("mc", m, rt, ())))]
            # option/iterator ambiguity is handled in the m_* functions; here: iterator on an opaque receiver
            return self.iter_method(m, IterV(rt), args, st, fr, e, rv)
        if m in MUT_METHODS and isinstance(rv, Ref):
            if m in ("extend", "append") and len(args) == 1 and isinstance(args[0], IterV) and args[0].stages:
                return [r for s, t in self.collect(args[0], st, fr, e) for r in self.mutate_coll(m, rt, rv, [t], s, fr, e)]
            return self.mutate_coll(m, rt, rv, args, st, fr, e)
        return self.opaque_method(m, rt, rv, args, st, fr, e)

    def mutate_coll(self, m, rt, rv, args, st, fr, e):
        out = []
        states = [(st, args)]
        if m == "retain":
            # closure over the elements
            el = T("elem", rt)
            keep = []
            for s, v in self.call(args[0], [el], st, fr):
                keep.append((s, self.tt(s, v)))
            if len(keep) == 1:
                cnd = keep[0][1]
                s = keep[0][0]
            else:
                lits = []
                for s1, v in keep:
                    lits.append(T("when", tuple(sorted(((k, val) for k, val in s1.facts.items() if k not in st.facts), key=lambda kv: show(kv[0]))), v))
                cnd = T("cases", tuple(sorted(lits, key=show)))
                s = st
            s = s.copy()
            s.facts = st.facts
            self.write(s, rv, T("mut", "retain", rt, (cnd,)))
            return [(s, UNIT)]
        ts = tuple(self.tt(st, a) for a in args)
        s = st.copy()
        if m in ("push", "force_push", "push_back") and rt.op == "vec":
            self.write(s, rv, T("vec", *(rt.args + ts)))
            return [(s, UNIT)]
        if m in FALLIBLE_MUT:
            base = {"try_push": "push", "try_insert": "insert", "try_append": "append", "try_extend": "extend"}[m]
            nv = T("vec", *(rt.args + ts)) if base == "push" and rt.op == "vec" else T("mut", base, rt, ts)
            r = T("call", m, (rt,) + ts, 0)
            res = []
            g0 = self.assume(st, T("good?", r), False)
            g1 = self.assume(s, T("good?", r), True)
            if g1 is not None:
                g1 = g1.copy()
                self.write(g1, rv, nv)
                res.append((g1, some(UNIT)))
            if g0 is not None:
                res.append((g0, err(T("error", m))))
            return res
        canon = {"push_back": "push", "force_push": "push", "extend_from_slice": "extend", "append": "extend"}.get(m, m)
        if canon == "extend" and rt.op == "vec" and len(ts) == 1 and (not rt.args or ts[0].op == "vec"):
            # a list grown from nothing is the list it is grown by
            self.write(s, rv, T("vec", *(rt.args + ts[0].args)) if ts[0].op == "vec" else ts[0])
            return [(s, UNIT)]
        if m == "clear":
            self.write(s, rv, T("vec"))
            return [(s, UNIT)]
        if m in ("sort", "sort_by", "sort_by_key", "sort_unstable", "reverse", "dedup", "sort_unstable_by", "sort_unstable_by_key", "dedup_by_key"):
            self.write(s, rv, rt if rt == T("vec") else T("mut", m, rt, ()))
            return [(s, UNIT)]
        if m in ("saturating_accrue",):
            self.write(s, rv, arith("+", rt, ts[0], True))
            return [(s, UNIT)]
        if m in ("saturating_reduce",):
            self.write(s, rv, arith("-", rt, ts[0], True))
            return [(s, UNIT)]
        if m in ("saturating_inc",):
            self.write(s, rv, arith("+", rt, ONE, True))
            return [(s, UNIT)]
        self.write(s, rv, T("mut", canon, rt, ts))
        return [(s, T("mres", canon, rt, ts))]

    def opaque_method(self, m, rt, rv, args, st, fr, e):
        states = [(st, args)]
        for a in args:
            if isinstance(a, Clo):
                nxt = []
                for s, vs in states:
                    params = [T("cloarg", m, i) for i in range(len(a.node["a"]))]
                    s1 = s.copy()
                    s1.ctx = s.ctx + (T("loop", T("maybe", m)),)
                    for s2, rv2 in self.call(a, params, s1, fr):
                        s2 = self.exit_ctx(s2, s.ctx)
                        s2 = s2.copy()
                        s2.fx = s2.fx + (Eff("gives", m, (self.tt(s2, rv2),), s2.ctx, fr.fn, e.get("l", 0), s2.facts),)
                        nxt.append((s2, vs))
                states = nxt or [(st, args)]
        out = []
        for s, vs in states:
            ts = tuple(self.tt(s, a) for a in vs)
            pure = any(m.startswith(p) for p in PURE_PREFIX) or m in PURE_METHODS
            ep = 0
            t = T("mc", m, rt, ts)
            if not pure:
                s = self.addfx(s, fr, "mcall", m, (rt,) + ts, e, t)
            for a in vs:
                if isinstance(a, Ref):
                    s = s.copy()
                    cur = self.tt(s, self.read(s, a))
                    self.write(s, a, T("mut", m, cur, (rt,)))
            if m == "update" and len(ts) == 1 and isinstance(rv, Ref) and rt.op in ("call", "mut"):
                s = s.copy()
                self.write(s, rv, T("mut", "update", rt, ts))
            if m == "next" and not ts and isinstance(rv, Ref) and (rt.op == "mc" or rt.op == "mut" and rt.args[0] == "next"):
                s = s.copy()
                self.write(s, rv, T("mut", "next", rt, ()))
            out.append((s, t))
        return out

    # ---- iterator adaptors / consumers ----------------------------------------------------------
    def iter_method(self, m, it, args, st, fr, e, rv):
        if m in ("map", "filter", "filter_map", "inspect", "flat_map", "take_while", "skip_while", "map_while"):
            return [(st, IterV(it.base, it.stages + ((m, args[0]),), it.ref))]
        if m in ("enumerate", "rev", "flatten"):
            if m == "rev":
                if it.base.op == "it" and it.base.args[0] == "rev":
                    return [(st, IterV(it.base.args[1], it.stages))]
                return [(st, IterV(T("it", "rev", it.base), it.stages))]
            return [(st, IterV(it.base, it.stages + ((m,),), it.ref))]
        if it.stages and (m == "chain" or m == "rev" and any(x[0] in ("enumerate", "zip") for x in it.stages)
                          or m in ("skip", "take", "step_by") and any(x[0] not in ("map", "inspect") for x in it.stages)):
            # the adapter sees what the earlier stages let through
            res = []
            for s, t in self.collect(it, st, fr, e):
                res += self.iter_method(m, IterV(t, ()), args, s, fr, e, rv)
            return res
        if m in ("skip", "take", "step_by"):
            if it.base == T("vec"):
                return [(st, it)]
            return [(st, IterV(T("it", m, it.base, self.tt(st, args[0])), it.stages))]
        if m == "zip":
            o = args[0]
            if isinstance(o, IterV) and not o.stages:
                return [(st, IterV(it.base, it.stages + (("zip", o.base),), it.ref))]
            if isinstance(o, IterV):
                # evaluate the other side's stages on its element lazily: approximate by its term
                outs = self.collect(o, st, fr, e)
                return [(s, IterV(it.base, it.stages + (("zip", t),), it.ref)) for s, t in outs]
            return [(st, IterV(it.base, it.stages + (("zip", self.tt(st, o)),), it.ref))]
        if m == "chain":
            o = args[0]
            ot = self.tt(st, o)
            return [(st, IterV(T("chain", it.base, ot), it.stages))]
        if m in ("iter", "into_iter", "cloned", "copied", "by_ref", "peekable", "fuse", "clone", "into", "as_ref"):
            return [(st, it)]
        if m in ("collect", "collect_vec", "to_vec", "unzip", "try_collect", "try_into", "into_inner"):
            outs = self.collect(it, st, fr, e)
            if m == "unzip":
                res = []
                for s, t in outs:
                    res.append((s, self.unzip(t)))
                return res
            return outs
        if m == "for_each":
            def body(s1, el):
                return [s for s, _ in self.call(args[0], [el], s1, fr)]
            ends, brks = self.iterate(it, st, fr, body)
            return [(s, UNIT) for s in ends]
        if m == "try_for_each":
            res_err = []

            def body(s1, el):
                o = []
                for s, v in self.call(args[0], [el], s1, fr):
                    t = self.tt(s, v)
                    for s2, b in self.test(T("good?", t), s):
                        if b:
                            o.append(s2)
                        else:
                            res_err.append((s2, t if t.op in ("bad", "none") else err(T("errof", t))))
                return o
            n0 = len(res_err)
            ends, brks = self.iterate(it, st, fr, body)
            return [(s, some(UNIT)) for s in ends] + [(self.exit_ctx(s, st.ctx), v) for s, v in res_err]
        if m in ("any", "all"):
            return self.anyall(m, it, args[0], st, fr)
        if m in ("find", "position", "find_map", "rposition"):
            return self.find(m, it, args[0], st, fr)
        if m in ("fold", "try_fold"):
            return self.fold(m, it, args, st, fr)
        if m in ("count", "len"):
            if not it.stages:
                return [(st, T("len", it.base))]
            return [(s, T("len", t)) for s, t in self.collect(it, st, fr, e)]
        if m in ("sum", "product", "max", "min", "last", "max_by_key", "min_by_key", "max_by", "min_by"):
            return [(s, self.aggregate(m, t)) for s, t in self.collect(it, st, fr, e)]
        if m == "next":
            if not isinstance(rv, Ref) and any(x[0] in ("filter", "filter_map") for x in it.stages) and all(x[0] in ("map", "filter", "filter_map", "inspect") for x in it.stages):
                # the first element the stages let through
                return self.first_through(it, st, fr)
            return [(st, T("next", self.iter_term(it)))]
        if m == "nth":
            return [(st, T("nth", self.iter_term(it), self.tt(st, args[0])))]
        if m == "is_empty":
            return [(st, T("empty", it.base))]
        if m in ("contains",):
            return self.m_contains(it.base, None, args, st, fr, e)
        outs = self.collect(it, st, fr, e)
        res = []
        for s, t in outs:
            res.extend(self.method(m, t, args, s, fr, e, {}))
        return res

    def aggregate(self, m, t):
        if m == "sum" and t.op == "vec":
            r = ZERO
            for x in t.args:
                r = x if r is ZERO else arith("+", r, x)
            return r
        return T("agg", m, t)

    def unzip(self, t):
        if t.op in ("param", "elem", "f", "unw", "ld"):
            return T("tup", T("coll", t, T("f", T("elem", t), "0")), T("coll", t, T("f", T("elem", t), "1")))
        if t.op == "coll" and isT(t.args[1]):
            return T("tup", T("coll", t.args[0], self.fld(t.args[1], 0)), T("coll", t.args[0], self.fld(t.args[1], 1)))
        return T("tup", T("f", T("unzip", t), "0"), T("f", T("unzip", t), "1"))

    def sample(self, it, st, fr):
        """outcomes of one abstract element through the stages"""
        s0 = st.copy()
        s0.ctx = st.ctx + (T("loop", it.base),)
        return self.next_elem(it, s0, fr)

    def collect(self, it, st, fr, e):
        if not it.stages or it.base == T("vec"):
            return [(st, it.base)]
        if it.base.op == "coll" and len(it.base.args) == 2 and isT(it.base.args[1]) and it.ref is None:
            # the elements of a mapped collection are its images
            it = IterV(it.base.args[0], (("image", it.base.args[1]),) + tuple(it.stages))
        if it.base.op == "vec" and all(s[0] in ("map",) for s in it.stages) and len(it.base.args) <= 3:
            acc = [(st, [])]
            for el in it.base.args:
                nxt = []
                for s, l in acc:
                    cur = [(s, el)]
                    for sg in it.stages:
                        c2 = []
                        for s2, x in cur:
                            c2.extend(self.call(sg[1], [x], s2, fr))
                        cur = c2
                    nxt.extend((s2, l + [self.tt(s2, x)]) for s2, x in cur)
                acc = nxt
            return [(s, T("vec", *l)) for s, l in acc]
        outs = self.sample(it, st, fr)
        if len(outs) > 1:                 # a panic leaves no list (self.panicked has it)
            outs = [o for o in outs if not (isT(o[1]) and o[1].op == "panic")] or outs
        pure = all(len(s.fx) == len(st.fx) or all(x.kind in ("load", "read", "iter") for x in s.fx[len(st.fx):]) for s, _ in outs)
        if len(outs) == 1 and outs[0][1] is not None:
            s, v = outs[0]
            t = self.tt(s, v)
            s = self.exit_ctx(s, st.ctx)
            if t is T("elem", it.base):
                return [(s, it.base)]
            return [(s, T("coll", it.base, t))]
        cases = []
        for s, v in outs:
            if v is None:
                continue
            delta = tuple(sorted(((k, val) for k, val in s.facts.items() if k not in st.facts), key=lambda x: show(x[0])))
            cases.append((T("case", delta, self.tt(s, v))))
        if len(cases) == 1:
            t = T("coll", it.base, cases[0].args[1], cases[0].args[0])
        else:
            t = T("coll", it.base, tuple(sorted(cases, key=show)))
        if pure:
            s = st.copy()
            # remember loads
            mx = max(outs, key=lambda o: len(o[0].fx))[0] if outs else st
            s.fx = mx.fx
            return [(s, t)]
        return [(self.exit_ctx(s, st.ctx), t) for s, v in outs]

    def pred_cases(self, outs, st, hit):
        """disjunctive normal form of the predicate on the abstract element: [(state, conj)] for the hitting outcomes"""
        hits, misses = [], []
        for s, v in outs:
            for s2, b in self.test(v, s):
                if b == hit:
                    delta = tuple(sorted(((k, val) for k, val in s2.facts.items() if k not in st.facts), key=lambda x: (show(x[0]), x[1])))
                    hits.append((s2, delta))
                else:
                    misses.append(s2)
        return hits, misses

    def witness(self, st, base, dnf, conj, fx):
        w = T("wit", base, dnf)
        el = T("elem", base)
        s = st.copy()
        s.fx = fx
        s = self.assume(s, T("exists", base, dnf), True)
        if s is not None and base.op not in ("range", "vec", "zipped"):
            s = self.assume(s, T("empty", base), False)
        for k, v in conj:
            if s is None:
                return None, w, el
            s = self.assume(s, substt(k, el, w), v)
        return s, w, el

    def anyall(self, m, it, f, st, fr):
        """exists/forall over an abstract element.  The universal outcome carries facts about the abstract element, the
        existential one facts about a witness element"""
        outs = []
        skipped = []
        for s, el in self.sample(it, st, fr):
            if el is None:
                skipped.append(s)
                continue
            for s2, v in self.call(f, [el], s, fr):
                outs.append((s2, self.tt(s2, v)))
        hit = m == "any"
        hits, misses = self.pred_cases(outs, st, hit)
        dnf = tuple(sorted(set(c for _, c in hits), key=showa))
        atom = T("exists", it.base, dnf)
        res = []
        # no element hits
        univ = misses + skipped
        if univ or not hits:
            facts = dict(st.facts)
            if univ:
                facts = univ[0].facts
                for x in univ[1:]:
                    facts = merge_facts(facts, x.facts)
            s3 = self.exit_ctx(univ[0] if univ else st, st.ctx)
            s3.facts = facts
            s3 = self.assume(s3, atom, False)
            if s3 is not None:
                res.append((s3, C(not hit)))
        elif it.base.op not in ("range", "vec"):
            # every element hits: only an empty collection misses
            s3 = self.assume(st, T("empty", it.base), True)
            if s3 is not None:
                s3 = self.assume(s3, atom, False)
                if s3 is not None:
                    res.append((s3, C(not hit)))
        for s, conj in hits:
            s4, _, _ = self.witness(st, it.base, dnf, conj, s.fx)
            if s4 is not None:
                res.append((s4, C(hit)))
        return res

    def find(self, m, it, f, st, fr):
        outs = []
        for s, el in self.sample(it, st, fr):
            if el is None:
                continue
            for s2, v in self.call(f, [el], s, fr):
                t = self.tt(s2, v)
                outs.append((s2, t, el))
        res = []
        allhits = []
        for s, v, el in outs:
            hits, _ = self.pred_cases([(s, T("good?", v) if m == "find_map" else v)], st, True)
            allhits.extend((h, c, v, el) for h, c in hits)
        dnf = tuple(sorted(set(c for _, c, _, _ in allhits), key=showa))
        for h, conj, v, el in allhits:
            s3, w, e0 = self.witness(st, it.base, dnf, conj, h.fx)
            if s3 is None:
                continue
            if m == "find":
                if it.ref is not None and isinstance(el, Ref):
                    res.append((s3, SomeRef(Ref(it.ref.var, it.ref.proj + (("elem", w),)))))
                else:
                    res.append((s3, some(substt(self.tt(h, el), e0, w))))
            elif m == "find_map":
                res.append((s3, some(substt(self.unw(v), e0, w))))
            else:
                res.append((s3, some(T("pos", it.base, w))))
        s4 = self.assume(st, T("exists", it.base, dnf), False)
        if s4 is not None:
            res.append((s4, NONE))
        return res

    def first_through(self, it, st, fr):
        hits = []
        for s, el in self.sample(it, st, fr):
            if el is not None:
                delta = tuple(sorted(((k, val) for k, val in s.facts.items() if k not in st.facts), key=lambda x: (show(x[0]), x[1])))
                hits.append((s, delta, self.tt(s, el)))
        dnf = tuple(sorted(set(c for _, c, _ in hits), key=showa))
        res = []
        for h, conj, v in hits:
            s3, w, e0 = self.witness(st, it.base, dnf, conj, h.fx)
            if s3 is not None:
                res.append((s3, some(substt(v, e0, w))))
        s4 = self.assume(st, T("exists", it.base, dnf), False)
        if s4 is not None:
            res.append((s4, NONE))
        return res

    def fold(self, m, it, args, st, fr):
        init = self.tt(st, args[0])
        tag = T("loop", it.base)
        phi = T("phi", init, tag)
        res = []
        for s, b in self.test(T("empty", it.base), st):
            if b:
                res.append((s, some(init) if m == "try_fold" else init))
                continue
            for s1, el in self.sample(it, s, fr):
                if el is None:
                    res.append((self.exit_ctx(s1, st.ctx), some(phi) if m == "try_fold" else phi))
                    continue
                for s2, v in self.call(args[1], [phi, el], s1, fr):
                    res.append((self.exit_ctx(s2, st.ctx), self.tt(s2, v)))
        return res

    # ---- Option / Result / number methods --------------------------------------------------------
    def split(self, t, st):
        """-> [(state, good?)]"""
        out = []
        for val in (True, False):
            s = self.assume(st, T("good?", t), val)
            if s is not None:
                out.append((s, val))
        return out

    def m_is_some(self, rt, rv, args, st, fr, e):
        return [(s, C(b)) for s, b in self.split(rt, st)] if rt.op in ("good", "none", "bad") else [(st, T("good?", rt))]

    m_is_ok = m_is_some

    def m_is_none(self, rt, rv, args, st, fr, e):
        return [(s, C(not b)) for s, b in self.split(rt, st)] if rt.op in ("good", "none", "bad") else [(st, T("not", T("good?", rt)))]

    m_is_err = m_is_none

    def m_is_some_and(self, rt, rv, args, st, fr, e):
        out = []
        for s, b in self.split(rt, st):
            if b:
                out.extend(self.call(args[0], [self.unw(rt)], s, fr))
            else:
                out.append((s, FALSE))
        return out

    m_is_ok_and = m_is_some_and

    def m_ok_or(self, rt, rv, args, st, fr, e):
        return [(s, (rv if isinstance(rv, Ref) else some(self.unw(rt))) if b else err(self.tt(s, args[0]))) for s, b in self.split(rt, st)]

    def m_ok_or_else(self, rt, rv, args, st, fr, e):
        return [(s, (rv if isinstance(rv, Ref) else some(self.unw(rt))) if b else err(T("error", "?"))) for s, b in self.split(rt, st)]

    def m_ok(self, rt, rv, args, st, fr, e):
        if rt.op == "bad":
            return [(st, NONE)]
        return [(st, rt)]

    def m_err(self, rt, rv, args, st, fr, e):
        return [(s, NONE if b else some(T("errof", rt))) for s, b in self.split(rt, st)]

    def m_map_err(self, rt, rv, args, st, fr, e):
        if rt.op == "bad":
            return [(st, err(T("errof", rt)))]
        return [(st, rt)]

    def m_map(self, rt, rv, args, st, fr, e):
        if rt.op in ("good", "none", "bad") or self.optish(rt):
            out = []
            for s, b in self.split(rt, st):
                if b:
                    out.extend((s2, some(self.tt(s2, v))) for s2, v in self.call(args[0], [Ref(rv.var, rv.proj + (("unw",),)) if isinstance(rv, Ref) else self.unw(rt)], s, fr))
                else:
                    out.append((s, rt if rt.op == "bad" else (NONE if rt.op == "none" else (err(T("errof", rt)) if self.resish(rt) else NONE))))
            return out
        return None

    def resish(self, t):
        ty = self.type_of(t)
        if ty is None or not (head(ty[0]) or "").endswith("Result"):
            return False
        return head(ty[0]) == "Result" or not self.m.find_enum(head(ty[0]), ty[1])

    def optish(self, t):
        ty = self.type_of(t)
        if ty is not None:
            h = head(ty[0])
            if h in ("Vec", "BoundedVec"):
                return False
            return True
        return t.op not in ("it", "coll", "entries", "range", "vec", "slice")

    def m_and_then(self, rt, rv, args, st, fr, e):
        out = []
        for s, b in self.split(rt, st):
            if b:
                out.extend(self.call(args[0], [self.unw(rt)], s, fr))
            else:
                out.append((s, err(T("errof", rt)) if rt.op == "bad" or self.resish(rt) else NONE))
        return out

    def m_and(self, rt, rv, args, st, fr, e):
        return [(s, args[0] if b else rt) for s, b in self.split(rt, st)]

    def m_or(self, rt, rv, args, st, fr, e):
        return [(s, some(self.unw(rt)) if b else self.tt(s, args[0])) for s, b in self.split(rt, st)]

    def nullary(self, f):
        if isinstance(f, Clo):
            return not f.node["a"]
        return isinstance(f, FnVal) and f.node.get("k") == "Path" and f.node["p"][-1]["n"] in ("get", "default", "zero", "one", "new", "max_value", "min_value")

    def m_or_else(self, rt, rv, args, st, fr, e):
        out = []
        for s, b in self.split(rt, st):
            if b:
                out.append((s, some(self.unw(rt))))
            else:
                a = [] if self.nullary(args[0]) else [T("errof", rt)]
                out.extend(self.call(args[0], a, s, fr))
        return out

    def m_filter(self, rt, rv, args, st, fr, e):
        if rt.op in ("good", "none") or (self.type_of(rt) and head(self.type_of(rt)[0]) == "Option"):
            out = []
            for s, b in self.split(rt, st):
                if not b:
                    out.append((s, NONE))
                    continue
                for s2, v in self.call(args[0], [self.unw(rt)], s, fr):
                    for s3, b3 in self.test(self.tt(s2, v), s2):
                        out.append((s3, some(self.unw(rt)) if b3 else NONE))
            return out
        return None

    def m_map_or(self, rt, rv, args, st, fr, e):
        out = []
        for s, b in self.split(rt, st):
            if b:
                out.extend(self.call(args[1], [self.unw(rt)], s, fr))
            else:
                out.append((s, args[0]))
        return out

    def m_map_or_else(self, rt, rv, args, st, fr, e):
        out = []
        for s, b in self.split(rt, st):
            if b:
                out.extend(self.call(args[1], [self.unw(rt)], s, fr))
            else:
                a = [] if self.nullary(args[0]) else [T("errof", rt)]
                out.extend(self.call(args[0], a, s, fr))
        return out

    def inner_default(self, rt, v):
        """the default value of what the option holds, where the source leaves its type to inference"""
        if not (isT(v) and v.op == "default" and v.args[0] == "?"):
            return v
        ty = self.type_of(rt)
        if ty and head(ty[0]) in ("Option", "Result") and targs(ty[0]):
            return self.default_of((targs(ty[0])[0], ty[1]))
        return ZERO if rt.op == "chk" else v

    def m_unwrap_or(self, rt, rv, args, st, fr, e):
        return [(s, self.unw(rt) if b else self.inner_default(rt, args[0])) for s, b in self.split(rt, st)]

    def m_unwrap_or_else(self, rt, rv, args, st, fr, e):
        out = []
        for s, b in self.split(rt, st):
            if b:
                out.append((s, Ref(rv.var, rv.proj + (("unw",),)) if isinstance(rv, Ref) else self.unw(rt)))
            else:
                a = [] if self.nullary(args[0]) else [T("errof", rt)]
                out.extend((s2, self.inner_default(rt, v)) for s2, v in self.call(args[0], a, s, fr))
        return out

    def m_unwrap_or_default(self, rt, rv, args, st, fr, e):
        out = []
        for s, b in self.split(rt, st):
            if b:
                out.append((s, self.unw(rt)))
            else:
                out.append((s, self.inner_default(rt, T("default", "?"))))
        return out

    def m_unwrap(self, rt, rv, args, st, fr, e):
        out = []
        for s, b in self.split(rt, st):
            if b:
                out.append((s, Ref(rv.var, rv.proj + (("unw",),)) if isinstance(rv, Ref) else self.unw(rt)))
            else:
                s2 = self.addfx(s, fr, "panic", "unwrap", (rt,), e)
                self.panicked.append((s2, "unwrap", rt, fr.fn, e))
                fr.rets.append((s2, T("panic")))
        return out

    m_expect = m_unwrap
    m_defensive = None

    def m_take(self, rt, rv, args, st, fr, e):
        if args:
            return None
        if isinstance(rv, Ref):
            s = st.copy()
            self.write(s, rv, NONE)
            return [(s, rt)]
        return [(st, rt)]

    def m_replace(self, rt, rv, args, st, fr, e):
        if isinstance(rv, Ref) and len(args) == 1:
            s = st.copy()
            self.write(s, rv, some(self.tt(st, args[0])))
            return [(s, rt)]
        return None

    def m_as_mut(self, rt, rv, args, st, fr, e):
        return [(st, rv)]

    def m_get_mut(self, rt, rv, args, st, fr, e):
        if isinstance(rv, Ref) and len(args) == 1:
            k = self.tt(st, args[0])
            el = T("idx", rt, k)
            out = []
            for s, b in self.test(T("good?", T("get", rt, k)), st):
                if b:
                    self.counter += 1
                    h = "gm#%d" % self.counter
                    out.append((s, _GM(Ref(rv.var, rv.proj + (("elem", el),)))))
                else:
                    out.append((s, NONE))
            # unwrap the helper
            return [(s, v.ref_some(self, s) if isinstance(v, _GM) else v) for s, v in out]
        return None

    def m_get(self, rt, rv, args, st, fr, e):
        if len(args) == 1:
            k = self.tt(st, args[0])
            if k.op == "range":
                return [(st, T("mc", "get", rt, (k,)))]
            out = []
            if rt.op == "vec" and isint(k):
                return [(st, some(rt.args[k.args[0]]) if k.args[0] < len(rt.args) else NONE)]
            g = T("get", rt, k)
            return [(st, g)]
        if not args:
            return [(st, T("mc", "get", rt, ()))]
        return None

    def m_write_str(self, rt, rv, args, st, fr, e):
        if isinstance(rv, Ref) and len(args) == 1:
            ts = (rt, self.tt(st, args[0]))
            r = T("macro", "write", ts)
            out = []
            g = self.assume(st, T("good?", r), True)
            if g is not None:
                g = g.copy()
                self.write(g, rv, T("mut", "write", ts[0], ts[1:]))
                out.append((g, some(UNIT)))
            g = self.assume(st, T("good?", r), False)
            if g is not None:
                out.append((g, err(T("error", "write"))))
            return out
        return None

    m_write_char = m_write_str

    def m_finalize(self, rt, rv, args, st, fr, e):
        # H::new(); update(x); finalize()  =  H::digest(x)
        if not args and rt.op == "mut" and rt.args[0] == "update" and rt.args[1].op == "call" and rt.args[1].args[0].endswith("::new") and len(rt.args[2]) == 1:
            h = rt.args[1].args[0][:-len("new")] + "digest"
            return self.external(h, [rt.args[2][0]], st, fr, e, [{"n": x} for x in h.split("::")])
        return None

    def m_split_first(self, rt, rv, args, st, fr, e):
        if args:
            return None
        return [(s, NONE if b else some(T("tup", T("idx", rt, ZERO), T("it", "skip", rt, ONE)))) for s, b in self.test(T("empty", rt), st)]

    def m_first(self, rt, rv, args, st, fr, e):
        return [(st, T("get", rt, ZERO))]

    def m_len(self, rt, rv, args, st, fr, e):
        if rt.op == "vec":
            return [(st, C(len(rt.args)))]
        if rt.op == "c" and rt.args[1] in ("bytes", "str"):
            return [(st, C(len(rt.args[0])))]
        return [(st, T("len", rt))]

    def m_is_empty(self, rt, rv, args, st, fr, e):
        if rt.op == "vec":
            return [(st, C(not rt.args))]
        return [(st, T("empty", rt))]

    def m_is_zero(self, rt, rv, args, st, fr, e):
        return [(st, mkeq(rt, ZERO))]

    def m_contains(self, rt, rv, args, st, fr, e):
        if rt.op == "range" and len(rt.args) == 2 and isT(rt.args[0]) and isT(rt.args[1]):
            lo, hi = rt.args
            x = self.tt(st, args[0])
            below = T("not", T("lt", x, lo)) if lo is not ZERO else TRUE
            k = 1 if hi.op == "+" and any(isint(y) and y.args[0] > 0 for y in hi.args) else 0
            above = TRUE if hi is NONE else T("not", T("lt", pred(hi), x)) if k > 0 or isint(hi) else T("lt", x, hi)
            return [(st, above if below is TRUE else below if above is TRUE else T("and", below, above))]
        return [(st, T("contains", rt, self.tt(st, args[0])))]

    def m_contains_key(self, rt, rv, args, st, fr, e):
        return [(st, T("contains", rt, self.tt(st, args[0])))]

    def _num(self, op, sat):
        def f(rt, rv, args, st, fr, e):
            return [(st, arith(op, rt, self.tt(st, args[0]), sat))]
        return f

    def m_saturating_add(self, rt, rv, args, st, fr, e):
        return [(st, arith("+", rt, self.tt(st, args[0]), True))]

    def m_saturating_sub(self, rt, rv, args, st, fr, e):
        return [(st, arith("-", rt, self.tt(st, args[0]), True))]

    def m_saturating_mul(self, rt, rv, args, st, fr, e):
        return [(st, arith("*", rt, self.tt(st, args[0]), True))]

    def m_saturating_div(self, rt, rv, args, st, fr, e):
        b = self.tt(st, args[0])
        self.indexed.append((st, "div", rt, b, fr.fn, e))
        return [(st, arith("/", rt, b, True))]

    def m_checked_add(self, rt, rv, args, st, fr, e):
        return [(st, self.chkt("+", rt, self.tt(st, args[0])))]

    def m_checked_sub(self, rt, rv, args, st, fr, e):
        return [(st, self.chkt("-", rt, self.tt(st, args[0])))]

    def m_checked_mul(self, rt, rv, args, st, fr, e):
        return [(st, self.chkt("*", rt, self.tt(st, args[0])))]

    def m_checked_div(self, rt, rv, args, st, fr, e):
        return [(st, self.chkt("/", rt, self.tt(st, args[0])))]

    def m_checked_pow(self, rt, rv, args, st, fr, e):
        return [(st, self.chkt("**", rt, self.tt(st, args[0])))]

    def m_pow(self, rt, rv, args, st, fr, e):
        return [(st, arith("**", rt, self.tt(st, args[0])))]

    def m_div(self, rt, rv, args, st, fr, e):
        return self.opmethod("/", rt, self.tt(st, args[0]), st, fr)

    def m_mul(self, rt, rv, args, st, fr, e):
        return self.opmethod("*", rt, self.tt(st, args[0]), st, fr)

    def m_add(self, rt, rv, args, st, fr, e):
        return self.opmethod("+", rt, self.tt(st, args[0]), st, fr)

    def m_sub(self, rt, rv, args, st, fr, e):
        return self.opmethod("-", rt, self.tt(st, args[0]), st, fr)

    def opmethod(self, op, a, b, st, fr):
        # the dex's SafeMath: `a.sub(b)?` is a checked operation
        if "SafeMath" in fr.fn.crate.traits:
            if isint(b) and b.args[0] == 0 and op in "+-":
                return [(st, some(a))]
            if isint(b) and b.args[0] != 0 and op == "/":
                return [(st, some(arith(op, a, b)))]
            return [(st, self.chkt(op, a, b))]
        return [(st, arith(op, a, b))]

    def m_wrapping_add(self, rt, rv, args, st, fr, e):
        return [(st, T("wrap+", rt, self.tt(st, args[0])))]

    def m_wrapping_sub(self, rt, rv, args, st, fr, e):
        return [(st, T("wrap-", rt, self.tt(st, args[0])))]

    def chkt(self, op, a, b):
        if op in ("+", "*"):
            a, b = sorted((a, b), key=show)
        return T("chk", op, a, b)

    def m_min(self, rt, rv, args, st, fr, e):
        if len(args) == 1:
            return self.minmax("min", rt, self.tt(st, args[0]), st)
        return None

    def m_max(self, rt, rv, args, st, fr, e):
        if len(args) == 1:
            return self.minmax("max", rt, self.tt(st, args[0]), st)
        return None

    def m_try_into(self, rt, rv, args, st, fr, e):
        return [(st, T("tryinto", rt))]

    def m_eq(self, rt, rv, args, st, fr, e):
        return [(st, mkeq(rt, self.tt(st, args[0])))]

    def m_ne(self, rt, rv, args, st, fr, e):
        return [(st, T("not", mkeq(rt, self.tt(st, args[0]))))]

    def m_gt(self, rt, rv, args, st, fr, e):
        return [(st, mklt(self.tt(st, args[0]), rt))]

    def m_lt(self, rt, rv, args, st, fr, e):
        return [(st, mklt(rt, self.tt(st, args[0])))]

    def m_ge(self, rt, rv, args, st, fr, e):
        return [(st, T("not", mklt(rt, self.tt(st, args[0]))))]

    def m_le(self, rt, rv, args, st, fr, e):
        return [(st, T("not", mklt(self.tt(st, args[0]), rt)))]

    def m_then(self, rt, rv, args, st, fr, e):
        out = []
        for s, b in self.test(rt, st):
            if b:
                out.extend((s2, some(self.tt(s2, v))) for s2, v in self.call(args[0], [], s, fr))
            else:
                out.append((s, NONE))
        return out

    def m_then_some(self, rt, rv, args, st, fr, e):
        return [(s, some(self.tt(s, args[0])) if b else NONE) for s, b in self.test(rt, st)]

    def m_flatten(self, rt, rv, args, st, fr, e):
        if self.optish(rt):
            return [(s, self.unw(rt) if b else NONE) for s, b in self.split(rt, st)]
        return None

    def m_unwrap_err(self, rt, rv, args, st, fr, e):
        return [(st, T("errof", rt))]

    def m_try_mutate(self, rt, rv, args, st, fr, e):
        if isinstance(rv, Ref) and len(args) == 1:
            # BoundedVec::try_mutate(|v| ..) -> Option<Self>
            self.counter += 1
            h = "tm#%d" % self.counter
            s = st.copy()
            s.env[h] = rt
            out = []
            for s2, _ in self.call(args[0], [Ref(h)], s, fr):
                nv = self.tt(s2, s2.env[h])
                r = T("tryinto", nv)
                out.append((s2, r))
            return out
        return None

    # ---- macros ----------------------------------------------------------------------------------
    def x_Macro(self, e, st, fr, scope):
        n = e["n"]
        a = e.get("a")
        if n in ("ensure", "require", "frame_ensure") and a and len(a) >= 1:
            out = []
            for s, b, _ in self.cond(a[0], st, fr, scope):
                if b:
                    out.append((s, UNIT))
                else:
                    ev = T("error", "?")
                    if len(a) > 1:
                        errs = self.ev(a[1], s, fr, scope)
                        if errs:
                            s, ev = errs[0][0], self.tt(errs[0][0], errs[0][1])
                    fr.rets.append((s, err(ev)))
            return out
        if n in ("fail", "bail"):
            if a:
                for s, v in self.ev(a[0], st, fr, scope):
                    fr.rets.append((s, err(self.tt(s, v))))
            return []
        if n in ("panic", "unreachable", "unimplemented", "todo"):
            s2 = self.addfx(st, fr, "panic", n, (), e)
            self.panicked.append((s2, n, None, fr.fn, e))
            fr.rets.append((s2, T("panic")))
            return []
        if n in ("assert", "assert_eq", "assert_ne"):
            out = []
            if n == "assert" and a:
                for s, b, _ in self.cond(a[0], st, fr, scope):
                    if b:
                        out.append((s, UNIT))
                    else:
                        s2 = self.addfx(s, fr, "panic", n, (), e)
                        self.panicked.append((s2, n, None, fr.fn, e))
                        fr.rets.append((s2, T("panic")))
                return out
            return [(st, UNIT)]
        if n == "vec":
            if a is not None:
                return [(s, T("vec", *[self.tt(s, v) for v in vs])) for s, vs in self.evs(a, st, fr, scope)]
            if "rep" in e:
                return [(s, T("rep", self.tt(s, vs[0]), self.tt(s, vs[1]))) for s, vs in self.evs(e["rep"], st, fr, scope)]
            return [(st, T("vec"))]
        if n == "matches" and "pat" in e:
            return [(s, C(b)) for s, b, _ in self.cond(e, st, fr, scope)]
        if n in ("format", "concat"):
            return [(s, T("fmt", *[self.tt(s, v) for v in vs])) for s, vs in self.evs([x for x in (a or []) if x["k"] != "Assign"], st, fr, scope)]
        if n in ("log", "debug", "info", "warn", "error", "trace", "log_if", "println", "eprintln", "debug_assert",
                 "debug_assert_eq", "defensive", "runtime_print", "sp_std_log", "debug_assert_ne", "emit", "print"):
            return [(st, UNIT)]
        if n in ("revert", "revert_custom") or n == "bail":
            return [(st, T("revert", tuple(self.ev1(x, st, fr, scope) for x in (a or [])[:1])))]
        if n == "read_args":
            return self.read_args(e, st, fr, scope)
        if n in ("quote", "quote_spanned", "parse_quote"):
            text, vals = self.quoted(e.get("toks") or [], scope)
            return [(st, T("quote", C(text), tuple(self.tt(st, st.env[scope[x]]) if scope[x] in st.env else T("opaque") for x in vals)))]
        if n in ("keccak256",):
            v = T("keccak", self.lit(a[0]) if a and a[0]["k"] == "Lit" else T("opaque"))
            return [(st, v)]
        if "b" in e:
            return self.block(e["b"], st, fr, scope)
        if n in ("write", "writeln") and a:
            out = []
            for s, vs in self.evs(a, st, fr, scope):
                ts = tuple(self.tt(s, v) for v in vs)
                r = T("macro", n, ts)
                if isinstance(vs[0], Ref):
                    g = self.assume(s, T("good?", r), True)
                    if g is not None:
                        g = g.copy()
                        self.write(g, vs[0], T("mut", "write", ts[0], ts[1:]))
                        out.append((g, some(UNIT)))
                    g = self.assume(s, T("good?", r), False)
                    if g is not None:
                        out.append((g, err(T("error", n))))
                else:
                    out.append((s, r))
            return out
        if a is not None:
            return [(s, T("macro", n, tuple(self.tt(s, v) for v in vs))) for s, vs in self.evs(a, st, fr, scope)]
        return [(st, T("macro", n))]

    def quoted(self, toks, scope):
        """the text of quoted program with its locals numbered in order of appearance"""
        vals = []
        close = {"(": ")", "[": "]", "{": "}"}

        def go(ts):
            out = []
            i = 0
            while i < len(ts):
                t = ts[i]
                if isinstance(t, dict):
                    d = t.get("d", "")
                    out.append(d + go(t["c"]) + close.get(d, ""))
                elif t == "#" and i + 1 < len(ts) and isinstance(ts[i + 1], str) and ts[i + 1] in scope:
                    x = ts[i + 1]
                    if x not in vals:
                        vals.append(x)
                    out.append("#%d" % vals.index(x))
                    i += 1
                else:
                    out.append(t if isinstance(t, str) else str(t))
                i += 1
            return " ".join(out)
        text = go(toks)
        return re.sub(r"\s*([^\w\s]+)\s*", r"\1", text), vals

    def read_args(self, e, st, fr, scope):
        """read_args!(handle, { a: T, b: T }): binds the decoded call arguments"""
        tk = e.get("toks") or []
        names = []
        tys = []
        for t in tk:
            if isinstance(t, dict) and t["d"] == "{":
                c = t["c"]
                depth = 0
                cur = None
                for i, x in enumerate(c):
                    if x == "<":
                        depth += 1
                    elif x == ">":
                        depth -= 1
                    if x == "," and depth == 0:
                        cur = None
                        continue
                    if x == ":" and depth == 0 and cur is None:
                        cur = c[i - 1]
                        names.append(cur)
                        tys.append("")
                    elif cur is not None:
                        tys[-1] += tok_text(x)
        s = st.copy()
        for i, n in enumerate(names):
            if not isinstance(n, str):
                continue
            self.counter += 1
            vid = "%s#%d" % (n, self.counter)
            scope[n] = vid
            s.env[vid] = T("arg", i)
            if tys[i] == "U256":
                self.types[T("arg", i)] = ({"k": "Path", "p": [{"n": "U256", "a": []}]}, fr.crate)
        s = self.addfx(s, fr, "readargs", "read_args", tuple(T("typed", C(n), C(y)) for n, y in zip(names, tys) if isinstance(n, str)), e)
        # decoding may fail
        s2 = self.assume(s, T("good?", T("argsok")), True)
        s3 = self.assume(s, T("good?", T("argsok")), False)
        if s3 is not None:
            fr.rets.append((s3, err(T("error", "args"))))
        return [(s2, UNIT)] if s2 is not None else []


def tok_text(x):
    if isinstance(x, dict):
        d = x["d"]
        return d + "".join(tok_text(y) for y in x["c"]) + {"(": ")", "[": "]", "{": "}"}.get(d, "")
    return str(x)


# conversions of big numbers that panic when the number does not fit
NARROWING = {"as_u32": 2 ** 32 - 1, "as_u64": 2 ** 64 - 1, "as_u128": 2 ** 128 - 1, "as_usize": 2 ** 64 - 1}


def is_selector(t):
    """the decoded function selector of a precompile call"""
    while t.op in ("?", "unw", "q") and t.args:
        t = t.args[0]
    return "try_from_primitive" in t.op or (t.args and isinstance(t.args[0], str) and "try_from_primitive" in t.args[0])


class _GM:
    def __init__(self, r):
        self.r = r

    def ref_some(self, eng, st):
        # Some(&mut elem): represented as a fresh variable holding good(..) is not assignable, so bind the Ref directly
        return SomeRef(self.r)


class SomeRef(Ref):
    """Some(&mut place): matches Some(p) with p bound to the place"""
    __slots__ = ()

    def __init__(self, r):
        Ref.__init__(self, r.var, r.proj)


def substt(t, a, b, memo=None):
    """t with a replaced by b"""
    if memo is None:
        memo = {}
    if isinstance(t, tuple):
        return tuple(substt(x, a, b, memo) for x in t)
    if not isinstance(t, Term):
        return t
    if t is a:
        return b
    r = memo.get(t)
    if r is not None:
        return r
    na = tuple(substt(x, a, b, memo) if isinstance(x, (Term, tuple)) else x for x in t.args)
    if all(x is y for x, y in zip(na, t.args)):
        r = t
    elif t.op == "eq":
        r = mkeq(*na)
    elif t.op in ("+", "*"):
        r = T(t.op, *sorted(na, key=show))
    else:
        r = T(t.op, *na)
    memo[t] = r
    return r


def mkeq(a, b):
    if a is b:
        return TRUE
    x, y = (a, b) if show(a) <= show(b) else (b, a)
    # len(x) == 0  <=> empty(x)
    for p, q in ((x, y), (y, x)):
        if p.op == "len" and q is ZERO:
            return T("empty", p.args[0])
    return T("eq", x, y)


def mklt(a, b):
    if isint(a) and isint(b):
        return C(a.args[0] < b.args[0])
    if b.op == "len" and a is ZERO:
        return T("not", T("empty", b.args[0]))
    if a.op == "len" and b is ONE:
        return T("empty", a.args[0])
    if a is b:
        return FALSE
    if b.op == "+" and len(b.args) == 2 and a in b.args:
        # a < a + x  <=>  0 < x
        return T("lt", ZERO, b.args[1] if b.args[0] is a else b.args[0])
    return T("lt", a, b)


ITER_ADAPT = {"map", "filter", "filter_map", "enumerate", "zip", "rev", "skip", "take", "chain", "step_by", "flat_map", "inspect", "take_while", "skip_while", "map_while"}
ITER_CONSUME = {"collect", "for_each", "try_for_each", "any", "all", "find", "position", "fold", "try_fold", "sum", "count", "find_map", "unzip", "max_by_key", "min_by_key", "rposition"}
PURE_METHODS = {"encode", "sub_ref_time", "add_ref_time", "writes", "reads_writes", "using_encoded", "twox_128", "starts_with", "ends_with", "split_at", "split", "binary_search",
                "trim", "as_u128", "low_u128", "low_u64", "as_u64", "as_u32", "bits", "integer_sqrt", "ref_time", "proof_size",
                "concat", "join", "to_be_bytes", "to_le_bytes", "windows", "chunks", "cmp", "partial_cmp", "hash", "context",
                "input", "code_address", "ge", "le", "lt", "gt", "difference", "intersection", "union", "last", "as_tuple",
                "calculate_total_entitlement", "validate_", "mul_floor", "mul_ceil", "abs_diff", "div_mod", "leading_zeros",
                "any", "all", "nth", "to_fixed_bytes", "as_fixed_bytes", "ok_or", "to_string", "len", "encoded_size"}
COMMON_METHODS = {"get", "insert", "remove", "push", "len", "is_empty", "iter", "map", "into", "from", "clone", "unwrap", "expect",
                  "contains", "contains_key", "take", "replace", "and_then", "ok_or", "encode", "decode", "as_ref", "as_mut", "first",
                  "last", "next", "filter", "fold", "any", "all", "find", "min", "max", "is_some", "is_none", "is_ok", "is_err",
                  "default", "eq", "ne", "cmp", "partial_cmp", "hash", "add", "sub", "mul", "div", "rem", "then", "write", "read",
                  "position", "collect", "zip", "extend", "append", "saturating_add", "saturating_sub", "saturating_mul", "checked_add",
                  "checked_sub", "checked_mul", "checked_div", "try_into", "into_inner", "retain", "pow", "set", "split", "count", "drop",
                  "index", "deref", "fmt", "build", "filter_map", "flatten", "sum", "rev", "skip", "enumerate", "ok", "err",
                  "map_err", "unwrap_or", "unwrap_or_default", "unwrap_or_else", "into_iter", "copied", "cloned", "for_each", "or_else", "map_or"}
