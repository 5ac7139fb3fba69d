"""Types and constants of the runtime, normalised: aliases are expanded, paths reduced to their last segment."""

INTS = ("u8", "u16", "u32", "u64", "u128", "usize", "i32", "i64", "i128")


class Types:
    def __init__(self, m, crate):
        self.m, self.c = m, m.crates[crate]
        self.cur = None     # the items of the configuration being read

    def s(self, t, depth=0, sub=None):
        """canonical text of a type"""
        if not isinstance(t, dict) or depth > 30:
            return "?"
        k = t.get("k")
        if k == "Path":
            p = t["p"]
            last = p[-1]
            n = last["n"]
            if n == "Self" and len(p) == 1:
                n = "Runtime"
            if sub and len(p) == 1 and n in sub and not t.get("q"):
                return sub[n]
            g = [self.s(x, depth + 1, sub) if "k" in x else str(x) for x in (last.get("g") or [])]
            if t.get("q"):
                return "<%s>::%s" % (self.s(t["q"], depth + 1, sub), "::".join(x["n"] for x in p))
            if len(p) == 2 and p[0]["n"] == "Self" and self.cur and n in self.cur:
                return self.s(self.cur[n], depth + 1, sub)
            al = self.c.types.get(n)
            if al is not None and (len(p) == 1 or p[0]["n"] in ("crate", "self", "super", "impls")):
                gen = [x["n"] for x in ((al.get("gen") or {}).get("p") or []) if isinstance(x, dict) and "n" in x] if isinstance(al.get("gen"), dict) else []
                return self.s(al["t"], depth + 1, dict(zip(gen, g)))
            if n == "WeightInfo" or n == "SubstrateWeight":
                return "%s::%s" % (p[-2]["n"] if n == "WeightInfo" and len(p) > 1 else p[0]["n"], n)
            # imports with a different name
            if len(p) == 1:
                for f in (t.get("file"),):
                    u = self.c.uses.get(f, {}).get(n) if f else None
                    if u and u[-1] != n:
                        n = u[-1]
            return n + ("<%s>" % ",".join(g) if g else "")
        if k == "Tuple":
            return "(%s)" % ",".join(self.s(x, depth + 1, sub) for x in t["a"])
        if k == "Ref":
            return "&" + self.s(t["t"], depth + 1, sub)
        if k in ("Group", "Paren") and "t" in t:
            return self.s(t["t"], depth + 1, sub)
        if k == "Lit":
            return str(t.get("v"))
        if k == "Const" or "e" in t:
            e = t.get("e")
            return self.s(e, depth + 1, sub) if isinstance(e, dict) else "?"
        return k or "?"

    def config(self):
        """pallet crate -> {item: canonical type}, for every `impl pallet::Config for Runtime`"""
        out = {}
        for h, tr, i, f in self.c.impls:
            if tr != "Config" or h != "Runtime":
                continue
            path = [x["n"] for x in i["tr"]]
            key = "::".join(path[:-1])
            d = out.setdefault(key, {})
            self.cur = {x["n"]: x["t"] for x in i["items"] if x["k"] == "Type"}
            for x in i["items"]:
                if x["k"] == "Type":
                    d[x["n"]] = self.s(x["t"])
        self.cur = None
        return out

    # ---- constants ---------------------------------------------------------------------------------
    def const(self, n, depth=0):
        """value of a constant of the crate (None when it is not a literal computation)"""
        c = self.c.consts.get(n)
        if c is None:
            for o in ("precompile-utils", "seed-primitives", "seed-pallet-common"):
                cc = self.m.crates.get(o)
                if cc and n in cc.consts:
                    c = cc.consts[n]
                    break
        if c is None or depth > 20:
            return None
        return self.val(c.get("e"), depth + 1)

    def val(self, e, depth=0):
        if not isinstance(e, dict) or depth > 40:
            return None
        k = e.get("k")
        if k == "Lit":
            v = e.get("v")
            if e.get("t") in ("int",):
                try:
                    return int(str(v).replace("_", ""), 0)
                except ValueError:
                    return None
            return v
        if k in ("Cast", "Paren", "Group", "Unary") and isinstance(e.get("e"), dict):
            v = self.val(e["e"], depth + 1)
            return -v if k == "Unary" and e.get("o") == "-" and isinstance(v, int) else v
        if k in ("Ref", "AddrOf") or (k or "").startswith("Ref"):
            return self.val(e.get("e"), depth + 1)
        if k == "Binary":
            a, b = self.val(e["a"], depth + 1), self.val(e["b"], depth + 1)
            if isinstance(a, int) and isinstance(b, int):
                o = e["o"]
                return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "/": lambda: a // b if b else None, "%": lambda: a % b if b else None,
                        "<<": lambda: a << b, ">>": lambda: a >> b, "|": lambda: a | b, "&": lambda: a & b}.get(o, lambda: None)()
            return None
        if k == "Path":
            n = e["p"][-1]["n"]
            if len(e["p"]) > 1 and n == "MAX" and e["p"][-2]["n"] in INTS:
                w = {"usize": 64}.get(e["p"][-2]["n"]) or int(e["p"][-2]["n"][1:])
                return 2 ** w - 1
            return self.const(n, depth + 1)
        if k == "Array":
            v = [self.val(x, depth + 1) for x in e["a"]]
            return None if any(x is None for x in v) else tuple(v)
        if k == "Repeat":
            a, n = self.val(e.get("e"), depth + 1), self.val(e.get("n"), depth + 1)
            return (a,) * n if a is not None and isinstance(n, int) else None
        if k == "Tuple":
            return tuple(self.val(x, depth + 1) for x in e["a"])
        if k == "Call":
            f = e.get("f") or {}
            n = f["p"][-1]["n"] if f.get("k") == "Path" else None
            if n == "get" and len(f["p"]) > 1 and not e.get("a"):
                return self.const(f["p"][-2]["n"], depth + 1)
            a = [self.val(x, depth + 1) for x in e.get("a") or []]
            if n and a and all(x is not None for x in a):
                return (n,) + tuple(a)
            return None
        if k == "Method":
            r = self.val(e.get("r"), depth + 1)
            a = [self.val(x, depth + 1) for x in e.get("a") or []]
            n = e.get("m")
            if n == "get" and not a:
                return r
            if isinstance(r, int) and len(a) == 1 and isinstance(a[0], int):
                return {"pow": lambda: r ** a[0], "saturating_div": lambda: r // a[0], "saturating_mul": lambda: r * a[0]}.get(n, lambda: None)()
            return None
        return None


# ---- keccak-256 ------------------------------------------------------------------------------------
def keccak256(data):
    R = [[0, 36, 3, 41, 18], [1, 44, 10, 45, 2], [62, 6, 43, 15, 61], [28, 55, 25, 21, 56], [27, 20, 39, 8, 14]]
    M = (1 << 64) - 1

    def rol(x, n):
        return ((x << n) | (x >> (64 - n))) & M if n else x
    rc, lf = [], 1
    for _ in range(24):
        v = 0
        for j in range(7):
            if lf & 1:
                v |= 1 << ((1 << j) - 1)
            lf = (lf << 1) ^ (0x171 if lf & 0x80 else 0)
        rc.append(v)
    rate = 136
    d = bytearray(data) + b"\x01"
    d += b"\x00" * (-len(d) % rate)
    d[-1] |= 0x80
    A = [[0] * 5 for _ in range(5)]
    for o in range(0, len(d), rate):
        for i in range(rate // 8):
            A[i % 5][i // 5] ^= int.from_bytes(d[o + 8 * i:o + 8 * i + 8], "little")
        for rnd in range(24):
            C = [A[x][0] ^ A[x][1] ^ A[x][2] ^ A[x][3] ^ A[x][4] for x in range(5)]
            D = [C[(x - 1) % 5] ^ rol(C[(x + 1) % 5], 1) for x in range(5)]
            A = [[A[x][y] ^ D[x] for y in range(5)] for x in range(5)]
            B = [[0] * 5 for _ in range(5)]
            for x in range(5):
                for y in range(5):
                    B[y][(2 * x + 3 * y) % 5] = rol(A[x][y], R[x][y])
            A = [[B[x][y] ^ (~B[(x + 1) % 5][y] & M & B[(x + 2) % 5][y]) for y in range(5)] for x in range(5)]
            A[0][0] ^= rc[rnd]
    out = b"".join(A[i % 5][i // 5].to_bytes(8, "little") for i in range(4))
    return out
