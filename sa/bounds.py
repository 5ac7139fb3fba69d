"""Difference-bound reasoning over the facts of a path: is i < n implied?"""
from .terms import *

BIG = 10 ** 60


def lin(t):
    """(atom or None, constant): t = atom + constant"""
    c = 0
    while True:
        if isint(t):
            return None, c + t.args[0]
        if t.op == "+" and any(isint(x) for x in t.args):
            k = [x for x in t.args if isint(x)]
            r = [x for x in t.args if not isint(x)]
            c += sum(x.args[0] for x in k)
            if not r:
                return None, c
            t = r[0] if len(r) == 1 else T("+", *r)
            continue
        if t.op == "-" and len(t.args) == 2 and isint(t.args[1]):
            c -= t.args[1].args[0]
            t = t.args[0]
            continue
        if t.op == "as" and len(t.args) == 2:
            t = t.args[1]
            continue
        return t, c


class Bounds:
    """difference constraints x - y <= w collected from facts and from the structure of terms"""

    def __init__(self, eng, facts, consts=None):
        self.eng, self.facts, self.consts = eng, facts, consts or (lambda t: None)
        self.edges = {}   # y -> {x: w} meaning x <= y + w ; None is the zero node
        self.seen = set()
        self.neq = set()
        self.apart = []
        for a, v in facts.items():
            self.fact(a, v)
        # x != 0 for unsigned x
        for t in list(self.neq):
            self.tle(ONE, t, 0)
        # two different values in a known order
        for p, q in self.apart:
            if self.proves_le(p, q):
                self.tle(p, q, -1)
            elif self.proves_le(q, p):
                self.tle(q, p, -1)

    def le(self, x, y, w):
        """x <= y + w"""
        d = self.edges.setdefault(y, {})
        if w < d.get(x, BIG):
            d[x] = w

    def tle(self, a, b, w):
        """term a <= term b + w"""
        (x, c), (y, d) = lin(a), lin(b)
        self.struct(a)
        self.struct(b)
        self.le(x, y, d - c + w)

    def fact(self, a, v):
        if a.op == "lt":
            if v:
                self.tle(a.args[0], a.args[1], -1)
            else:
                self.tle(a.args[1], a.args[0], 0)
        elif a.op == "eq":
            if v:
                self.tle(a.args[0], a.args[1], 0)
                self.tle(a.args[1], a.args[0], 0)
            else:
                for p, q in (a.args, a.args[::-1]):
                    if isint(q) and q.args[0] == 0 and not isint(p):
                        self.struct(p)
                        self.neq.add(p)
                if not all(isint(q) for q in a.args):
                    self.apart.append(a.args)
        elif a.op == "empty":
            n = T("len", a.args[0])
            self.struct(n)
            if v:
                self.tle(n, ZERO, 0)
            else:
                self.tle(ONE, n, 0)
        elif a.op == "good?" and v:
            t = a.args[0]
            # an element could be taken
            if t.op in ("get", "first", "last", "next") and t.args:
                b = t.args[0]
                i = t.args[1] if len(t.args) > 1 else ZERO
                if i.op == "range":
                    if i.args[1].op != "none":
                        self.tle(i.args[1], T("len", b), 0)
                    self.tle(i.args[0], T("len", b), 0)
                else:
                    self.tle(i, T("len", b), -1)
            if t.op == "mc" and t.args[0] in ("get", "first", "last") and len(t.args) > 1:
                b = t.args[1]
                i = t.args[2][0] if len(t.args) > 2 and isinstance(t.args[2], tuple) and t.args[2] else None
                if i is None:
                    self.tle(ONE, T("len", b), 0)
                elif i.op == "range":
                    self.tle(i.args[0] if i.args[1].op == "none" else i.args[1], T("len", b), 0)
                else:
                    self.tle(i, T("len", b), -1)

    def struct(self, t):
        if t in self.seen:
            return
        self.seen.add(t)
        if isint(t):
            return
        a, c = lin(t)
        if a is None:
            return
        if a is not t:
            self.struct(a)
            return
        self.le(None, t, 0)          # unsigned
        v = self.consts(t)
        if v is not None:
            self.le(t, None, v)
            self.le(None, t, -v)
        o = t.op
        if o == "default":
            self.le(t, None, 0)
        if o == "const":
            v = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "u128": 128, "Balance": 128, "TokenCount": 32, "SerialNumber": 32}.get(str(t.args[0]).split("::")[0])
            if v and str(t.args[0]).endswith("::MAX"):
                self.le(t, None, 2 ** v - 1)
                self.le(None, t, 1 - 2 ** v)
        root = t
        while root.op == "elem":
            root = root.args[0]
        # (the elements of a decoded argument may have been given the type they are clamped to)
        r = self.eng and o in ("param", "f", "unw", "q", "elem", "vp", "storage") and root.op != "arg" and self.eng.type_of(t)
        if r and r[0].get("k") == "Path" and r[0]["p"]:
            v = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "u128": 128, "U64": 64, "U128": 128}.get(r[0]["p"][-1]["n"])
            if v:
                self.le(t, None, 2 ** v - 1)
        if o == "unw" and t.args[0].op == "mc" and t.args[0].args[0] in ("binary_search", "binary_search_by_key", "binary_search_by", "position", "rposition"):
            self.tle(t, T("len", t.args[0].args[1]), -1)
        if o == "min":
            for x in t.args:
                self.tle(t, x, 0)
        elif o == "max":
            for x in t.args:
                self.tle(x, t, 0)
        elif o == "+":
            for x in t.args:
                self.tle(x, t, 0)
        elif o in ("-", "sub", "-sat", "/"):
            self.tle(t, t.args[0], 0)
        elif o == "%" and isint(t.args[1]):
            self.le(t, None, t.args[1].args[0] - 1)
        elif o == "elem" and t.args[0].op == "range":
            lo, hi = t.args[0].args[:2]
            self.tle(lo, t, 0)
            if hi.op != "none":
                self.tle(t, hi, -1)
        elif o == "elem" and t.args[0].op == "enumerate":
            pass
        elif o == "pos":
            self.tle(t, T("len", t.args[0]), -1)
        elif o == "len":
            b = t.args[0]
            if b.op == "unw" and b.args[0].op == "mc" and b.args[0].args[0] == "get" and b.args[0].args[2] and b.args[0].args[2][0].op == "range":
                lo, hi = b.args[0].args[2][0].args[:2]
                if hi.op != "none" and lin(lo)[0] is lin(hi)[0]:
                    k = lin(hi)[1] - lin(lo)[1]
                    self.le(t, None, k)
                    self.le(None, t, -k)
            if b.op == "vec":
                self.le(t, None, len(b.args))
                self.le(None, t, -len(b.args))
            elif b.op == "rep" and isint(b.args[1]):
                self.le(t, None, b.args[1].args[0])
                self.le(None, t, -b.args[1].args[0])
            elif b.op == "slice" and b.args[1].op == "range":
                lo, hi = b.args[1].args[:2]
                hi = T("len", b.args[0]) if hi.op == "none" else hi
                (x, c), (y, d) = lin(lo), lin(hi)
                self.struct(lo)
                self.struct(hi)
                if x is y:
                    self.le(t, None, d - c)
                    self.le(None, t, c - d)
                elif x is None:
                    self.le(t, y, d - c)
                    self.le(y, t, c - d)
            elif b.op == "mut" and b.args[0] in ("push", "push_back", "force_push", "try_push"):
                n = T("len", b.args[1])
                self.tle(t, n, 1)
                self.tle(n, t, -1 if b.args[0] != "try_push" else 0)
            elif b.op == "rep":
                self.same(t, b.args[1])
            elif b.op == "updelem" or (b.op == "mut" and b.args[0] in ("copy_from_slice", "sort", "swap", "reverse", "fill")):
                self.same(t, T("len", b.args[0] if b.op == "updelem" else b.args[1]))
            elif b.op == "phi":
                x = b.args[0]
                self.same(t, T("len", x)) if fixed(b) else None
            n = self.eng and array_len(self.eng, b)
            if n is not None:
                self.le(t, None, n)
                self.le(None, t, -n)

    def same(self, a, b):
        self.tle(a, b, 0)
        self.tle(b, a, 0)

    def proves_le(self, a, b, w=0):
        """a <= b + w on every run of the path"""
        self.struct(a)
        self.struct(b)
        (x, c), (y, d) = lin(a), lin(b)
        goal = d - c + w
        if x is y and goal >= 0:
            return True
        # shortest path from y to x: x <= y + dist
        dist = {y: 0}
        for _ in range(len(self.edges) + 2):
            ch = False
            for u, es in self.edges.items():
                if u in dist:
                    for z, wt in es.items():
                        nd = dist[u] + wt
                        if nd < dist.get(z, BIG):
                            dist[z] = nd
                            ch = True
            if not ch:
                break
        return dist.get(x, BIG) <= goal


LENS = {"keccak_256": 32, "keccak256": 32, "blake2_256": 32, "sha2_256": 32, "twox_128": 16, "serialize": 65, "serialize_compressed": 33, "keccak": 32,
        "as_fixed_bytes": None}


def fixed(b):
    """a loop-carried buffer that starts with a fixed number of elements (fixed-size arrays and vec![x; n] are only written in place)"""
    x = b.args[0]
    while x.op == "updelem":
        x = x.args[0]
    return x.op == "rep"


def array_len(eng, b):
    if b.op == "keccak":
        return 32
    n = str(b.args[0]).split("::")[-1] if b.op in ("call", "mc") and b.args else None
    if n in LENS:
        return LENS[n]
    if n == "encode" and b.op == "mc":
        r = eng.type_of(b.args[1]) if isT(b.args[1]) else None
        if r and r[0].get("k") == "Path":
            return {"U256": 32, "H256": 32, "H160": 20, "u32": 4, "u64": 8, "u128": 16}.get(r[0]["p"][-1]["n"])
    if b.op == "f" and b.args[1] == "0" and b.args[0].op == "default" and b.args[0].args[0] in ("H160", "H256"):
        return 20 if b.args[0].args[0] == "H160" else 32
    r = eng.type_of(b)
    if not r:
        return None
    ty = r[0]
    if ty and ty.get("k") == "Array":
        n = ty.get("n")
        if isinstance(n, dict) and n.get("k") == "Lit":
            try:
                return int(str(n.get("v")).rstrip("usizei3264"))
            except ValueError:
                return None
        if isinstance(n, int):
            return n
    if ty and ty.get("k") == "Path":
        h = ty["p"][-1]["n"] if ty.get("p") else None
        return {"H160": 20, "H256": 32, "AccountId20": 20, "AccountId32": 32}.get(h)
    return None


def safe(eng, st, what, b, i, consts=None):
    """the operation cannot panic on this path"""
    B = Bounds(eng, st.facts, consts)
    if what == "narrow":
        return B.proves_le(b, i)
    if what == "div":
        return B.proves_le(ONE, i)
    n = T("len", b)
    x = b.args[0] if b.op == "unw" else b
    if x.op == "call" and str(x.args[0]) == "hex::decode" and B.proves_le(C(2), T("len", x.args[1][0])):
        B.tle(ONE, n, 0)     # two digits make one byte
    if i.op == "range":
        lo, hi = i.args[:2]
        if hi.op == "none":
            return B.proves_le(lo, n)
        return B.proves_le(lo, hi) and B.proves_le(hi, n)
    return B.proves_le(i, n, -1)
