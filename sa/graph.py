"""Flow-insensitive facts per function: who mentions whom, which storages are written directly.
Used for writer tables: a storage may be written only on behalf of the listed entry points, however the code is
split into helpers."""
from .model import *

MUTATORS = {"insert", "remove", "mutate", "try_mutate", "mutate_exists", "try_mutate_exists", "put", "kill", "set", "take", "append", "try_append", "try_insert",
            "try_push", "clear", "clear_prefix", "remove_prefix", "remove_all", "drain", "drain_prefix", "swap", "translate", "translate_value", "mutate_values", "extract_if"}


def walk(n, cb):
    if isinstance(n, dict):
        cb(n)
        for v in n.values():
            if isinstance(v, (dict, list)):
                walk(v, cb)
    elif isinstance(n, list):
        for x in n:
            if isinstance(x, (dict, list)):
                walk(x, cb)


class FnInfo:
    __slots__ = ("fn", "paths", "methods", "writes", "macros", "nodes")


class Graph:
    def __init__(self, model):
        self.m = model
        self.info = {}
        self.bycrate = {}
        self._callers = {}

    def crate_fns(self, c):
        out = []
        for l in c.fns.values():
            out.extend(l)
        for d in c.methods.values():
            for l in d.values():
                out.extend(l)
        return out

    def of(self, fn):
        k = id(fn)
        if k in self.info:
            return self.info[k]
        i = FnInfo()
        i.fn = fn
        i.paths = []      # (segments, qualified type) of every path expression
        i.methods = set()
        i.writes = {}     # storage -> set of operations
        i.macros = []
        stor = fn.crate.storages

        def cb(n):
            kk = n.get("k")
            if kk == "Path" and "p" in n:
                segs = [x["n"] for x in n["p"]]
                q = n.get("q")
                i.paths.append((segs, q))
                base = None
                if len(segs) >= 2:
                    base = segs[-2]
                if len(segs) == 1 and q is not None:
                    base = head(q)
                if q is not None and n.get("qp") and len(segs) == n["qp"] + 1:
                    base = head(q)
                if base in stor and segs[-1] in MUTATORS:
                    i.writes.setdefault(base, set()).add(segs[-1])
            elif kk == "Method":
                i.methods.add(n.get("m") if isinstance(n.get("m"), str) else n.get("n"))
            elif kk == "Macro":
                i.macros.append(n)
        walk(fn.body or [], cb)
        self.info[k] = i
        return i

    def callers(self, c):
        """name -> set of FnDef ids in crate c mentioning it"""
        if c.name in self._callers:
            return self._callers[c.name]
        d = {}
        for f in self.crate_fns(c):
            i = self.of(f)
            for segs, q in i.paths:
                if len(segs) == 1 and q is None and segs[-1] not in c.fns:
                    # a bare name only refers to free functions
                    continue
                d.setdefault(segs[-1], []).append(f)
            for mth in i.methods:
                d.setdefault(mth, []).append(f)
        self._callers[c.name] = d
        return d

    def external_names(self, c):
        """function names of crate c mentioned through its module path or generically from other crates are entry points"""
        return ()

    def is_root(self, f):
        return f.is_call or f.trait is not None

    def roots(self, fn, seen=None):
        """entry points on whose behalf fn runs"""
        c = fn.crate
        callers = self.callers(c)
        out = set()
        seen = set()
        todo = [fn]
        while todo:
            f = todo.pop()
            if id(f) in seen:
                continue
            seen.add(id(f))
            cs = [g for g in callers.get(f.name, []) if id(g) != id(f)]
            if self.is_root(f):
                out.add(f)
                continue
            if not cs:
                out.add(f)
            todo.extend(cs)
        return out

    def writers(self, c, storage):
        return [f for f in self.crate_fns(c) if storage in self.of(f).writes]
