"""Program model: crates, items, impls, storages, Config bindings - read from the extracted syntax trees."""
import json, os, re, subprocess, sys
from .norm import normal

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SA_REPO", "/repo")


class FnDef:
    __slots__ = ("crate", "file", "name", "self_ty", "trait", "params", "has_self", "self_mut", "self_ref", "ret", "body", "attrs",
                 "line", "gen", "impl_gen", "impl_t", "is_async", "vis", "impl_tr", "is_call")

    def __repr__(self):
        return "%s::%s%s" % (self.crate.name, (self.self_ty + "::") if self.self_ty else "", self.name)

    @property
    def loc(self):
        return "%s:%s" % (self.file, self.line)

    @property
    def qual(self):
        return "%s::%s%s" % (self.crate.name, (self.self_ty + "::") if self.self_ty else "", self.name)


class Storage:
    __slots__ = ("name", "kind", "keys", "val", "query", "default", "crate", "unbounded")

    @property
    def optional(self):
        return self.query not in ("ValueQuery",)

    @property
    def nkeys(self):
        return {"StorageValue": 0, "StorageMap": 1, "CountedStorageMap": 1, "StorageDoubleMap": 2}.get(self.kind, len(self.keys))


class Crate:
    def __init__(self, name, dir):
        self.name = name
        self.dir = dir
        self.fns = {}        # free fns: name -> [FnDef]
        self.methods = {}    # self type head -> name -> [FnDef]
        self.structs = {}
        self.enums = {}
        self.consts = {}
        self.types = {}
        self.traits = {}
        self.storages = {}
        self.getters = {}
        self.uses = {}       # file -> alias -> path
        self.impls = []      # (self_ty head, trait name or None, impl json, file)
        self.config = {}     # Config trait assoc types
        self.macros = []     # item-level macros
        self.macrodefs = {}  # macro_rules: name -> the items its rules write
        self.pallets = {}    # construct_runtime: name -> (crate as written, index)
        self.files = []
        self.deps = {}       # dep alias -> crate
        self.variants = {}   # variant name -> [(enum name)]


def head(t):
    """head name of a type AST"""
    if not t:
        return None
    k = t.get("k")
    if k == "Path":
        return t["p"][-1]["n"] if t["p"] else None
    if k == "Ref":
        return head(t["t"])
    if k == "Slice":
        return "[]"
    if k == "Array":
        return "[;]"
    if k == "Tuple":
        return "()"
    return k


def targs(t):
    if t and t.get("k") == "Path" and t["p"]:
        return [x for x in (t["p"][-1].get("g") or []) if x.get("k") not in ("Other",)]
    return []


def tystr(t):
    if t is None:
        return "()"
    k = t.get("k")
    if k == "Path":
        s = "::".join(x["n"] + ("<" + ",".join(tystr(y) for y in x["g"]) + ">" if x.get("g") else "") for x in t["p"])
        if t.get("q"):
            s = "<%s as>%s" % (tystr(t["q"]), s)
        return s
    if k == "Ref":
        return "&" + ("mut " if t.get("m") else "") + tystr(t["t"])
    if k == "Tuple":
        return "(" + ",".join(tystr(x) for x in t["a"]) + ")"
    if k == "Slice":
        return "[" + tystr(t["t"]) + "]"
    if k == "Array":
        return "[" + tystr(t["t"]) + ";]"
    if k == "Assoc":
        return t["n"] + "=" + tystr(t["t"])
    if k == "FnArgs":
        return "fn(" + ",".join(tystr(x) for x in t["i"]) + ")"
    return t.get("s", k)


class Model:
    def __init__(self, root=None, ast=None):
        self.root = root or REPO
        self.crates = {}      # by package name
        self.bydir = {}
        self.nfiles = 0
        self.errors = []
        data = ast if ast is not None else run_extract(self.root)
        self._load(data)

    # -------------------------------------------------------------------------------------
    def _load(self, data):
        dirs = {}
        for dp, dn, fn in os.walk(self.root):
            dn[:] = [d for d in dn if d not in ("target", ".git", "node_modules", "e2e")]
            if "Cargo.toml" in fn:
                try:
                    s = open(os.path.join(dp, "Cargo.toml")).read()
                except OSError:
                    continue
                m = re.search(r'(?ms)^\[package\].*?^name\s*=\s*"([^"]+)"', s)
                if m:
                    rel = os.path.relpath(dp, self.root)
                    c = Crate(m.group(1), rel)
                    dirs[rel] = c
                    self.crates[m.group(1)] = c
                    self.bydir[rel] = c
        for f in data:
            self.nfiles += 1
            if "error" in f:
                self.errors.append((f["file"], f["error"]))
                continue
            if f.get("dead"):
                continue
            d = os.path.dirname(f["file"])
            while d and d not in dirs:
                d = os.path.dirname(d)
            c = dirs.get(d) or dirs.get(".")
            if c is None:
                continue
            c.files.append(f["file"])
            c.uses.setdefault(f["file"], {})
            self._items(c, f["file"], f["items"], [])

    def _items(self, c, file, items, mod):
        for i in items:
            k = i["k"]
            if k == "Fn":
                fd = mkfn(c, file, i, None, None, None)
                c.fns.setdefault(i["n"], []).append(fd)
            elif k == "Struct":
                c.structs.setdefault(i["n"], i)
                i["file"] = file
            elif k == "Enum":
                i["file"] = file
                c.enums.setdefault(i["n"], i)
                for v in i["vs"]:
                    c.variants.setdefault(v["n"], []).append(i["n"])
            elif k == "Const":
                i["file"] = file
                c.consts.setdefault(i["n"], i)
            elif k == "Type":
                st = None
                for a in i["attrs"]:
                    if a["p"].endswith("pallet::storage"):
                        st = a
                if st is not None:
                    s = mkstorage(c, i)
                    c.storages[i["n"]] = s
                    for a in i["attrs"]:
                        if a["p"].endswith("pallet::getter"):
                            m = re.search(r"fn\s+(\w+)", a.get("t", ""))
                            if m:
                                c.getters[m.group(1)] = i["n"]
                else:
                    c.types.setdefault(i["n"], i)
            elif k == "Trait":
                i["file"] = file
                if i["n"] == "Config" and any(a["p"].endswith("pallet::config") for a in i["attrs"]):
                    for x in i["items"]:
                        if x["k"] == "Type":
                            c.config[x["n"]] = x
                c.traits.setdefault(i["n"], i)
            elif k == "Impl":
                h = head(i["t"])
                tr = i["tr"][-1]["n"] if i["tr"] else None
                c.impls.append((h, tr, i, file))
                for x in i["items"]:
                    if x["k"] == "Fn":
                        fd = mkfn(c, file, x, h, tr, i)
                        c.methods.setdefault(h, {}).setdefault(x["n"], []).append(fd)
                    elif x["k"] == "Const":
                        x["file"] = file
                        c.consts.setdefault((h, x["n"]), x)
            elif k == "Mod":
                if "items" in i:
                    self._items(c, file, i["items"], mod + [i["n"]])
            elif k == "Use":
                for al, p in i["u"]:
                    if al != "*":
                        c.uses[file].setdefault(al, p)
            elif k == "Macro":
                i["file"] = file
                c.macros.append(i)
                if i.get("n") == "construct_runtime":
                    self._runtime(c, i)
                if i.get("rules"):
                    sub = Crate(c.name, c.dir)
                    sub.uses = {file: c.uses[file]}
                    for r in i["rules"]:
                        self._items(sub, file, r, mod)
                    for fs in list(sub.fns.values()) + [x for d in sub.methods.values() for x in d.values()]:
                        for f in fs:
                            f.crate = c
                    c.macrodefs[i["def"]] = sub
                if "items" in i and i.get("n") not in ("macro_rules",):
                    self._items(c, file, i["items"], mod)

    def _runtime(self, c, i):
        body = [t for t in i.get("toks", []) if isinstance(t, dict)]
        cur, parts = [], []
        for t in (body[-1]["c"] if body else []):
            if t == ",":
                parts.append(cur)
                cur = []
            else:
                cur.append(t)
        parts.append(cur)
        for p in parts:
            w = [t for t in p if isinstance(t, str)]
            if len(w) >= 3 and w[1] == ":":
                idx = w[w.index("=") + 1] if "=" in w else None
                path = [x for x in w[2:w.index("=") if "=" in w else len(w)] if x != ":"]
                c.pallets[w[0]] = (path, idx)

    # -------------------------------------------------------------------------------------
    def crate(self, name):
        return self.crates[name]

    def pallet(self, short):
        """crate by directory name below pallet/ (or a relative directory)"""
        return self.bydir.get("pallet/" + short) or self.bydir.get(short)

    def find_struct(self, name, crate=None):
        return self._find("structs", name, crate)

    def find_enum(self, name, crate=None):
        return self._find("enums", name, crate)

    def find_type(self, name, crate=None):
        return self._find("types", name, crate)

    def _find(self, kind, name, crate):
        if crate is not None:
            d = getattr(crate, kind)
            if name in d:
                return crate, d[name]
        hits = [(c, getattr(c, kind)[name]) for c in self.crates.values() if name in getattr(c, kind)]
        if len(hits) == 1:
            return hits[0]
        if hits:
            pri = [h for h in hits if h[0].dir in ("primitives", "pallet/common")]
            if len(pri) == 1:
                return pri[0]
        return None

    def methods_named(self, name):
        out = []
        for c in self.crates.values():
            for h, d in c.methods.items():
                for f in d.get(name, []):
                    out.append(f)
        return out

    def fns_all(self):
        for c in self.crates.values():
            for l in c.fns.values():
                for f in l:
                    yield f
            for d in c.methods.values():
                for l in d.values():
                    for f in l:
                        yield f


def mkfn(c, file, i, h, tr, impl):
    f = FnDef()
    f.crate = c
    f.file = file
    f.name = i["n"]
    f.self_ty = h
    f.trait = tr
    f.impl_t = impl["t"] if impl else None
    f.impl_tr = impl["tr"] if impl else None
    f.impl_gen = impl["gen"] if impl else None
    f.gen = i.get("gen")
    f.is_call = bool(impl) and any(a["p"].endswith("pallet::call") for a in (impl.get("attrs") or []))
    f.attrs = i["attrs"]
    f.body = normal(i.get("b"))
    f.line = i.get("l")
    f.ret = assoc_type(i.get("out"), impl)
    f.is_async = i.get("async")
    f.vis = i.get("v", "")
    f.has_self = False
    f.self_mut = False
    f.self_ref = False
    f.params = []
    for p in i["in"]:
        if p.get("self"):
            f.has_self = True
            f.self_mut = bool(p["m"]) and bool(p["ref"])
            f.self_ref = bool(p["ref"])
        else:
            f.params.append((p["p"], assoc_type(p["t"], impl)))
    return f


def assoc_type(t, impl, depth=0):
    """`Self::X` names the associated type X of the surrounding impl block"""
    if depth > 3 or not t or not impl or "items" not in impl:
        return t
    if t.get("k") == "Ref":
        r = assoc_type(t["t"], impl, depth + 1)
        return t if r is t["t"] else dict(t, t=r)
    if t.get("k") == "Path" and len(t["p"]) == 2 and t["p"][0]["n"] == "Self" and "q" not in t:
        for x in impl["items"]:
            if x["k"] == "Type" and x["n"] == t["p"][1]["n"] and x.get("t"):
                return assoc_type(x["t"], impl, depth + 1)
    return t


def mkstorage(c, i):
    t = i["t"]
    s = Storage()
    s.name = i["n"]
    s.crate = c
    s.kind = head(t)
    s.unbounded = any(a["p"].endswith("unbounded") for a in i["attrs"])
    ga = [x for x in (t["p"][-1].get("g") or [])]
    named = {x["n"]: x["t"] for x in ga if x.get("k") == "Assoc"}
    pos = [x for x in ga if x.get("k") != "Assoc"]
    s.keys = []
    s.query = "OptionQuery"
    s.default = None
    if named:
        s.val = named.get("Value")
        s.query = head(named.get("QueryKind")) or "OptionQuery"
        for kk in ("Key", "Key1", "Key2"):
            if kk in named:
                s.keys.append(named[kk])
        return s
    rest = pos[1:]  # drop prefix
    if s.kind == "StorageValue":
        s.val = rest[0]
        rest = rest[1:]
    elif s.kind in ("StorageMap", "CountedStorageMap"):
        s.keys = [rest[1]]
        s.val = rest[2]
        rest = rest[3:]
    elif s.kind == "StorageDoubleMap":
        s.keys = [rest[1], rest[3]]
        s.val = rest[4]
        rest = rest[5:]
    elif s.kind == "StorageNMap":
        s.keys = [x for x in (rest[0].get("a") or [rest[0]])]
        s.val = rest[1]
        rest = rest[2:]
    else:
        s.val = rest[-1] if rest else None
        rest = []
    if rest:
        s.query = head(rest[0]) or "OptionQuery"
        if s.query == "ResultQuery":
            s.query = "OptionQuery"
    if len(rest) > 1:
        s.default = rest[1]
    return s


def run_extract(root):
    exe = os.path.join(VERIF, "extract", "target", "release", "extract")
    src = os.path.join(VERIF, "extract", "src", "main.rs")
    if not os.path.exists(exe) or os.path.getmtime(exe) < os.path.getmtime(src) - 1:
        subprocess.run(["cargo", "build", "--release", "--offline", "-q"], cwd=os.path.join(VERIF, "extract"), check=True,
                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    out = subprocess.run([exe, root], check=True, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL).stdout
    return json.loads(out)
