#!/usr/bin/env python3
"""refac.py [NAME,...|all] [PROPS...] - behaviour-preserving rewrites of the whole tree, on which every rule has to stay quiet.
Each rewrite is applied to the syntax trees of all functions at once; prints the rules that raise an alarm."""
import sys, os, copy, json, re, importlib, pkgutil, multiprocessing as mp
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.setrecursionlimit(30000)
os.environ["SA_DEADLINE"] = os.environ.get("SA_DEADLINE", "600")

C = {}
NUM = [0]
RES = ("Result", "DispatchResult", "DispatchResultWithPostInfo", "EvmResult", "PrecompileResult", "TransactionValidity")


def fresh(p="z"):
    NUM[0] += 1
    return "%s_%d" % (p, NUM[0])


def path(n):
    return {"k": "Path", "p": [{"n": x} for x in n.split("::")], "l": 1}


def ident(n, mut=False):
    return {"k": "Ident", "n": n, "r": False, "m": mut, "sub": None}


def call(f, *a):
    return {"k": "Call", "f": path(f), "a": list(a), "l": 1}


def meth(r, m, *a):
    return {"k": "Method", "r": r, "m": m, "a": list(a), "l": 1}


def local(n, e, mut=False):
    return {"k": "Local", "p": ident(n, mut) if isinstance(n, str) else n, "e": e, "l": 1}


def es(e, semi=True):
    return {"k": "Expr", "e": e, "semi": semi, "l": 1}


def ret(e):
    return {"k": "Return", "e": e, "l": 1}


def err(e):
    return call("Err", meth(e, "into"))


def ts(n, *a):
    return {"k": "TupleStruct", "p": [{"n": n}], "a": list(a)}


def match(e, *arms):
    return {"k": "Match", "e": e, "arms": [{"p": p, "g": None, "b": b, "l": 1} for p, b in arms], "l": 1}


def blk(*s):
    return {"k": "Block", "b": list(s), "l": 1}


NEG = {"==": "!=", "!=": "==", "<": ">=", ">=": "<", ">": "<=", "<=": ">"}


def neg(c):
    if c.get("k") == "Unary" and c["o"] == "!":
        return c["e"]
    if c.get("k") == "Binary" and c["o"] in NEG:
        return dict(c, o=NEG[c["o"]])
    if c.get("k") == "Binary" and c["o"] in ("&&", "||"):
        return dict(c, o="||" if c["o"] == "&&" else "&&", a=neg(c["a"]), b=neg(c["b"]))
    return {"k": "Unary", "o": "!", "e": c}


def haslet(c):
    return isinstance(c, dict) and (c.get("k") == "Let" or c.get("k") == "Binary" and (haslet(c["a"]) or haslet(c["b"])))


def sub(n, stop=()):
    """all nodes below"""
    if isinstance(n, dict):
        yield n
        for k, v in n.items():
            if isinstance(v, dict) and v.get("k") in stop:
                continue
            yield from sub(v, stop)
    elif isinstance(n, list):
        for v in n:
            if isinstance(v, dict) and v.get("k") in stop:
                continue
            yield from sub(v, stop)


def has(n, *ks, stop=()):
    return any(x.get("k") in ks for x in sub(n, stop))


def uses(n):
    o = set()
    for x in sub(n):
        if x.get("k") == "Path" and len(x.get("p", [])) == 1 and not x.get("q"):
            o.add(x["p"][0]["n"])
        for t in x.get("toks") or []:
            o.update(re.findall(r"\w+", json.dumps(t)))
    return o


def binds(p):
    return {x["n"] for x in sub(p) if x.get("k") == "Ident" and "r" in x and not x["n"][0].isupper()}


def rewrite(n, fe=None, fb=None, clos=False):
    """bottom-up: fe(expression node, in closure) -> node; fb(list of statements, in closure) -> list"""
    if isinstance(n, dict):
        c2 = clos or n.get("k") in ("Closure", "Async")
        m = {k: rewrite(v, fe, fb, c2) if k not in ("toks", "attrs", "g", "gen") or (k == "g" and isinstance(v, dict)) else v for k, v in n.items()}
        return fe(m, clos) if fe and m.get("k") else m
    if isinstance(n, list):
        m = [rewrite(v, fe, fb, clos) for v in n]
        if fb and m and all(isinstance(x, dict) and x.get("k") in ("Local", "Expr", "Item") and ("l" in x or x["k"] == "Item") for x in m):
            return fb(m, clos)
        return m
    return n


def eachfn(data, f):
    """f(fn item, enclosing impl or None, list to add items to) -> new fn item"""
    def go(items, top):
        out = []
        for i in items:
            k = i.get("k")
            if k == "Fn" and "b" in i:
                out.append(f(i, None, out))
            elif k == "Impl":
                extra = []
                i = dict(i, items=[f(x, i, extra) if x.get("k") == "Fn" and "b" in x else x for x in i["items"]])
                out.append(i)
                if extra:
                    out.append(dict(i, tr=None, attrs=[], items=extra))
            elif k == "Trait":
                i = dict(i, items=[f(x, i, None) if x.get("k") == "Fn" and "b" in x else x for x in i["items"]])
                out.append(i)
            elif k == "Mod" and "items" in i:
                out.append(dict(i, items=go(i["items"], False)))
            else:
                out.append(i)
        return out
    return [dict(d, items=go(d["items"], True)) if "items" in d else d for d in data]


def bodies(data, fe=None, fb=None, fn=None):
    def f(i, im, add):
        b = rewrite(i["b"], fe, fb)
        if fn:
            b = fn(dict(i, b=b))
        return dict(i, b=b)
    return eachfn(data, f)


def result(i):
    r = i.get("out")
    return isinstance(r, dict) and r.get("k") == "Path" and r["p"][-1]["n"] in RES


# ---- the rewrites -----------------------------------------------------------------------------------------------
R = {}


def rw(f):
    R[f.__name__] = f
    return f


def isensure(s):
    return s.get("k") == "Expr" and s["e"].get("k") == "Macro" and s["e"]["n"] == "ensure" and len(s["e"].get("a", [])) == 2


def ife(c, t, e=None):
    d = {"k": "If", "c": c, "t": t, "l": 1}
    if e is not None:
        d["e"] = e
    return d


@rw
def ensure_if(data):
    def fb(b, c):
        return [es(ife(neg(s["e"]["a"][0]), [es(ret(err(s["e"]["a"][1])))]), False) if isensure(s) else s for s in b]
    return bodies(data, fb=fb)


@rw
def ensure_ifnot(data):
    def fb(b, c):
        return [es(ife({"k": "Unary", "o": "!", "e": s["e"]["a"][0]}, [es(ret(err(s["e"]["a"][1])))]), False) if isensure(s) else s for s in b]
    return bodies(data, fb=fb)


@rw
def ensure_split(data):
    def fb(b, c):
        o = []
        for s in b:
            if isensure(s) and s["e"]["a"][0].get("k") == "Binary" and s["e"]["a"][0]["o"] == "&&":
                x = s["e"]["a"][0]
                o += [es(dict(s["e"], a=[x["a"], s["e"]["a"][1]])), es(dict(s["e"], a=[x["b"], s["e"]["a"][1]]))]
            else:
                o.append(s)
        return o
    return bodies(data, fb=fb)


@rw
def ensure_ok(data):
    """ensure!(c, e) -> (if c { Ok(()) } else { Err(e) })?"""
    def fb(b, c):
        return [es({"k": "Try", "l": 1, "e": ife(s["e"]["a"][0], [es(call("Ok", {"k": "Tuple", "a": []}), False)], blk(es(call("Err", s["e"]["a"][1]), False)))}) if isensure(s) else s for s in b]
    return bodies(data, fb=fb)


@rw
def if_ensure(data):
    def fb(b, c):
        o = []
        for s in b:
            if s.get("k") == "Expr" and s["e"].get("k") == "If" and "e" not in s["e"] and not haslet(s["e"]["c"]) and len(s["e"]["t"]) == 1:
                t = s["e"]["t"][0]
                r = t.get("e") or {}
                if r.get("k") == "Return" and (r.get("e") or {}).get("k") == "Call" and r["e"]["f"].get("p", [{}])[-1].get("n") == "Err":
                    o.append(es({"k": "Macro", "n": "ensure", "l": 1, "a": [neg(s["e"]["c"]), r["e"]["a"][0]]}))
                    continue
            o.append(s)
        return o
    return bodies(data, fb=fb)


@rw
def try_match(data):
    def f(i, im, add):
        if not result(i):
            return i

        def fe(n, c):
            if n["k"] == "Try" and not c:
                v, x = fresh("v"), fresh("e")
                return match(n["e"], (ts("Ok", ident(v)), path(v)), (ts("Err", ident(x)), blk(es(ret(err(path(x)))))))
            return n
        return dict(i, b=rewrite(i["b"], fe))
    return eachfn(data, f)


def okor(e):
    if e.get("k") == "Try" and e["e"].get("k") == "Method" and e["e"]["m"] in ("ok_or", "ok_or_else"):
        a = e["e"]["a"][0]
        if e["e"]["m"] == "ok_or_else":
            if a.get("k") != "Closure":
                return None
            a = a["b"]
        return e["e"]["r"], a


@rw
def okor_letelse(data):
    def fb(b, c):
        o = []
        for s in b:
            q = s.get("k") == "Local" and s.get("e") and okor(s["e"])
            if q:
                o.append({"k": "Local", "p": ts("Some", s["p"]), "e": q[0], "else": blk(es(ret(err(q[1])))), "l": 1})
            else:
                o.append(s)
        return o
    return bodies(data, fb=fb)


@rw
def okor_match(data):
    def fe(n, c):
        q = okor(n) if n["k"] == "Try" else None
        if q:
            v = fresh("v")
            return match(q[0], (ts("Some", ident(v)), path(v)), ({"k": "Path", "p": [{"n": "None"}]}, blk(es(ret(err(q[1]))))))
        return n
    return bodies(data, fe=fe)


@rw
def iflet_match(data):
    def fe(n, c):
        if n["k"] == "If" and n["c"].get("k") == "Let":
            return match(n["c"]["e"], (n["c"]["p"], blk(*n["t"])), ({"k": "Wild"}, n.get("e") or blk()))
        return n
    return bodies(data, fe=fe)


@rw
def match_iflet(data):
    def fe(n, c):
        if n["k"] == "Match" and len(n["arms"]) == 2 and not any(a["g"] for a in n["arms"]):
            a, b = n["arms"]
            if not binds(b["p"]) and a["p"].get("k") in ("TupleStruct", "Struct", "Path"):
                w = lambda x: x["b"]["b"] if x["b"].get("k") == "Block" and "label" not in x["b"] else [es(x["b"], False)]
                return ife({"k": "Let", "p": a["p"], "e": n["e"]}, w(a), blk(*w(b)))
        return n
    return bodies(data, fe=fe)


@rw
def arms_swap(data):
    def fe(n, c):
        if n["k"] == "Match" and len(n["arms"]) >= 2 and not any(a["g"] for a in n["arms"]):
            ks = [(a["p"].get("p") or [{}])[-1].get("n") for a in n["arms"] if a["p"].get("k") in ("TupleStruct", "Struct", "Path") and not any(
                y.get("k") in ("Lit", "TupleStruct", "Path", "Range") for y in sub(a["p"].get("a") or a["p"].get("f") or []))]
            if len(ks) == len(n["arms"]) and len(set(ks)) == len(ks):
                return dict(n, arms=n["arms"][::-1])
        return n
    return bodies(data, fe=fe)


@rw
def cmp_swap(data):
    M = {"==": "==", "!=": "!=", "<": ">", ">": "<", "<=": ">=", ">=": "<="}

    def fe(n, c):
        if n["k"] == "Binary" and n["o"] in M:
            return dict(n, o=M[n["o"]], a=n["b"], b=n["a"])
        return n
    return bodies(data, fe=fe)


@rw
def if_flip(data):
    def fe(n, c):
        if n["k"] == "If" and n.get("e") and not haslet(n["c"]):
            e = n["e"]
            return ife(neg(n["c"]), e["b"] if e.get("k") == "Block" and "label" not in e else [es(e, False)], blk(*n["t"]))
        return n
    return bodies(data, fe=fe)


@rw
def if_match(data):
    """if c {A} else {B} -> match c { true => A, false => B }"""
    def fe(n, c):
        if n["k"] == "If" and not haslet(n["c"]):
            return match(n["c"], ({"k": "Lit", "e": {"k": "Lit", "t": "bool", "v": True}}, blk(*n["t"])), ({"k": "Lit", "e": {"k": "Lit", "t": "bool", "v": False}}, n.get("e") or blk()))
        return n
    return bodies(data, fe=fe)


@rw
def and_nest(data):
    def fe(n, c):
        if n["k"] == "If" and not n.get("e") and n["c"].get("k") == "Binary" and n["c"]["o"] == "&&" and not haslet(n["c"]):
            return ife(n["c"]["a"], [es(ife(n["c"]["b"], n["t"]), False)])
        return n
    return bodies(data, fe=fe)


def trivial(e):
    return e.get("k") in ("Path", "Lit", "Closure", "Field", "Ref", "Tuple", "Array", "Unary", "Macro", "Range")


@rw
def hoist_args(data):
    def fb(b, c):
        o = []
        for s in b:
            e = s.get("e") if s.get("k") in ("Local", "Expr") and "else" not in s else None
            w = e
            while w and w.get("k") == "Try":
                w = w["e"]
            if w and w.get("k") == "Call" and any(not trivial(a) for a in w["a"]):
                na = []
                for a in w["a"]:
                    if trivial(a):
                        na.append(a)
                    else:
                        v = fresh("h")
                        o.append(local(v, a))
                        na.append(path(v))
                nw = dict(w, a=na)
                x = e
                chain = 0
                while x.get("k") == "Try":
                    chain += 1
                    x = x["e"]
                for _ in range(chain):
                    nw = {"k": "Try", "e": nw, "l": 1}
                s = dict(s, e=nw)
            o.append(s)
        return o
    return bodies(data, fb=fb)


@rw
def hoist_conds(data):
    def fb(b, c):
        o = []
        for s in b:
            if isensure(s):
                v = fresh("c")
                o.append(local(v, s["e"]["a"][0]))
                s = dict(s, e=dict(s["e"], a=[path(v), s["e"]["a"][1]]))
            elif s.get("k") == "Expr" and s["e"].get("k") == "If" and not haslet(s["e"]["c"]):
                v = fresh("c")
                o.append(local(v, s["e"]["c"]))
                s = dict(s, e=dict(s["e"], c=path(v)))
            elif s.get("k") == "Expr" and s["e"].get("k") in ("Match", "For") :
                v = fresh("c")
                o.append(local(v, s["e"]["e"]))
                s = dict(s, e=dict(s["e"], e=path(v)))
            elif s.get("k") == "Local" and s.get("e") and s["e"].get("k") == "Try":
                v = fresh("c")
                o.append(local(v, s["e"]["e"]))
                s = dict(s, e=dict(s["e"], e=path(v)))
            o.append(s)
        return o
    return bodies(data, fb=fb)


@rw
def hoist_operands(data):
    """ensure!(A == B) -> let a = A; let b = B; ensure!(a == b)"""
    def fb(b, c):
        o = []
        for s in b:
            if isensure(s) and s["e"]["a"][0].get("k") == "Binary" and s["e"]["a"][0]["o"] in NEG:
                x = s["e"]["a"][0]
                y = {}
                for k in ("a", "b"):
                    if trivial(x[k]):
                        y[k] = x[k]
                    else:
                        v = fresh("h")
                        o.append(local(v, x[k]))
                        y[k] = path(v)
                s = dict(s, e=dict(s["e"], a=[dict(x, **y), s["e"]["a"][1]]))
            o.append(s)
        return o
    return bodies(data, fb=fb)


@rw
def inline_let(data):
    def fb(b, c):
        o = []
        i = 0
        while i < len(b):
            s = b[i]
            if i + 1 < len(b) and s.get("k") == "Local" and s.get("p", {}).get("k") == "Ident" and not s["p"]["m"] and not s["p"].get("sub") and s.get("e") and "else" not in s:
                n = s["p"]["n"]
                nx = b[i + 1]
                cnt = [x for x in sub(nx) if x.get("k") == "Path" and len(x.get("p", [])) == 1 and x["p"][0]["n"] == n]
                later = uses(b[i + 2:])
                w = nx.get("e") or {}
                w = w["e"] if w.get("k") == "Try" else w
                ok = w.get("k") in ("Call", "Macro", "Method") and nx.get("k") in ("Local", "Expr")
                if ok and len(cnt) == 1 and n not in later and n not in uses([x.get("toks") for x in sub(nx)]) and not has(nx, "Closure", "If", "Match", "For", "While", "Loop") and "toks" not in json.dumps(nx) and not (w["k"] == "Method" and not w.get("a")):
                    # only when it is the first thing evaluated
                    args = w.get("a", [])
                    if w["k"] == "Call" and args and args[0] is cnt[0] or w["k"] == "Method" and w["r"] is cnt[0] or w["k"] == "Call" and any(a is cnt[0] for a in args) and all(trivial(a) for a in args):
                        def fe(x, cc):
                            return x
                        t = copy.deepcopy(nx)
                        tw = t["e"]["e"] if t["e"].get("k") == "Try" else t["e"]
                        if w["k"] == "Method" and w["r"] is cnt[0]:
                            tw["r"] = s["e"]
                        else:
                            for j, a in enumerate(args):
                                if a is cnt[0]:
                                    tw["a"][j] = s["e"]
                        o.append(t)
                        i += 2
                        continue
            o.append(s)
            i += 1
        return o
    return bodies(data, fb=fb)


@rw
def rename(data):
    def f(i, im, add):
        names = set()
        for x in sub(i["b"]):
            if x.get("k") == "Ident" and "r" in x and not x["n"][0].isupper() and x["n"] != "self":
                names.add(x["n"])
        # names used in token streams cannot be renamed
        for x in sub(i["b"]):
            for t in x.get("toks") or []:
                names -= set(re.findall(r"\w+", json.dumps(t)))
            if x.get("k") == "Lit" and x.get("t") == "str":
                names -= set(re.findall(r"\{(\w+)", x["v"]))

        def fe(n, c):
            if n["k"] == "Ident" and "r" in n and n["n"] in names:
                return dict(n, n=n["n"] + "_rn")
            if n["k"] == "Path" and len(n.get("p", [])) == 1 and n["p"][0]["n"] in names and not n.get("q"):
                return dict(n, p=[dict(n["p"][0], n=n["p"][0]["n"] + "_rn")])
            return n

        # parameters keep their names in the signature: bind them again
        ps = [p for p in params(i) if p in names]
        return dict(i, b=[local(p + "_rn", path(p), mut=True) for p in ps] + rewrite(i["b"], fe))
    return eachfn(data, f)


def typed(i):
    return [x for x in i["in"] if not x.get("self")]


def params(i):
    return [x["p"]["n"] if x["p"].get("k") == "Ident" else None for x in typed(i)]


@rw
def for_while(data):
    def fe(n, c):
        if n["k"] == "For" and "label" not in n:
            v = fresh("it")
            return blk(local(v, meth(n["e"], "into_iter"), True), es({"k": "While", "c": {"k": "Let", "p": ts("Some", n["p"]), "e": meth(path(v), "next")}, "b": n["b"], "l": 1}, False))
        return n
    return bodies(data, fe=fe)


def listof(e):
    """X for X, &X, X.iter(), X.iter().cloned()..."""
    c = []
    while e.get("k") == "Method" and not e["a"] and e["m"] in ("iter", "into_iter", "cloned", "copied"):
        c.append(e["m"])
        e = e["r"]
    r = e
    while r.get("k") == "Ref" and not r.get("m"):
        r = r["e"]
        c.append("&")
    w = r
    while w.get("k") == "Field":
        w = w["e"]
    if c and w.get("k") == "Path" and len(w["p"]) == 1 and w["p"][0]["n"][0].islower():
        return r


@rw
def for_index(data):
    """for p in X.iter() { .. } -> for i in 0..X.len() { let p = &X[i]; .. }"""
    def fe(n, c):
        if n["k"] == "For" and listof(n["e"]) is not None:
            i = fresh("i")
            x = listof(n["e"])
            return dict(n, p=ident(i), e={"k": "Range", "s": {"k": "Lit", "t": "int", "v": "0", "s": ""}, "e": meth(x, "len"), "incl": False},
                        b=[local(n["p"], {"k": "Ref", "m": False, "e": {"k": "Index", "e": x, "i": path(i), "l": 1}})] + n["b"])
        return n
    return bodies(data, fe=fe)


@rw
def for_counter(data):
    """for i in a..b { .. } and for p in X.iter() { .. } -> let mut i = a; while i < b { ..; i += 1; }"""
    def fe(n, c):
        if n["k"] == "For" and not has(n["b"], "Continue", stop=("For", "While", "Loop", "Closure")):
            x = listof(n["e"])
            one = {"k": "Lit", "t": "int", "v": "1", "s": ""}
            if x is not None:
                i = fresh("i")
                return blk(local(i, {"k": "Lit", "t": "int", "v": "0", "s": ""}, True), es({"k": "While", "c": {"k": "Binary", "o": "<", "a": path(i), "b": meth(x, "len"), "l": 1}, "l": 1,
                           "b": [local(n["p"], {"k": "Ref", "m": False, "e": {"k": "Index", "e": x, "i": path(i), "l": 1}})] + n["b"] + [es({"k": "Binary", "o": "+=", "a": path(i), "b": one, "l": 1})]}, False))
            if n["e"].get("k") == "Range" and n["p"].get("k") == "Ident" and not n["e"]["incl"]:
                i = n["p"]["n"]
                h = fresh("hi")
                return blk(local(h, n["e"]["e"]), local(i, n["e"]["s"], True), es({"k": "While", "c": {"k": "Binary", "o": "<", "a": path(i), "b": path(h), "l": 1}, "l": 1,
                           "b": n["b"] + [es({"k": "Binary", "o": "+=", "a": path(i), "b": one, "l": 1})]}, False))
        return n
    return bodies(data, fe=fe)


@rw
def any_loop(data):
    """X.iter().any(|p| c) -> a loop with a flag"""
    def fe(n, c):
        if n["k"] == "Method" and n["m"] in ("any", "all") and len(n["a"]) == 1 and n["a"][0].get("k") == "Closure" and not has(n["a"][0]["b"], "Try", "Return"):
            cl = n["a"][0]
            v = fresh("flag")
            lit = lambda b: {"k": "Lit", "t": "bool", "v": b}
            w = n["m"] == "any"
            return blk(local(v, lit(not w), True),
                       es({"k": "For", "p": cl["a"][0], "e": n["r"], "b": [es(ife(cl["b"] if w else {"k": "Unary", "o": "!", "e": cl["b"]}, [es({"k": "Assign", "a": path(v), "b": lit(w), "l": 1}), es({"k": "Break"})]), False)], "l": 1}, False),
                       es(path(v), False))
        return n
    return bodies(data, fe=fe)


@rw
def fold_loop(data):
    """X.fold(init, |a, p| e) -> a loop with an accumulator"""
    def fe(n, c):
        if n["k"] == "Method" and n["m"] == "fold" and len(n["a"]) == 2 and n["a"][1].get("k") == "Closure" and not has(n["a"][1]["b"], "Try", "Return") and n["a"][1]["a"][0].get("k") == "Ident":
            cl = n["a"][1]
            v = cl["a"][0]["n"]
            return blk(local(v, n["a"][0], True), es({"k": "For", "p": cl["a"][1], "e": n["r"], "b": [es({"k": "Assign", "a": path(v), "b": cl["b"], "l": 1})], "l": 1}, False), es(path(v), False))
        return n
    return bodies(data, fe=fe)


@rw
def filter_if(data):
    """for p in X.filter(|q| c) -> for p in X { if c {..} }"""
    def fe(n, c):
        if n["k"] == "For" and n["e"].get("k") == "Method" and n["e"]["m"] == "filter" and n["e"]["a"][0].get("k") == "Closure" and n["p"].get("k") in ("Ident", "Tuple"):
            cl = n["e"]["a"][0]
            if n["p"]["k"] == "Ident":
                arg = path(n["p"]["n"])
                return dict(n, e=n["e"]["r"], b=[es(ife(blk(local(cl["a"][0], {"k": "Ref", "m": False, "e": arg}), es(cl["b"], False)), n["b"]), False)])
        return n
    return bodies(data, fe=fe)


@rw
def for_each(data):
    def fe(n, c):
        if n["k"] == "For" and not has(n["b"], "Try", "Return", "Break", "Continue", stop=("Closure",)) and "ensure" not in json.dumps(n["b"]) and not any(x.get("k") == "Macro" and x["n"] == "ensure" for x in sub(n["b"])):
            return meth(meth(n["e"], "into_iter"), "for_each", {"k": "Closure", "a": [n["p"]], "b": blk(*n["b"]), "async": False})
        return n
    return bodies(data, fe=fe)


@rw
def try_for_each(data):
    def f(i, im, add):
        if not result(i):
            return i

        def fb(b, c):
            o = []
            for s in b:
                n = s.get("e") if s.get("k") == "Expr" else None
                if n and n.get("k") == "For" and not c and not has(n["b"], "Return", "Break", "Continue", stop=("Closure", "For", "While", "Loop")):
                    s = es({"k": "Try", "l": 1, "e": meth(meth(n["e"], "into_iter"), "try_for_each", {"k": "Closure", "a": [n["p"]], "b": blk(*n["b"], es(call("Ok", {"k": "Tuple", "a": []}), False)), "async": False})})
                o.append(s)
            return o
        return dict(i, b=rewrite(i["b"], None, fb))
    return eachfn(data, f)


@rw
def foreach_for(data):
    def fb(b, c):
        o = []
        for s in b:
            n = s.get("e") if s.get("k") == "Expr" else None
            if n and n.get("k") == "Method" and n["m"] == "for_each" and n["a"][0].get("k") == "Closure" and not has(n["a"][0]["b"], "Return"):
                cl = n["a"][0]
                s = es({"k": "For", "p": cl["a"][0], "e": n["r"], "b": cl["b"]["b"] if cl["b"].get("k") == "Block" else [es(cl["b"])], "l": 1}, False)
            o.append(s)
        return o
    return bodies(data, fb=fb)


@rw
def assign_op(data):
    def fe(n, c):
        if n["k"] == "Binary" and n["o"] in ("+=", "-=", "*=", "/="):
            return {"k": "Assign", "a": n["a"], "b": {"k": "Binary", "o": n["o"][0], "a": n["a"], "b": n["b"], "l": 1}, "l": 1}
        return n
    return bodies(data, fe=fe)


@rw
def early_else(data):
    """if c { ..return } rest -> if c { ..return } else { rest }"""
    def fb(b, c):
        for j, s in enumerate(b[:-1]):
            if s.get("k") == "Expr" and s["e"].get("k") == "If" and "e" not in s["e"] and s["e"]["t"] and (s["e"]["t"][-1].get("e") or {}).get("k") == "Return":
                return b[:j] + [es(dict(s["e"], e=blk(*fb(b[j + 1:], c))), False)]
        return b
    return bodies(data, fb=fb)


@rw
def tail_let(data):
    def f(i, im, add):
        b = rewrite(i["b"], None, None)
        if b and b[-1].get("k") == "Expr" and not b[-1].get("semi") and b[-1]["e"].get("k") not in ("For", "While", "Loop", "Return"):
            v = fresh("result")
            b = b[:-1] + [local(v, b[-1]["e"]), es(path(v), False)]
        return dict(i, b=b)
    return eachfn(data, f)


@rw
def tail_return(data):
    def f(i, im, add):
        b = i["b"]
        if b and b[-1].get("k") == "Expr" and not b[-1].get("semi") and b[-1]["e"].get("k") not in ("For", "While", "Loop", "Return"):
            b = b[:-1] + [es(ret(b[-1]["e"]))]
        return dict(i, b=b)
    return eachfn(data, f)


@rw
def self_pallet(data):
    def f(i, im, add):
        if not im or im.get("k") != "Impl" or not im["t"].get("p") or im["t"]["p"][-1]["n"] != "Pallet":
            return i

        def fe(n, c):
            if n["k"] == "Path" and len(n.get("p", [])) == 2 and n["p"][0]["n"] == "Self" and n["p"][1]["n"][0].islower():
                return dict(n, p=[{"n": "Pallet", "g": [{"k": "Path", "p": [{"n": "T"}]}]}, n["p"][1]])
            return n
        return dict(i, b=rewrite(i["b"], fe))
    return eachfn(data, f)


@rw
def getter_get(data):
    get = C["getters"]
    out = []
    for d in data:
        g = get(d["file"])

        def fe(n, c):
            if n["k"] == "Call" and n["f"].get("k") == "Path" and len(n["f"].get("p", [])) == 2 and n["f"]["p"][0]["n"] == "Self" and n["f"]["p"][1]["n"] in g:
                return dict(n, f={"k": "Path", "p": [{"n": g[n["f"]["p"][1]["n"]], "g": [{"k": "Path", "p": [{"n": "T"}]}]}, {"n": "get"}], "l": 1})
            return n
        out += bodies([d], fe=fe)
    return out


@rw
def get_getter(data):
    get = C["getters"]
    out = []
    for d in data:
        g = {v: k for k, v in get(d["file"]).items()}

        def f(i, im, add, g=g):
            if not im or im.get("k") != "Impl" or not im["t"].get("p") or im["t"]["p"][-1]["n"] != "Pallet":
                return i

            def fe(n, c):
                if n["k"] == "Call" and n["f"].get("k") == "Path" and len(n["f"].get("p", [])) == 2 and n["f"]["p"][0]["n"] in g and n["f"]["p"][1]["n"] == "get":
                    return dict(n, f={"k": "Path", "p": [{"n": "Self"}, {"n": g[n["f"]["p"][0]["n"]]}], "l": 1})
                return n
            return dict(i, b=rewrite(i["b"], fe))
        out += eachfn([d], f)
    return out


def pure(e):
    for x in sub(e):
        k = x.get("k")
        if k in ("Try", "Return", "Macro", "Assign", "Break", "Continue", "Closure", "Await"):
            return False
        if k == "Ref" and x.get("m"):
            return False
        if k == "Binary" and x["o"].endswith("=") and x["o"] not in NEG:
            return False
        if k == "Call" and x["f"].get("k") == "Path":
            n = x["f"]["p"][-1]["n"]
            if not (n[0].isupper() or n in ("get", "from", "new", "default", "contains_key", "block_number", "account_id", "zero", "into_account_truncating")):
                return False
        elif k == "Call":
            return False
        if k == "Method" and x["m"] not in ("clone", "into", "len", "get", "saturating_add", "saturating_sub", "saturating_mul", "to_vec", "iter", "is_empty", "as_ref", "into_account_truncating", "unwrap_or_default", "unwrap_or", "is_some", "is_none", "contains"):
            return False
    return True


@rw
def swap_lets(data):
    def fb(b, c):
        o = list(b)
        j = 0
        while j + 1 < len(o):
            s, t = o[j], o[j + 1]
            if all(x.get("k") == "Local" and x.get("e") and "else" not in x and pure(x["e"]) for x in (s, t)):
                if not (binds(s["p"]) & (uses(t["e"]) | binds(t["p"]))) and not (binds(t["p"]) & uses(s["e"])):
                    o[j], o[j + 1] = t, s
                    j += 2
                    continue
            j += 1
        return o
    return bodies(data, fb=fb)


@rw
def swap_ensures(data):
    """adjacent checks with the same kind of outcome, in the other order"""
    def fb(b, c):
        o = list(b)
        j = 0
        while j + 1 < len(o):
            s, t = o[j], o[j + 1]
            if isensure(s) and isensure(t) and not has(s["e"]["a"][0], "Index", "Try") and not has(t["e"]["a"][0], "Index", "Try"):
                o[j], o[j + 1] = t, s
                j += 2
                continue
            j += 1
        return o
    return bodies(data, fb=fb)


@rw
def delay_let(data):
    """a let moves down to just before the first statement that uses it"""
    def fb(b, c):
        o = list(b)
        for j in range(len(o) - 2, -1, -1):
            s = o[j]
            if s.get("k") == "Local" and s.get("e") and "else" not in s and pure(s["e"]) and not has(s["e"], "Call", "Method") and not any(x["m"] for x in sub(s["p"]) if x.get("k") == "Ident" and "m" in x):
                n = binds(s["p"])
                k = j + 1
                while k < len(o) and not (n & uses(o[k])) and pure(o[k].get("e") or {}) and not (binds(o[k].get("p") or {}) & uses(s["e"])):
                    k += 1
                if k > j + 1:
                    o.insert(k, s)
                    del o[j]
        return o
    return bodies(data, fb=fb)


@rw
def opt_spell(data):
    def fe(n, c):
        if n["k"] == "Method" and not n["a"]:
            if n["m"] == "is_none":
                return {"k": "Unary", "o": "!", "e": meth(n["r"], "is_some")}
            if n["m"] == "is_err":
                return {"k": "Unary", "o": "!", "e": meth(n["r"], "is_ok")}
            if n["m"] == "unwrap_or_default":
                return meth(n["r"], "unwrap_or_else", {"k": "Closure", "a": [], "b": call("Default::default"), "async": False})
            if n["m"] == "is_empty" and n["r"].get("k") == "Path":
                return {"k": "Binary", "o": "==", "a": meth(n["r"], "len"), "b": {"k": "Lit", "t": "int", "v": "0", "s": ""}, "l": 1}
        if n["k"] == "Method" and n["m"] == "unwrap_or" and n["r"].get("k") == "Method" and n["r"]["m"] == "map":
            return meth(n["r"]["r"], "map_or", n["a"][0], n["r"]["a"][0])
        if n["k"] == "Method" and n["m"] == "ok_or" and len(n["a"]) == 1:
            return meth(n["r"], "ok_or_else", {"k": "Closure", "a": [], "b": n["a"][0], "async": False})
        return n
    return bodies(data, fe=fe)


@rw
def opt_match(data):
    N = {"k": "Path", "p": [{"n": "None"}]}

    def fe(n, c):
        if n["k"] == "Method" and n["m"] == "is_some" and not n["a"]:
            return match(n["r"], (ts("Some", {"k": "Wild"}), {"k": "Lit", "t": "bool", "v": True}), (N, {"k": "Lit", "t": "bool", "v": False}))
        if n["k"] == "Method" and n["m"] == "unwrap_or" and len(n["a"]) == 1 and n["r"].get("k") == "Method" and n["r"]["m"].startswith("checked_"):
            v = fresh("v")
            return match(n["r"], (ts("Some", ident(v)), path(v)), (N, n["a"][0]))
        if n["k"] == "Method" and n["m"] == "unwrap_or_default" and not n["a"]:
            v = fresh("v")
            q = n["r"]
            if q.get("k") == "Call" and q["f"].get("k") == "Path" and q["f"]["p"][-1]["n"] in ("get", "take"):
                return match(n["r"], (ts("Some", ident(v)), path(v)), (N, call("Default::default")))
        return n
    return bodies(data, fe=fe)


@rw
def extract_body(data):
    """the whole body becomes a helper of the same type"""
    def f(i, im, add):
        ps = params(i)
        if add is None or any(p is None for p in ps):
            return i
        if im and im.get("k") == "Impl" and (im["t"].get("k") != "Path" or im["t"]["p"][-1]["n"] in ("Tuple",)):
            return i
        n = fresh(i["n"] + "_inner")
        add.append(dict(i, n=n, attrs=[], v=""))
        args = [path(p) for p in ps]
        if not im:
            c = call(n, *args)
        elif selfparam(i):
            c = meth(path("self"), n, *args)
        else:
            c = call("Self::" + n, *args)
        return dict(i, b=[es(c, False)])
    return eachfn(data, f)


def selfparam(i):
    return any(x.get("self") for x in i["in"])


def selfs(i):
    return [x for x in i["in"] if x.get("self")]


@rw
def extract_checks(data):
    """runs of leading checks over the parameters become a helper"""
    def f(i, im, add):
        ps = params(i)
        if add is None or any(p is None for p in ps) or not result(i):
            return i
        b = i["b"]
        run, pos = [], None
        for j, s in enumerate(b):
            if isensure(s) and uses(s) & set(ps) and not (uses(s) & set().union(*[binds(x.get("p") or {}) for x in b[:j]])):
                if pos is None:
                    pos = j
                run.append(s)
            elif run:
                break
        if not run:
            return i
        n = fresh("check_" + i["n"])
        used = [p for p in ps if p in uses(run)]
        r = {"k": "Path", "p": [{"n": "DispatchResult"}]}
        h = dict(i, n=n, attrs=[], v="", b=run + [es(call("Ok", {"k": "Tuple", "a": []}), False)])
        h["in"] = selfs(i) + [p for p, q in zip(typed(i), ps) if q in used]
        if i["out"]["p"][-1]["n"] not in ("EvmResult", "Result"):
            h["out"] = r
        add.append(h)
        # parameters used again are passed by clone
        args = [meth(path(p), "clone") for p in used]
        c = meth(path("self"), n, *args) if im and selfparam(i) else call(("Self::" if im else "") + n, *args)
        return dict(i, b=b[:pos] + [es({"k": "Try", "e": c, "l": 1})] + b[pos + len(run):])
    return eachfn(data, f)


@rw
def extract_tail(data):
    """the second half of the body becomes a helper, locals passed as arguments of unknown type"""
    def f(i, im, add):
        ps = params(i)
        if add is None or any(p is None for p in ps):
            return i
        b = i["b"]
        if len(b) < 3:
            return i
        k = len(b) // 2
        if any(s.get("k") == "Item" for s in b) or any(x["m"] for s in b[:k] for x in sub(s.get("p") or {}) if x.get("k") == "Ident" and "m" in x):
            return i
        u = uses(b[k:]) | {w for x in sub(b[k:]) if x.get("k") == "Lit" and x.get("t") == "str" for w in re.findall(r"\{(\w+)", x["v"])}
        loc = []
        types = {}
        for s in b[:k]:
            if s.get("k") == "Local":
                for n in sorted(binds(s["p"])):
                    if n not in loc:
                        loc.append(n)
                    types[n] = s["p"]["t"] if s["p"].get("k") == "Type" and s["p"]["p"].get("k") == "Ident" else {"k": "Infer"}
        for s in b[:k]:
            for x in sub(s):
                if x.get("k") == "Macro" and x["n"] == "read_args":
                    for t in x.get("toks") or []:
                        if isinstance(t, dict):
                            c = t["c"]
                            for j, y in enumerate(c):
                                if y == ":" and isinstance(c[j - 1], str) and c[j - 1].isidentifier() and (j + 1 >= len(c) or c[j + 1] != ":") and (j < 2 or c[j - 2] in (",",) or j == 1):
                                    loc.append(c[j - 1])
                                    types[c[j - 1]] = {"k": "Infer"}
        al = [(p, q) for p, q in zip(typed(i), ps) if q in u and q not in loc]
        ll = [n for n in loc if n in u]
        n = fresh(i["n"] + "_rest")
        h = dict(i, n=n, attrs=[], v="", b=b[k:])
        h["in"] = selfs(i) + [p for p, _ in al] + [{"p": ident(x), "t": types[x]} for x in ll]
        add.append(h)
        args = [path(q) for _, q in al] + [path(x) for x in ll]
        if im and selfparam(i) and "self" in u:
            c = meth(path("self"), n, *args)
        else:
            c = meth(path("self"), n, *args) if im and selfparam(i) else call(("Self::" if im else "") + n, *args)
        semi = bool(b[-1].get("semi")) and not result(i)
        return dict(i, b=b[:k] + [es(c, semi)])
    return eachfn(data, f)


@rw
def mutate_getput(data):
    """Storage::mutate(k, |v| body) as a statement -> read, change, write back (value queries)"""
    ST = C["storages"]
    out = []
    for d in data:
        st = ST(d["file"])

        def fb(b, c):
            o = []
            for s in b:
                e = s.get("e") if s.get("k") == "Expr" and s.get("semi") else None
                if e and e.get("k") == "Call" and e["f"].get("k") == "Path" and len(e["f"].get("p", [])) == 2 and e["f"]["p"][1]["n"] == "mutate" and e["f"]["p"][0]["n"] in st and e["a"][-1].get("k") == "Closure" and e["a"][-1]["a"][0].get("k") == "Ident" and not has(e["a"][-1]["b"], "Return", "Try"):
                    base, keys, cl = e["f"]["p"][0], e["a"][:-1], e["a"][-1]
                    v = cl["a"][0]["n"]

                    def fe(n, cc):
                        if n["k"] == "Unary" and n["o"] == "*" and n["e"].get("k") == "Path" and n["e"]["p"][-1]["n"] == v:
                            return n["e"]
                        return n
                    body = rewrite(cl["b"], fe)
                    inner = body["b"] if body.get("k") == "Block" else [es(body)]
                    inner = [dict(x, semi=True) if x.get("k") == "Expr" else x for x in inner]
                    hs = [fresh("k") for _ in keys]
                    o.append(es(blk(*[local(h, k) for h, k in zip(hs, keys)], local(v, {"k": "Call", "f": {"k": "Path", "p": [base, {"n": "get"}], "l": 1}, "a": [meth(path(h), "clone") for h in hs], "l": 1}, True), *inner,
                                     es({"k": "Call", "f": {"k": "Path", "p": [base, {"n": "insert" if keys else "put"}], "l": 1}, "a": [path(h) for h in hs] + [path(v)], "l": 1}))))
                else:
                    o.append(s)
            return o
        out += bodies([d], fb=fb)
    return out


@rw
def collect_loop(data):
    """let v: Vec<_> = E.map(|x| y).collect() -> a loop that pushes"""
    def fb(b, c):
        o = []
        for s in b:
            e = s.get("e") if s.get("k") == "Local" else None
            if e and e.get("k") == "Method" and e["m"] == "collect" and e["r"].get("k") == "Method" and e["r"]["m"] == "map" and e["r"]["a"][0].get("k") == "Closure" and not has(e["r"]["a"][0]["b"], "Return"):
                t = s["p"].get("t") if s["p"].get("k") == "Type" else (e.get("g") or [None])[0]
                i = s["p"]["p"] if s["p"].get("k") == "Type" else s["p"]
                if t and t.get("k") == "Path" and t["p"][-1]["n"] == "Vec" and i.get("k") == "Ident":
                    cl = e["r"]["a"][0]
                    o.append(local(i["n"], call("Vec::new"), True))
                    o.append(es({"k": "For", "p": cl["a"][0], "e": e["r"]["r"], "b": [es(meth(path(i["n"]), "push", cl["b"]))], "l": 1}, False))
                    continue
            o.append(s)
        return o
    return bodies(data, fb=fb)


@rw
def continue_if(data):
    """for .. { if c { continue; } rest } -> for .. { if !c { rest } }"""
    def fe(n, c):
        if n["k"] in ("For", "While") and n["b"]:
            for j, s in enumerate(n["b"]):
                if s.get("k") == "Expr" and s["e"].get("k") == "If" and "e" not in s["e"] and not haslet(s["e"]["c"]) and s["e"]["t"] and (s["e"]["t"][-1].get("e") or {}).get("k") == "Continue" and "label" not in s["e"]["t"][-1]["e"]:
                    return dict(n, b=n["b"][:j] + [es(ife(neg(s["e"]["c"]), n["b"][j + 1:], blk(*s["e"]["t"][:-1])), False)])
        return n
    return bodies(data, fe=fe)


@rw
def noise(data):
    """statements that do nothing, everywhere"""
    def fb(b, c):
        o = []
        for s in b:
            o += [local({"k": "Wild"}, {"k": "Lit", "t": "int", "v": "0", "s": ""}), es({"k": "Macro", "n": "debug", "l": 1, "toks": ['"x"']})] if s.get("k") != "Item" else []
            o.append(s)
        return o
    return bodies(data, fb=fb)


@rw
def block_wrap(data):
    """let x = E -> let x = { let y = E; y }"""
    def fb(b, c):
        o = []
        for s in b:
            if s.get("k") == "Local" and s.get("e") and "else" not in s:
                v = fresh("y")
                s = dict(s, e=blk(local(v, s["e"]), es(path(v), False)))
            o.append(s)
        return o
    return bodies(data, fb=fb)


@rw
def consts(data):
    """number literals in bodies become named constants"""
    out = []
    for d in data:
        made = {}

        def fe(n, c):
            if n["k"] == "Lit" and n.get("t") == "int" and "e" not in n and int(n["v"]) > 2:
                nm = "K_%s%s" % (n["v"], n.get("s") or "")
                made[nm] = n
                return path(nm)
            return n

        def patskip(i, im, add):
            if i.get("n") in ():
                return i
            return dict(i, b=rewrite_nopat(i["b"], fe))
        x = eachfn([d], patskip)[0]
        if made and "items" in x:
            its = [{"k": "Const", "n": k, "t": {"k": "Path", "p": [{"n": v.get("s") or "u128"}]}, "e": v, "attrs": [], "v": ""} for k, v in made.items()]
            x = dict(x, items=its + x["items"])
        out.append(x)
    return out


def rewrite_nopat(n, fe):
    if isinstance(n, dict):
        m = {k: v if k in ("p", "pat", "toks", "attrs", "t") and not (k == "t" and n.get("k") == "If") else rewrite_nopat(v, fe) for k, v in n.items()}
        return fe(m, False) if m.get("k") else m
    if isinstance(n, list):
        return [rewrite_nopat(v, fe) for v in n]
    return n


# ---- running ------------------------------------------------------------------------------------------------------
def work(a):
    pid = a
    from sa.rules.base import REG, Ctx, Anchor
    m = C["model"]
    ctx = Ctx(pid, m)
    ctx.tier = "quick"
    try:
        for r in REG[pid]:
            try:
                r(ctx)
            except Anchor:
                pass
    except Exception as e:
        return pid, ["CRASH %r" % e]
    known = C["known"]
    return pid, [v.key() for v in ctx.viol if v.key() not in known]


def main():
    import sa.rules as Ru
    for x in pkgutil.iter_modules(Ru.__path__):
        importlib.import_module("sa.rules." + x.name)
    from sa.rules.base import REG
    from sa.model import Model, run_extract, REPO
    data = run_extract(REPO)
    m0 = Model(ast=copy.deepcopy(data))
    C["known"] = {k["key"] for k in json.load(open(os.path.join(HERE, "known_findings.json")))["findings"] if k["status"] == "known"}

    def crate(f):
        d = os.path.dirname(f)
        while d and d not in m0.bydir:
            d = os.path.dirname(d)
        return m0.bydir.get(d)
    C["getters"] = lambda f: crate(f).getters if crate(f) else {}
    C["storages"] = lambda f: {n for n, s in crate(f).storages.items() if not s.optional} if crate(f) else set()
    which = sys.argv[1].split(",") if len(sys.argv) > 1 and sys.argv[1] != "all" else list(R)
    props = sys.argv[2:] or sorted(REG)
    N = int(os.environ.get("N", "8"))
    V = int(os.environ.get("V", "2"))
    for w in which:
        d2 = R[w](copy.deepcopy(data))
        ch = sum(json.dumps(a.get("items")) != json.dumps(b.get("items")) for a, b in zip(data, d2))
        C["model"] = Model(ast=d2)
        with mp.get_context("fork").Pool(N, maxtasksperchild=4) as p:
            res = p.map(work, props, chunksize=1)
        bad = [(a, b) for a, b in res if b]
        print("== %s: %d files changed, %d of %d properties raise alarms: %s" % (w, ch, len(bad), len(props), " ".join(a for a, _ in bad)), flush=True)
        for a, b in bad:
            for k in b[:V]:
                print("   ", a, len(b), k[:260], flush=True)


if __name__ == "__main__":
    main()
